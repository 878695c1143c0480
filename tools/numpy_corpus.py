"""Writes NPY files with the real NumPy: numpy_corpus.py DIR [thorough]
index.txt has one line per file:  tab-separated: name descr fortran shape value-bytes-file
where the values are given element by element in storage order, little-endian."""
import io, itertools, os, sys
import numpy as np
from numpy.lib import format as fmt

out, thorough = sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == "thorough"
os.makedirs(out, exist_ok=True)
CODES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1"]
SHAPES = [(), (0,), (1,), (5,), (2, 3), (3, 0), (3, 2, 2), (1, 1, 1, 2), (2,) * 5, (1000,), (70000,) if thorough else (7000,), (1,) * 30, (2,) + (1,) * 20]
WORDS = ["", "a", "hello", "\u00e9\u4e2d", "\U0001F600x", "a\0b", " sp ", "zzzzzzzzzzzzzzzzzzzzzzzz"]
n = 0
idx = open(os.path.join(out, "index.txt"), "w")


def emit(a, version):
    global n
    name = f"{n}.npy"
    n += 1
    with open(os.path.join(out, name), "wb") as f:
        fmt.write_array(f, a, version=version)
    fortran = a.flags.f_contiguous and not a.flags.c_contiguous
    flat = a.ravel(order="F" if fortran else "C")
    le = flat.astype(flat.dtype.newbyteorder("<")) if flat.dtype.byteorder == ">" else flat
    with open(os.path.join(out, name + ".raw"), "wb") as f:
        f.write(le.tobytes())
    d = a.dtype.str
    idx.write("\t".join([name, d, str(int(fortran)), ",".join(map(str, a.shape)), name + ".raw"]) + "\n")


for code in CODES:
    for order in ("<", ">") if code[1:] != "1" else ("|",):
        dt = np.dtype(order + code)
        for shape in SHAPES:
            cnt = int(np.prod(shape))
            raw = bytes((i * 167 + 13 + (i >> 8)) & 255 for i in range(cnt * dt.itemsize))
            if code == "b1":
                raw = bytes(b & 1 for b in raw)
            base = np.frombuffer(raw, dtype=dt)
            for forder in ("C", "F"):
                a = base.reshape(shape, order=forder)
                for version in ((1, 0), (2, 0)):
                    emit(a, version)
for order in "<>":
    for w in (0, 1, 5, 24, 100):
        for shape in SHAPES[:9]:
            cnt = int(np.prod(shape))
            a = np.array([WORDS[(i + w) % len(WORDS)] for i in range(cnt)], dtype=f"{order}U{w}").reshape(shape)
            if a.dtype.itemsize != 4 * w:
                continue
            for version in ((1, 0), (2, 0)):
                emit(a, version)
                emit(np.asfortranarray(a), version)
# a user's own header_data_from_array dictionaries, as numpy formats them
idx.close()
print(n)
