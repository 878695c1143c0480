"""Writes archives with the real NumPy and zipfile: numpy_archives.py DIR [thorough]
index.txt: one line per archive: file, "exact" or "maybe", then name=entry-file for each entry.
"maybe": the archive uses a feature that the library may refuse."""
import io, itertools, os, sys, warnings, zipfile, zlib
import numpy as np
warnings.simplefilter("ignore")

out, thorough = sys.argv[1], len(sys.argv) > 2 and sys.argv[2] == "thorough"
os.makedirs(out, exist_ok=True)
idx = open(os.path.join(out, "index.txt"), "w")
n = 0


def npy(a):
    b = io.BytesIO()
    np.lib.format.write_array(b, np.asanyarray(a))
    return b.getvalue()


def emit(data, mode, entries):
    global n
    name = f"{n}.npz"
    with open(os.path.join(out, name), "wb") as f:
        f.write(data)
    parts = []
    for i, (k, body) in enumerate(entries):
        e = f"{n}.{i}"
        with open(os.path.join(out, e), "wb") as f:
            f.write(body)
        parts.append(f"{k}={e}")
    idx.write("\t".join([name, mode] + parts) + "\n")
    n += 1


CODES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f4", "f8", "c8", "c16", "b1"]
SHAPES = [(), (0,), (1,), (5,), (2, 3), (3, 0), (3, 2, 2), (1000,)]


def make(code, order, shape, forder, seed=13):
    dt = np.dtype(("|" if code[1:] == "1" else order) + code)
    cnt = int(np.prod(shape))
    raw = bytes((i * 167 + seed + (i >> 8)) & 255 for i in range(cnt * dt.itemsize))
    if code == "b1":
        raw = bytes(b & 1 for b in raw)
    return np.frombuffer(raw, dtype=dt).reshape(shape, order=forder)


arrays = {}
for code in CODES:
    for order in "<>":
        for shape in SHAPES:
            for fo in "CF":
                arrays[f"{code}{'le' if order == '<' else 'be'}{'x'.join(map(str, shape))}{fo}"] = make(code, order, shape, fo)
WORDS = ["", "a", "hello", "\u00e9\u4e2d", "\U0001F600x"]
for w in (1, 5, 24):
    for order in "<>":
        arrays[f"U{w}{'le' if order == '<' else 'be'}"] = np.array([WORDS[(i + w) % 5] for i in range(6)], dtype=f"{order}U{w}").reshape(2, 3)

# 1. every array alone, both savers
for k, a in arrays.items():
    for save in (np.savez, np.savez_compressed):
        b = io.BytesIO()
        save(b, **{k: a})
        emit(b.getvalue(), "exact", [(k + ".npy", npy(a))])
# 2. many arrays together, positional arrays
names = list(arrays)
for save in (np.savez, np.savez_compressed):
    for step in (1, 2, 3, 5, 17):
        sel = names[::step]
        b = io.BytesIO()
        save(b, **{k: arrays[k] for k in sel})
        emit(b.getvalue(), "exact", [(k + ".npy", npy(arrays[k])) for k in sel])
    b = io.BytesIO()
    save(b, *[arrays[k] for k in names[:12]])
    emit(b.getvalue(), "exact", [(f"arr_{i}.npy", npy(arrays[k])) for i, k in enumerate(names[:12])])
    # names
    weird = ["a b", "dir/sub/x", "\u00e9", "\u4e2d\u6587", "x.npy", "a.b.c", "-", "..", "A", "a"]
    b = io.BytesIO()
    save(b, **{k: np.arange(i + 1, dtype="<i4") for i, k in enumerate(weird)})
    emit(b.getvalue(), "exact", [(k + ".npy", npy(np.arange(i + 1, dtype="<i4"))) for i, k in enumerate(weird)])
    # large arrays of several kinds of content
    for mb in (1, 3):
        cnt = mb * 131072 + 77
        for kind, a in (("zero", np.zeros(cnt)), ("ramp", np.arange(cnt, dtype="<f8")), ("noise", np.frombuffer(np.random.RandomState(5).bytes(cnt * 8), dtype="<f8"))):
            b = io.BytesIO()
            save(b, x=a)
            emit(b.getvalue(), "exact", [("x.npy", npy(a))])
# 3. zipfile with every option
body = [("a.npy", npy(arrays["i4le2x3C"])), ("b.npy", npy(arrays["f8be5C"])), ("c.npy", npy(arrays["U5le"]))]
for method in (zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2, zipfile.ZIP_LZMA):
    for level in range(10) if method == zipfile.ZIP_DEFLATED else (None,):
        for force in (False, True):
            for date in ((1980, 1, 1, 0, 0, 0), (2026, 11, 19, 23, 59, 58), (2107, 12, 31, 0, 0, 0)):
                for comment, extra, attr, system in itertools.product((b"", b"entry comment", b"PK\5\6" + b"x" * 40), (b"", b"UT\5\0\3abcd", b"\xfe\xca\0\0UT\5\0\3abcd"), (0, 0o100644 << 16, 0x20), (0, 3)):
                    if level not in (None, 1, 6, 9) and (comment or extra or attr):
                        continue
                    b = io.BytesIO()
                    with zipfile.ZipFile(b, "w", method, compresslevel=level) as z:
                        for k, data in body:
                            zi = zipfile.ZipInfo(k, date)
                            zi.compress_type = method
                            zi.comment, zi.extra, zi.external_attr, zi.create_system = comment, extra, attr, system
                            with z.open(zi, "w", force_zip64=force) as f:
                                f.write(data)
                    emit(b.getvalue(), "exact" if method in (0, 8) else "maybe", body)
# 4. streamed archives (sizes unknown when the entry starts), archive comments, appended archives
class Pipe(io.RawIOBase):
    def __init__(self):
        self.b = b""

    def writable(self):
        return True

    def write(self, x):
        self.b += bytes(x)
        return len(x)


for method in (0, 8):
    p = Pipe()
    with zipfile.ZipFile(p, "w", method) as z:
        for k, data in body:
            z.writestr(k, data)
    emit(p.b, "maybe", body)
    for c in (b"c", b"comment" * 20, b"PK\5\6" + b"\0" * 18):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", method) as z:
            for k, data in body:
                z.writestr(k, data)
            z.comment = c
        emit(b.getvalue(), "maybe", body)
    for prefix in (b"#!/bin/sh\n", b"x" * 3000):
        b = io.BytesIO(prefix)
        b.seek(0, 2)
        with zipfile.ZipFile(b, "a", method) as z:
            for k, data in body:
                z.writestr(k, data)
        emit(b.getvalue(), "exact", body)
    # appending rewrites the directory
    b = io.BytesIO()
    for k, data in body:
        with zipfile.ZipFile(b, "a", method) as z:
            z.writestr(k, data)
    emit(b.getvalue(), "exact", body)
# more entries than one directory read, and than the classic limit
for cnt in (255, 256, 1000) + ((65534, 65535, 65536) if thorough else ()):
    b = io.BytesIO()
    e = npy(np.arange(3, dtype="<i2"))
    with zipfile.ZipFile(b, "w") as z:
        for i in range(cnt):
            z.writestr(f"e{i}.npy", e)
    emit(b.getvalue(), "exact", [(f"e{i}.npy", e) for i in (range(cnt) if cnt < 2000 else (0, 1, 65533, cnt - 1))] if cnt < 2000 else [("e0.npy", e), ("*", b"%d" % cnt)])
idx.close()
print(n)
