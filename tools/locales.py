#!/usr/bin/env python3
"""locales.py DIR TIER: compiles some of the C library's locales into DIR."""
import concurrent.futures as cf, os, shutil, subprocess, sys
d = sys.argv[1]
os.makedirs(d, exist_ok=True)
want = [("de_DE", "UTF-8"), ("en_US", "UTF-8"), ("hi_IN", "UTF-8"), ("tr_TR", "ISO-8859-9"), ("ja_JP", "SHIFT_JIS"), ("fa_IR", "UTF-8"), ("de_CH", "ISO-8859-1"), ("zh_HK", "BIG5-HKSCS")]
if shutil.which("localedef") and os.path.isdir("/usr/share/i18n/locales"):
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda w: subprocess.run(["localedef", "-c", "-i", w[0], "-f", w[1], "--no-archive", os.path.join(d, w[0] + "." + w[1])],
                                             stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL), want))
