"""writes hunt/casing.inc: the full case mappings of the Unicode Character Database (from Python's unicodedata, which is made from it)"""
import os, unicodedata
out = ["// generated by mkcasing.py from the Unicode Character Database " + unicodedata.unidata_version]
for nm, f in (("upper", str.upper), ("lower", str.lower)):
    out.append("static const unsigned ref_%s[][4] = {" % nm)
    row = []
    for cp in range(0x110000):
        if 0xd800 <= cp < 0xe000:
            continue
        m = [ord(c) for c in f(chr(cp))]
        if m != [cp]:
            row.append("{%d,%s}" % (cp, ",".join(str(x) for x in m + [0] * (3 - len(m)))))
    for i in range(0, len(row), 8):
        out.append(",".join(row[i:i + 8]) + ",")
    out.append("};")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "hunt/casing.inc"), "w").write("\n".join(out) + "\n")
