"""Writes spec/Enc.tla: the byte tables of legacy encodings (the environment:
Python's codecs).  Run once; the result is committed."""
import os

SINGLE = [("windows-1252", "cp1252"), ("iso-8859-1", "latin-1"), ("windows-1251", "cp1251"),
          ("windows-1250", "cp1250"), ("koi8-r", "koi8-r"), ("iso-8859-2", "iso-8859-2"),
          ("iso-8859-5", "iso-8859-5"), ("iso-8859-15", "iso-8859-15"), ("ibm866", "cp866"),
          ("windows-1253", "cp1253"), ("us-ascii", "ascii")]
MULTI = [("shift_jis", "shift_jis"), ("euc-jp", "euc-jp"), ("euc-kr", "euc-kr"), ("big5", "big5"),
         ("gbk", "gbk"), ("gb18030", "gb18030")]
MBCHARS = ("\u00a7\u00b0\u00e9\u00ff\u0410\u044f\u20ac\u2116\u2260\u3000\u3042\u30a2\u30bd\u65e5\u672c\u8868"
           "\u80fd\u4e2d\u6587\u529f\u8a31\ud55c\uae00\uff21\uff71\ufffd\U0001f308\U00020000")


def ident(n):
    return "T_" + n.replace("-", "").replace("_", "")


def main():
    out = ["-------------------------------- MODULE Enc --------------------------------",
           r"\* Generated by harness/mkenc.py from the environment's codecs.",
           r"\* Single-byte encodings: the code points of bytes 128..255 (0: unassigned).",
           r"\* Multi-byte encodings: byte sequences of a declared set of code points.",
           "EXTENDS Integers, Sequences, TLC", ""]
    for n, py in SINGLE:
        row = []
        for b in range(128, 256):
            try:
                row.append(ord(bytes([b]).decode(py)))
            except UnicodeDecodeError:
                row.append(0)
        lines = [", ".join(map(str, row[i:i + 16])) for i in range(0, 128, 16)]
        out += ["S%s ==\n  <<%s>>" % (ident(n), ",\n    ".join(lines)),
                "%s == LET t == S%s I == {i \\in 1..128 : t[i] # 0} IN\n"
                "  [c \\in {t[i] : i \\in I} |-> <<127 + CHOOSE i \\in I : t[i] = c>>]" % (ident(n), ident(n)), ""]
    out += ["MBKnown == {%s}" % ", ".join(str(ord(c)) for c in MBCHARS), ""]
    for n, py in MULTI:
        rows = []
        for c in MBCHARS:
            try:
                rows.append("(%d :> <<%s>>)" % (ord(c), ", ".join(map(str, c.encode(py)))))
            except UnicodeEncodeError:
                pass
        lines = [" @@ ".join(rows[i:i + 3]) for i in range(0, len(rows), 3)]
        out += ["%s ==\n  %s" % (ident(n), " @@\n  ".join(lines)), ""]
    out += ["MultiByte == {%s}" % ", ".join('"%s"' % n for n, _ in MULTI),
            "EncTable(e) ==\n  CASE " + "\n    [] ".join(
                'e = "%s" -> %s' % (n, ident(n)) for n, _ in SINGLE + MULTI),
            "=" * 77]
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "spec", "Enc.tla")
    with open(p, "w") as f:
        f.write("\n".join(out) + "\n")


if __name__ == "__main__":
    main()
