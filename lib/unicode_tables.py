"""Writes spec/Unicode.tla from the Unicode character database of Python
(version 15.0): an independent account of what Rust's tables say.  Only what
is settled by general category or by the derived properties Uppercase and
Lowercase; combining marks, some of which count as alphabetic, are left out.

Run by hand when the tables are to be renewed; spec/Unicode.tla is committed.
"""
import os
import re
import unicodedata

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Unicode.tla")


# Characters whose category a later version changed (U+0295: 16.0, Ll to Lo).
CHANGED = {0x295}


def kind(c):
    ch = chr(c)
    if c in CHANGED:
        return ""
    k = unicodedata.category(ch)
    if ch.isupper() and k[0] != "C":
        return "U"
    if ch.islower() and k[0] != "C":
        return "L"
    if k[0] == "L" or k == "Nl":
        return "O"
    if k in ("Nd", "No"):
        return "N"
    if k[0] in "PZS" or k in ("Cc", "Cf") or c in (0xE000, 0xE001, 0xF8FF, 0xF0000, 0x10FFFD):
        return "P"
    return ""


def ranges(k):
    out = []
    for c in range(0x110000):
        if 0xD800 <= c < 0xE000 or kind(c) != k:
            continue
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return out


def main():
    names = {"U": ("UpperR", "Uppercase"), "L": ("LowerR", "Lowercase"), "O": ("LetterR", "letters that are neither, and letter numbers"),
             "N": ("NumberR", "decimal digits and other numbers"), "P": ("PlainR", "punctuation, symbols, separators, controls, formats, some private use")}
    body = []
    for k, (name, what) in names.items():
        flat = ", ".join(f"{a}, {b}" for a, b in ranges(k))
        lines, ln = [], ""
        for w in flat.split(" "):
            if len(ln) + len(w) > 76:
                lines.append(ln)
                ln = ""
            ln += (" " if ln else "") + w
        lines.append(ln)
        body.append(f"\\* {what}\n{name} == <<\n  " + "\n  ".join(lines) + " >>\n")
    with open(OUT, "w") as f:
        f.write("""-------------------------------- MODULE Unicode --------------------------------
(***************************************************************************)
(* The characters of Unicode %s, as far as general category and the      *)
(* properties Uppercase and Lowercase settle their class: ranges           *)
(* first, last, first, last, ...  Written by lib/unicode_tables.py.        *)
(***************************************************************************)
""" % unicodedata.unidata_version + "\n".join(body) + "=" * 77 + "\n")


def tables():
    """name -> list of code points, read from the specification."""
    s = open(OUT).read()
    out = {}
    for m in re.finditer(r"^(\w+)R == <<([^>]*)>>", s, re.M):
        xs = [int(x) for x in m.group(2).replace("\n", " ").split(",")]
        out[m.group(1)] = [c for a, b in zip(xs[::2], xs[1::2]) for c in range(a, b + 1)]
    return out


if __name__ == "__main__":
    main()
