"""The numbers and texts that the code under test mentions, as in a fuzzer's dictionary.
They only steer the choice of inputs; those the pinned commit does not mention come first."""
import glob, os, re

REPO = "/repo/src"
BASE = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31,
        32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 73, 76, 81, 86, 97, 101, 103, 105, 108, 109, 110, 111, 114, 115, 116, 117, 161,
        163, 195, 248, 255, 258, 512, 1024, 2020, 4113, 65535, 16777215, 50595078, 303240213, 536870912, 4294967295,
        1099511627775, 281474976710655, 72057594037927935, 506664896818842894, 1591767489389992989, 5281677201745797732,
        9223372036854775807, 9223372036854775808, 18446744073709551367}

_INT = r"(?:0x[0-9A-Fa-f_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?"
_NUM = r"(?<![\w.])" + _INT + r"(?![\w.]*\w)"
_EXP = _NUM + r"(?:\s*(?:<<|\*|\+|-)\s*" + _INT + r"(?![\w.]*\w))+"
_ARR = r"\[\s*(" + _INT + r"(?:\s*,\s*" + _INT + r")+)\s*,?\s*\]"


def _val(t):
    t = re.sub(r"[ui](8|16|32|64|128|size)$", "", t).replace("_", "")
    return int(t, 10) if re.fullmatch(r"[0-9]+", t) else int(t, 0)


def _text(s):
    def esc(m):
        c = m.group(1)
        if c[0] == "x":
            return chr(int(c[1:], 16))
        if c[0] == "u":
            try:
                return chr(int(c[2:-1], 16))
            except ValueError:
                return ""
        return {"n": "\n", "r": "\r", "t": "\t", "0": "\0"}.get(c, c)
    return re.sub(r"\\(x[0-9A-Fa-f]{2}|u\{[0-9A-Fa-f_]+\}|.)", esc, s)


def harvest():
    ints, texts, arrays = set(), set(), set()
    for p in sorted(glob.glob(REPO + "/**/*.rs", recursive=True)):
        if os.path.basename(p) == "tests.rs":
            continue
        try:
            s = open(p, encoding="utf8", errors="replace").read()
        except OSError:
            continue
        try:
            s = re.sub(r"//[^\n]*", "", s)
            for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', s):
                texts.add(_text(m.group(1)))
            for m in re.finditer(r"'([^'\\]|\\x[0-9A-Fa-f]{2}|\\u\{[0-9A-Fa-f]+\}|\\.)'", s):
                c = _text(m.group(1))
                texts.add(c)
                ints.update([ord(c)] if len(c) == 1 else [])
            s = re.sub(r'"(?:[^"\\]|\\.)*"', '""', s)
            for m in re.finditer(_NUM, s):
                ints.add(_val(m.group(0)))
            for m in re.finditer(_EXP, s):
                e = re.sub(_NUM, lambda x: str(_val(x.group(0))), m.group(0))
                if len(e) < 60:
                    parts = re.split(r"\s*(<<|\*|\+|-)\s*", e)
                    v = int(parts[0])
                    for o, x in zip(parts[1::2], parts[2::2]):
                        x = int(x)
                        v = v << min(x, 70) if o == "<<" else v * x if o == "*" else v + x if o == "+" else v - x
                    ints.add(v)
            for m in re.finditer(_ARR, s):
                a = [_val(x) for x in re.split(r"\s*,\s*", m.group(1))]
                if max(a) < 256 and len(a) < 64:
                    arrays.add(tuple(a))
        except (ValueError, OverflowError, RecursionError):
            continue
    ints = {x for x in ints if 0 <= x < 1 << 64}
    return sorted(ints), sorted(t for t in texts if 0 < len(t) < 200), sorted(arrays)


INTS, TEXTS, ARRAYS = harvest()
NEW = [x for x in INTS if x not in BASE]


def number(r, top, low=0):
    """A number mentioned, or one next to it, between low and top; or None."""
    c = [x for x in NEW if low <= x <= top + 1]
    if not c or r.random() < 0.3:
        c = [x for x in INTS if low <= x <= top + 1]
    if not c:
        return None
    x = r.choice(c) + r.choice([0, 0, 0, 1, -1])
    return x if low <= x <= top else None
