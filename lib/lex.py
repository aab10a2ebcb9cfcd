"""Independent reference lexer for field 15 (no regular expressions, no code of /repo).

tokenize(text, ws)  -> list of (text, start, end)
classify(text)      -> (base_name, sub_name) as documented syntax prescribes
"""

STD_WS = " \n\t\r/"
MAX_LEN = 25

UPPER = frozenset("ABCDEFGHIJKLMNOPQRSTUVWXYZ")
DIGIT = frozenset("0123456789")

SPEED_DIGITS = {"N": 4, "K": 4, "M": 3}
LEVEL_DIGITS = {"F": 3, "A": 3, "S": 4, "M": 4}

KEYWORDS = {
    "/": ("SLASH", "SLASH"),
    "VFR": ("BREAK_START", "VFR"), "OAT": ("BREAK_START", "OAT"), "IFPSTOP": ("BREAK_START", "IFPSTOP"),
    "IFR": ("BREAK_END", "IFR"), "GAT": ("BREAK_END", "GAT"), "IFPSTART": ("BREAK_END", "IFPSTART"),
    "DCT": ("DCT", "DCT"), "T": ("TRUNCATE", "TRUNCATE"), "C": ("C", "C"),
    "SID": ("SID", "SID_LITERAL"), "STAR": ("STAR", "STAR_LITERAL"),
}

SHAPES = {}
for _s in ("x", "xx", "xxx", "xxxxx"):
    SHAPES[_s] = ("POINT", "PRP")
SHAPES["xxxx"] = ("POINT", "PRP_AERO")
for _n in range(1, 6):
    SHAPES["x" * _n + "9" * 6] = ("POINT", "PRP_BD")
for _s in ("x9", "xx9", "x9x", "x99x", "x999x", "x99", "x999", "xx9x", "xx99", "xx999", "xx99x", "xx999x"):
    SHAPES[_s] = ("ROUTE", "ATS")
SHAPES["xxx999"] = ("ROUTE", "ATS_TURK")
for _s in ("xxx9", "xxx99"):
    SHAPES[_s] = ("ROUTE", "ATS_OLD")
for _s in ("xxxx9", "xxxx99"):
    SHAPES[_s] = ("ROUTE", "ATS_RUS")
for _s in ("xxx9x", "xxx99x", "xxxxx9", "xxxxx99", "xxxx9x", "xxxxx9x", "xxxxxx9x", "xxxxx99x"):
    SHAPES[_s] = ("SID_STAR", "STAR")

# A comment in the repository's table promises this ATS shape, the table itself does not list it:
# the documentation is ambiguous, so nothing is claimed about texts of this shape.
AMBIGUOUS_SHAPES = frozenset(["x999xx"])


def shape(text):
    out = []
    for ch in text:
        out.append("x" if ch in UPPER else "9" if ch in DIGIT else "?")
    return "".join(out)


def is_ambiguous(text):
    return shape(text) in AMBIGUOUS_SHAPES


def _digits(text, i, n):
    return i + n <= len(text) and all(c in DIGIT for c in text[i:i + n])


def _speed_form(text):
    """speed followed by VFR, one level, two levels or a level and PLUS."""
    u = text[:1]
    if u not in SPEED_DIGITS:
        return None
    n = SPEED_DIGITS[u]
    if not _digits(text, 1, n):
        return None
    i = 1 + n
    if text[i:] == "VFR":
        return ("SPEED_VFR", "SPEED_ALTITUDE_" + u + "V")
    levels = ""
    while i < len(text) and text[i] in LEVEL_DIGITS and _digits(text, i + 1, LEVEL_DIGITS[text[i]]):
        levels += text[i]
        i += 1 + LEVEL_DIGITS[text[i]]
    rest = text[i:]
    if rest == "":
        if len(levels) == 1:
            return ("SPEED_ALTITUDE", "SPEED_ALTITUDE_" + u + levels)
        if len(levels) == 2:
            return ("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_" + u + levels)
    elif rest == "PLUS" and len(levels) == 1:
        return ("SPEED_ALTITUDE_PLUS", "SPEED_ALTITUDE_" + u + levels + "_P")
    return None


def _coordinate(text):
    for dl, sub in ((2, "DEG"), (4, "MIN")):
        j = dl + 1
        k = j + dl + 1
        if len(text) < k + 1 or not _digits(text, 0, dl) or text[dl] not in "NS":
            continue
        if not _digits(text, j, dl + 1) or text[k] not in "EW":
            continue
        rest = text[k + 1:]
        if rest == "":
            return ("POINT", "LL_" + sub)
        if len(rest) == 6 and _digits(rest, 0, 6):
            return ("POINT", "LLBD_" + sub)
    return None


def classify(text):
    if len(text) > MAX_LEN:
        return ("TOO_LONG", "UNKNOWN")
    if text in KEYWORDS:
        return KEYWORDS[text]
    if len(text) == 5 and text[:4] == "STAY" and text[4] in DIGIT:
        return ("STAY", "STAY")
    if len(text) == 4 and _digits(text, 0, 4):
        if int(text[:2]) <= 23 and int(text[2:]) <= 59:
            return ("STAY_TIME", "STAY_TIME")
        return ("UNKNOWN", "UNKNOWN")
    if text[:3] == "NAT" and len(text) in (4, 5) and text[3] in UPPER and (len(text) == 4 or text[4] in DIGIT):
        return ("ROUTE", "NAT")
    if text[:3] == "PTS" and len(text) == 4 and (text[3] in UPPER or text[3] in DIGIT):
        return ("ROUTE", "PTS")
    r = _coordinate(text) or _speed_form(text)
    if r:
        return r
    return SHAPES.get(shape(text), ("UNKNOWN", "UNKNOWN"))


def tokenize(text, ws=STD_WS):
    out = []
    start = None
    for i, ch in enumerate(text):
        if ch in ws:
            if start is not None:
                out.append((text[start:i], start, i))
                start = None
            if ch == "/":
                out.append(("/", i, i + 1))
        elif start is None:
            start = i
    if start is not None:
        out.append((text[start:], start, len(text)))
    return out
