"""Seeded workload generators. Every case is a text plus the name of the generator that made it."""
import itertools, lex
import mine

UP = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
DG = "0123456789"


def letters(r, n):
    if r.random() < .04:
        few = r.choice(UP), r.choice(UP)
        return "".join(r.choice(few) for _ in range(n)) if r.random() < .5 else few[0] * n
    return "".join(r.choice(UP) for _ in range(n))


def digits(r, n):
    if r.random() < .04:
        return r.choice(DG) * n
    return "".join(r.choice(DG) for _ in range(n))


RESERVED = set(lex.KEYWORDS) | {"NATA"}


def prp(r):
    while True:
        t = mine.word(r) or letters(r, r.choice((1, 2, 2, 3, 3, 5, 5, 5)))
        if lex.classify(t) == ("POINT", "PRP"):
            return t


def aero(r):
    while True:
        t = mine.word(r) or letters(r, 4)
        if lex.classify(t) == ("POINT", "PRP_AERO"):
            return t


def bearing(r, bad=0.0):
    if r.random() < bad:
        return "%03d" % r.choice((361, 362, 370, 400, 460, 600, 720, 999, r.randint(361, 999)))
    v = mine.number(r, 360)
    return "%03d" % v if v is not None else "%03d" % r.choice((0, 1, 45, 89, 90, 91, 179, 180, 181, 269, 270, 359, 360, r.randint(0, 360),
                              r.randint(0, 360), r.randint(0, 360)))


def dist(r):
    v = mine.number(r, 999)
    return "%03d" % v if v is not None else "%03d" % r.choice((0, 1, 2, 10, 60, 500, 999, r.randint(0, 999), r.randint(0, 999)))


def lat(r, mins, bad=0.0):
    h = r.choice("NS")
    if r.random() < bad:
        if not mins:
            return "%02d%s" % (r.choice((91, 92, 95, 98, 99)), h)
        k = r.randrange(3)
        if k == 0:
            return "%02d%02d%s" % (r.choice((91, 92, 99)), r.choice((0, 1, 30, 59)), h)
        if k == 1:
            return "90%02d%s" % (r.choice((1, 2, 30, 59)), h)
        return "%02d%02d%s" % (r.randint(0, 99), r.choice((60, 61, 75, 99)), h)
    d = r.choice((0, 1, 10, 45, 89, 90, r.randint(0, 90), r.randint(0, 90), r.randint(0, 90)))
    v = mine.number(r, 90)
    d = d if v is None else v
    if not mins:
        return "%02d%s" % (d, h)
    m = 0 if d == 90 else r.choice((0, 1, 30, 58, 59, r.randint(0, 59)))
    return "%02d%02d%s" % (d, m, h)


def lon(r, mins, bad=0.0):
    h = r.choice("EW")
    if r.random() < bad:
        if not mins:
            return "%03d%s" % (r.choice((181, 182, 190, 200, 270, 360, 999)), h)
        k = r.randrange(3)
        if k == 0:
            return "%03d%02d%s" % (r.choice((181, 182, 280, 999)), r.choice((0, 1, 30, 59)), h)
        if k == 1:
            return "180%02d%s" % (r.choice((1, 2, 30, 59)), h)
        return "%03d%02d%s" % (r.randint(0, 180), r.choice((60, 61, 75, 99)), h)
    d = r.choice((0, 1, 10, 90, 179, 180, r.randint(0, 180), r.randint(0, 180), r.randint(0, 180)))
    v = mine.number(r, 180)
    d = d if v is None else v
    if not mins:
        return "%03d%s" % (d, h)
    m = 0 if d == 180 else r.choice((0, 1, 30, 58, 59, r.randint(0, 59)))
    return "%03d%02d%s" % (d, m, h)


def ll(r, bad=0.0):
    m = r.random() < 0.5
    return lat(r, m, bad) + lon(r, m, bad)


def llbd(r, bad=0.0):
    return ll(r, bad) + bearing(r, bad) + dist(r)


def bd(r, bad=0.0):
    return letters(r, r.randint(1, 5)) + bearing(r, bad) + dist(r)


def named(r):
    return prp(r) if r.random() < 0.75 else aero(r)


def coord(r, bad=0.0):
    k = r.random()
    return ll(r, bad) if k < 0.55 else llbd(r, bad) if k < 0.8 else bd(r, bad)


ROUTE_SHAPES = ("x9", "xx9", "x9x", "x99x", "x999x", "x99", "x999", "xx9x", "xx99", "xx999", "xx99x", "xx999x",
                "xxx999", "xxx9", "xxx99", "xxxx9", "xxxx99")
SIDSTAR_SHAPES = ("xxx9x", "xxx99x", "xxxxx9", "xxxxx99", "xxxx9x", "xxxxx9x", "xxxxxx9x", "xxxxx99x")


def from_shape(r, s):
    if r.random() < .04:
        a, b = r.choice(UP), r.choice(DG)
        return "".join(a if c == "x" else b for c in s)
    return "".join(r.choice(UP) if c == "x" else r.choice(DG) for c in s)


def route(r):
    k = r.random()
    if k < 0.1:
        return "NAT" + r.choice(UP) + (r.choice(DG) if r.random() < 0.5 else "")
    if k < 0.2:
        return "PTS" + r.choice(UP + DG)
    while True:
        t = mine.word(r) or from_shape(r, r.choice(ROUTE_SHAPES))
        if lex.classify(t)[0] == "ROUTE":
            return t


def sidstar(r):
    while True:
        t = mine.word(r) or from_shape(r, r.choice(SIDSTAR_SHAPES))
        if lex.classify(t)[0] == "SID_STAR":
            return t


def speed(r, u=None):
    u = u or r.choice("NNKM")
    n = lex.SPEED_DIGITS[u]
    if u == "M":
        v = r.choice((0, 1, 50, 78, 82, 85, 99, 100, 101, 250, 999, r.randint(0, 999), r.randint(50, 99)))
    else:
        v = r.choice((0, 1, 2, 99, 100, 450, 899, 1000, 9999, r.randint(0, 9999), r.randint(60, 600)))
    m = mine.number(r, 10 ** n - 1)
    return u + str(v if m is None else m).zfill(n)


def level(r, u=None, bad=0.03):
    u = u or r.choice("FFFAASM")
    n = lex.LEVEL_DIGITS[u]
    if u == "F":
        v = r.choice((0, 5, 50, 100, 350, 360, 365, 410, 995, r.randrange(0, 200) * 5, r.randrange(0, 200) * 5))
        if r.random() < bad:
            v = r.choice((1, 4, 6, 351, 354, 356, 359, 999, r.randint(0, 999)))
    elif u == "A":
        v = r.choice((0, 1, 45, 100, 999, r.randint(0, 999)))
    else:
        v = r.choice((0, 1, 84, 825, 1099, 1100, 1101, 1130, 9999, r.randint(0, 9999), r.randint(0, 1400)))
    m = mine.number(r, 10 ** n - 1)
    if m is not None and not (u == "F" and m % 5):
        v = m
    return u + str(v).zfill(n)


def sa(r, bad=0.03):
    return speed(r) + level(r, bad=bad)


def sv(r):
    return speed(r) + "VFR"


def saa(r, bad=0.03):
    return speed(r) + level(r, r.choice("FASM"), bad) + level(r, r.choice("FASM"), bad)


def sap(r, bad=0.03):
    return speed(r) + level(r, r.choice("FASM"), bad) + "PLUS"


def staytime(r):
    h = r.choice((0, 0, 1, 9, 10, 11, 19, 20, 23, r.randint(0, 23)))
    m = r.choice((0, 1, 9, 10, 30, 45, 59, r.randint(0, 59)))
    v = mine.number(r, 2359)
    if v is not None:
        h, m = (v // 100, v % 100) if v % 100 < 60 else (v // 60 % 24, v % 60)
    return "%02d%02d" % (h, m)


def staykw(r):
    return "STAY" + r.choice(DG)


NASTY = ["!", "a", "abc", "<", ">", "&", "\"", "'", "&amp;", "a<b>c", "]]>", "<!--", "A!B", "!!", "{0}", "%s", "\\n", ".",
         "..", "é", "Ω", "日本", "９", "Ａ", "\u00a0", "\u200b", "-", "--", "_", "*", "?", "[A-Z]", "^$", "|", "(", "123", "1", "2400",
         "1260", "9999", "00000", "N0450", "F350", "N450F350", "N0450F3500", "N0450F35", "M82F350", "STAY", "STAY10",
         "12N", "12N1234E", "123N12E", "1234N1234E", "12S012X", "VFR1", "ABCDEFG", "ABCDEFGH", "ABC1234", "AB1234567",
         "N0450F350PLU", "N0450F350PLUSS", "K0800S1130F35", "T1X9Z", "C1C1C1C", "DCTDCTD", "IFPSTOPX", "Ifr", "vfr",
         "N0450A0100", "M0820F350", "ABC1A2", "999", "1N1E", "ABCDEF1", "AAAAAA99A", "😀", "\u0085", "\u2028", "\x0b", "\x0c",
         "\x00", "\x1f", "N0450F350F370F390", "12N012E09006", "12N012E0900600", "ÀBC", "ſ", "ß", "K"]


def corrupt(r, t):
    """near-miss of a well-formed element"""
    k = r.randrange(4)
    i = r.randrange(len(t)) if t else 0
    c = r.choice(UP + DG + "a.-é")
    if k == 0 and len(t) > 1:
        return t[:i] + t[i + 1:]
    if k == 1:
        return t[:i] + c + t[i:]
    if k == 2:
        return t[:i] + c + t[i + 1:]
    return t + c


def unknown(r):
    k = r.random()
    if k < 0.5:
        return r.choice(NASTY)
    while True:
        t = mine.word(r) or corrupt(r, anything(r))
        if t and lex.classify(t)[0] == "UNKNOWN" and not lex.is_ambiguous(t) and not any(c in lex.STD_WS for c in t):
            return t


def toolong(r):
    n = mine.number(r, 400) or 0
    if n < 26:
        n = r.choice((26, 26, 27, 30, 40, 100))
    k = r.randrange(3)
    if k == 0:
        return letters(r, n)
    if k == 1:
        return "".join(r.choice("ABC019<&!é") for _ in range(n))
    return digits(r, n)


KINDS = {
    "PRP": prp, "AERO": aero, "BD": lambda r: bd(r, .1), "LL": lambda r: ll(r, .1), "LLBD": lambda r: llbd(r, .1),
    "ROUTE": route, "SIDSTAR": sidstar, "SA": sa, "SV": sv, "SAA": saa, "SAP": sap, "STAYKW": staykw,
    "STAYTIME": staytime, "UNKNOWN": unknown, "TOOLONG": toolong,
}
for _k in ("VFR", "OAT", "IFPSTOP", "IFR", "GAT", "IFPSTART", "DCT", "SID", "STAR", "T", "C", "/"):
    KINDS[_k] = (lambda t: (lambda r: t))(_k)
KIND_NAMES = sorted(KINDS)
PLAIN = [k for k in KIND_NAMES if k not in ("UNKNOWN", "TOOLONG")]


def anything(r):
    return KINDS[r.choice(PLAIN)](r)


def element(r):
    return KINDS[r.choice(KIND_NAMES)](r)


# ---- routes that follow the grammar -------------------------------------------------------------------

def break_text(r, opener):
    """Free text that cannot be taken for the end of the section it is in."""
    end = {"VFR": "IFR", "OAT": "GAT", "IFPSTOP": "IFPSTART"}[opener]
    out = []
    for _ in range(r.choice((0, 0, 1, 2, 3, 5))):
        t = element(r) if r.random() < 0.6 else r.choice((prp(r), "IFR", "GAT", "IFPSTART", "VFR", "OAT", "DCT", "/"))
        if t == end or len(t) > 25:
            t = prp(r)
        out.append(t)
    if r.random() < 0.15:
        # the terminator followed by something that cannot complete it
        out += [end, r.choice(("DCT", "B9", "N0100F100", "T", end[::-1].lower()))]
    return out


def echo(r, toks):
    """Elements of equal kind repeat: each replaced by one of few texts of its kind in the same list."""
    pool = {}
    out = []
    for t in toks:
        k = lex.classify(t)
        seen = pool.setdefault(k, [])
        if seen and r.random() < .7:
            t = r.choice(seen)
        elif len(seen) < 2:
            seen.append(t)
        out.append(t)
    return out


COORDS = ("PRP_BD", "LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN")


def interchangeable(base, sub):
    """Elements that may stand for one another wherever they occur in a grammatical field."""
    if base == "POINT":
        return "coord" if sub in COORDS else "named"
    if base in ("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS"):
        return "climb"
    return base if base in ("ROUTE", "SPEED_ALTITUDE", "SPEED_VFR") else None


MAKERS = {"coord": lambda r: coord(r), "named": lambda r: named(r), "climb": lambda r: r.choice((saa, sap))(r, 0),
          "ROUTE": lambda r: route(r), "SPEED_ALTITUDE": lambda r: sa(r, 0), "SPEED_VFR": lambda r: sv(r)}


def unify(r, toks):
    """One favourite sub type per group of interchangeable elements (all routes North Atlantic tracks, say)."""
    fav = {}
    for g in MAKERS:
        if r.random() < .7:
            fav[g] = lex.classify(MAKERS[g](r))
    out = []
    for t in toks:
        g = interchangeable(*lex.classify(t))
        if g in fav and r.random() < .85:
            for _ in range(60):
                u = MAKERS[g](r)
                if lex.classify(u) == fav[g]:
                    t = u
                    break
        out.append(t)
    return out


def valid_tokens(r, maxlen=14, p=None):
    t = route_tokens(r, maxlen, p)
    k = r.random()
    return echo(r, t) if k < .12 else unify(r, t) if k < .2 else t


def route_tokens(r, maxlen=14, p=None):
    """A list of elements forming an error-free field; p biases the feature mix (dict of weights)."""
    w = {"point": 6, "coord": 3, "route": 4, "dct": 3, "sl": 2, "stay": 1, "climb": 1, "break": 1, "sv": .5, "c": .3}
    w.update(p or {})
    out = []
    state = "ADEP"
    if r.random() < 0.08:
        out.append(sv(r))
        out += break_text(r, "VFR")
        state = "BREAKV"
    else:
        out.append(sa(r, 0))
    budget = mine.number(r, 80) or r.randint(1, maxlen)
    tries = 0
    last_coord = held = False
    while len(out) < budget or state == "NEEDPOINT":
        tries += 1
        if state == "BREAKV":
            if r.random() < 0.5:
                return out
            pt = coord(r) if r.random() < .3 else named(r)
            out += ["IFR", pt, "/"]
            last_coord = lex.classify(pt)[1] in ("PRP_BD", "LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN")
            if r.random() < 0.7:
                out.append(sa(r, 0))
                state = "POINT"
            else:
                out.append(sv(r))
                out += break_text(r, "VFR")
            continue
        if state == "ADEP":
            k = r.random()
            if k < .2:
                out.append(r.choice(("SID", sidstar(r))))
                state = "SID"
                continue
            if k < .45:
                out.append("DCT")
                state = "DCT"
                continue
            state = "POINTNEXT"
        if state == "SID":
            k = r.random()
            if k < .4:
                out.append(route(r))
                state = "ROUTE"
                continue
            state = "POINTNEXT"
        if state == "ROUTE":
            k = r.random()
            if k < .1:
                out.append("C")
                last_coord = False
                state = "POINT"
            elif k < .22:
                out += ["C", "/", named(r), "/", r.choice((saa, sap))(r, 0)]
                last_coord = False
                state = "POINT"
            else:
                out.append(named(r))
                last_coord = False
                state = "POINT"
            continue
        if state in ("POINTNEXT", "DCT"):
            k = r.random()
            if state == "DCT" and k < .08:
                out.append("C")
                last_coord = False
            elif state == "DCT" and k < .16:
                pt = coord(r) if r.random() < .3 else named(r)
                last_coord = lex.classify(pt)[1] not in ("PRP", "PRP_AERO")
                out += ["C", "/", pt, "/", r.choice((saa, sap))(r, 0)]
            elif r.random() < w["coord"] / (w["coord"] + w["point"]):
                out.append(coord(r))
                last_coord = True
            else:
                out.append(named(r))
                last_coord = False
            state = "POINT"
            continue
        # state POINT
        opts = [k for k in w if not (k == "route" and last_coord) and not (held and k in ("sl", "sv", "stay"))]
        held = False
        c = r.choices(opts, [w[k] for k in opts])[0]
        if out[-1] == "C" and c in ("sl", "sv"):
            c = "point"     # 'C' '/' would open a cruise climb
        if c in ("point", "coord"):
            state = "POINTNEXT"
        elif c == "c":
            out.append("C")
            last_coord = False
        elif c == "route":
            out.append(route(r))
            state = "ROUTE"
        elif c == "dct":
            out.append("DCT")
            state = "DCT"
        elif c == "sl":
            out += ["/", sa(r, 0)]
        elif c == "stay":
            out += [staykw(r), "/", staytime(r)]
            # anything but another modifier or stay may follow
            held = True
            continue
        elif c == "climb":
            pt = coord(r) if r.random() < .3 else named(r)
            last_coord = lex.classify(pt)[1] not in ("PRP", "PRP_AERO")
            out += ["C", "/", pt, "/", r.choice((saa, sap))(r, 0)]
        elif c == "sv":
            out += ["/", sv(r)] + break_text(r, "VFR")
            state = "BREAKV"
        elif c == "break":
            op = r.choice(("VFR", "OAT", "IFPSTOP"))
            out.append(op)
            out += break_text(r, op)
            if op == "VFR":
                state = "BREAKV"
            else:
                if r.random() < .3:
                    return out
                pt = coord(r) if r.random() < .3 else named(r)
                last_coord = lex.classify(pt)[1] not in ("PRP", "PRP_AERO")
                out += ["GAT" if op == "OAT" else "IFPSTART", pt]
    if state == "BREAKV":
        return out
    k = r.random()
    if len(out) == 1:
        out.append(r.choice(("DCT", "T", named(r), "SID", "STAR", sidstar(r))))
    elif state == "POINT" and k < .15 and out[-1] != "C":
        out.append(r.choice(("STAR", sidstar(r))))
    elif k < .25 and out[-1] != "T":
        out.append("T")
    return out


def mutate(r, toks):
    t = list(toks)
    for _ in range(r.choice((1, 1, 1, 2, 2, 3))):
        k = r.randrange(9)
        i = r.randrange(len(t)) if t else 0
        if not t or k == 0:
            t.insert(r.randint(0, len(t)), element(r))
        elif k == 1:
            del t[i]
        elif k == 2:
            t.insert(i, t[i])
        elif k == 3 and len(t) > 1:
            j = (i + 1) % len(t)
            t[i], t[j] = t[j], t[i]
        elif k == 4:
            t[i] = element(r)
        elif k == 5:
            if t[i] != "/":
                c = corrupt(r, t[i])
                if c and not lex.is_ambiguous(c):
                    t[i] = c
        elif k == 6:
            t.insert(r.randint(0, len(t)), t[i])
        elif k == 7:
            # another element of the sort of one that is there
            g = interchangeable(*lex.classify(t[i]))
            t.insert(r.randint(0, len(t)), r.choice(list(MAKERS.values()))(r) if g is None else MAKERS[g](r))
        else:
            t.insert(i, r.choice(("/", "C", "T", "IFR", "VFR", "STAY1", "DCT", "STAR", "SID", "GAT", "OAT")))
    return t


def soup(r, n=None):
    if n is None:
        n = mine.number(r, 60) or r.choice((1, 2, 3, 4, 5, 6, 8, 10, 14))
    t = [element(r) for _ in range(n)]
    if r.random() < 0.8:
        t.insert(0, sa(r) if r.random() < .8 else sv(r))
    return echo(r, t) if r.random() < .15 else t


def join(r, toks, plain=0.7):
    """Lay the elements out; '/' needs no blanks around it."""
    fancy = r.random() > plain
    run = fancy and r.random() < .1 and r.choice(" \n\t\r") * r.choice((3, 8, 12, 16, 33, 70, 130, 300))
    out = []
    for i, t in enumerate(toks):
        if i and not (t == "/" or toks[i - 1] == "/"):
            out.append(r.choice((" ", "  ", "\n", "\t", "\r\n", " \t ", run or " ")) if fancy else " ")
        elif i and r.random() < (0.4 if fancy else 0.1):
            out.append(" ")
        out.append(t)
    s = "".join(out)
    if fancy and r.random() < .3:
        s = r.choice((" ", "\n", "\t\r")) + s
    if fancy and r.random() < .3:
        s = s + r.choice((" ", "\n", "  \r\n"))
    return s


def garbage(r):
    n = r.choice((0, 1, 2, 3, 5, 10, 30, 80))
    k = r.randrange(5)
    if k == 0:
        return "".join(chr(r.choice((r.randint(0, 127), r.randint(0, 255), r.randint(0, 0xD7FF), r.randint(0x10000, 0x10FFFF)))) for _ in range(n))
    if k == 1:
        return "".join(r.choice(" /\n\t\rABC019") for _ in range(n))
    if k == 2:
        return "".join(r.choice("/ ") for _ in range(n))
    if k == 3:
        return "".join(r.choice("NKMFASVRT0123459/ C!") for _ in range(n))
    return " ".join(r.choice(NASTY) for _ in range(min(n, 10)))


def clean(text):
    """Replace texts whose syntax is documented ambiguously."""
    if not any(lex.is_ambiguous(t) for t, _, _ in lex.tokenize(text)):
        return text
    out, pos = [], 0
    for t, s, e in lex.tokenize(text):
        if lex.is_ambiguous(t):
            out.append(text[pos:s])
            out.append(t[:4] + "9" + t[5])
            pos = e
    out.append(text[pos:])
    return "".join(out)


# context prefixes that put the parser in each of its states, for exhaustive short continuations
CONTEXTS = ["", "N0450F350", "N0450VFR", "N0450F350 ABC", "N0450F350 12N034E", "N0450F350 ABC B9", "N0450F350 DCT",
            "N0450F350 SID", "N0450F350 ABC /", "N0450F350 ABC STAY1", "N0450F350 ABC STAY1 /",
            "N0450F350 ABC STAY1 / 0130", "N0450F350 12N034E STAY1 / 0130", "N0450F350 ABC T", "N0450F350 ABC C",
            "N0450F350 ABC C /", "N0450F350 ABC C / DEF", "N0450F350 ABC C / DEF /", "N0450F350 ABC C / DEF / N0460F350F370",
            "N0450F350 ABC / N0400VFR", "N0450F350 ABC VFR", "N0450F350 ABC OAT", "N0450F350 ABC IFPSTOP",
            "N0450F350 ABC VFR IFR", "N0450F350 ABC VFR IFR DEF", "N0450F350 ABC VFR IFR DEF /", "N0450F350 ABC OAT GAT",
            "N0450F350 ABC IFPSTOP IFPSTART", "N0450F350 ABC ??", "N0450F350 ABC ?? /", "N0450F350 ABC ?? IFR",
            "N0450F350 ABC ?? IFR DEF", "N0450F350 ABC ?? C", "N0450F350 ABC B9 ??", "N0450F350 ABC STAR", "?? ", "?? ABC",
            "N0450F350 B9", "N0450F350 ABC B9 C /", "N0450F350 12N034E ??", "N0450F350 ??"]
ALPHABET = ["DEF", "EGLL", "XYZ180060", "13N035E", "1330N03530E", "13N035E180060", "1330N03530E090120", "UB10", "NATA", "DCT",
            "SID", "STAR", "ABC1A", "N0460F360", "K0800VFR", "M082F350F390", "N0450S1130PLUS", "VFR", "OAT", "IFPSTOP", "IFR",
            "GAT", "IFPSTART", "STAY2", "0945", "T", "C", "/", "2460", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"]


def exhaustive(depth, alphabet=None, contexts=None):
    alphabet = alphabet or ALPHABET
    contexts = contexts or CONTEXTS

    def rec(pre, d):
        yield pre
        if d:
            for a in alphabet:
                yield from rec(pre + " " + a, d - 1)
    for c in contexts:
        yield from rec(c, depth)


def _stay(r):
    return [staykw(r), "/", staytime(r)]


def _in(kw, r):
    return [kw] + [anything(r) if r.random() < .3 else prp(r) for _ in range(r.randrange(3))]


BLOCKS = [
    lambda r: [prp(r)], lambda r: [aero(r)], lambda r: [ll(r)], lambda r: [bd(r)], lambda r: [llbd(r)],
    lambda r: [prp(r), "/", sa(r, 0)], lambda r: [ll(r), "/", sa(r, 0)], lambda r: [named(r)] + _stay(r), lambda r: [coord(r)] + _stay(r),
    lambda r: [named(r), "/", sa(r, 0)] + _stay(r), lambda r: ["C", "/", named(r), "/", saa(r, 0)], lambda r: ["C", "/", named(r), "/", sap(r, 0)],
    lambda r: ["C", "/", coord(r), "/", saa(r, 0)], lambda r: ["C", "/", coord(r), "/", sap(r, 0)],
    lambda r: ["C", "/", named(r), "/", r.choice((saa, sap))(r, 0)] + _stay(r), lambda r: ["C"], lambda r: ["DCT"], lambda r: [route(r)],
    lambda r: [route(r), named(r)], lambda r: _in("VFR", r) + ["IFR", named(r), "/", sa(r, 0)], lambda r: _in("VFR", r) + ["IFR", coord(r), "/", sv(r)],
    lambda r: ["/", sv(r)] + _in(prp(r), r) + ["IFR", named(r), "/", sa(r, 0)], lambda r: _in("OAT", r) + ["GAT", r.choice((named, coord))(r)],
    lambda r: _in("IFPSTOP", r) + ["IFPSTART", r.choice((named, coord))(r)], lambda r: _in(r.choice(("VFR", "OAT", "IFPSTOP")), r),
    lambda r: [unknown(r)], lambda r: ["C", "/", named(r), "/", r.choice((staytime, sa, sv, route, sidstar))(r)], lambda r: ["/"],
    lambda r: [r.choice((sa, saa, sap, sv))(r)], lambda r: [r.choice(("IFR", "GAT", "IFPSTART"))], lambda r: [staykw(r)] + r.choice(([], ["/"], [staytime(r)])),
    lambda r: [r.choice(("SID", "STAR", sidstar(r)))], lambda r: [ll(r, .6)], lambda r: [toolong(r)]]
STARTS = [lambda r: [sa(r, 0)], lambda r: [sa(r, 0)], lambda r: [sa(r, 0), r.choice(("SID", sidstar(r)))], lambda r: [sa(r, 0), "DCT"],
          lambda r: [sv(r)] + _in(prp(r), r) + ["IFR", named(r), "/", sa(r, 0)], lambda r: [], lambda r: [sa(r, 0), unknown(r)]]
ENDS = [lambda r: [], lambda r: [], lambda r: ["T"], lambda r: [sidstar(r)], lambda r: ["STAR"], lambda r: ["T", r.choice(ALPHABET)],
        lambda r: [r.choice(("STAR", sidstar(r))), r.choice(ALPHABET)], lambda r: [r.choice(ALPHABET)], lambda r: ["DCT"]]


def blocks(r, w, nw, depth=3, n=None):
    """Every sequence of `depth` groups of elements (a point with a stay, a climb, a break section, an error ...), or n random ones, with a random
    start and end."""
    if n is None:
        todo = (q for i, q in enumerate(itertools.product(BLOCKS, repeat=depth)) if i % nw == w)
    else:
        todo = ([r.choice(BLOCKS) for _ in range(depth)] for _ in range(n))
    for q in todo:
        yield clean(join(r, r.choice(STARTS)(r) + [t for b in q for t in b(r)] + r.choice(ENDS)(r)))


def mixed(r):
    """One case of the common workload."""
    k = r.random()
    if k < 0.38:
        return "valid", join(r, valid_tokens(r))
    if k < 0.68:
        return "mutated", clean(join(r, mutate(r, valid_tokens(r))))
    if k < 0.9:
        return "soup", clean(join(r, soup(r)))
    if k < 0.96:
        return "garbage", clean(garbage(r))
    return "long", clean(join(r, mutate(r, valid_tokens(r, 60)) if r.random() < .5 else soup(r, r.randint(20, 60))))


def late(r, w, nw):
    """Every continuation of every context by one element, after 45 to 200 other elements."""
    for i, (c, a) in enumerate(itertools.product(CONTEXTS, ALPHABET)):
        if i % nw == w:
            n = r.choice((45, 70, 90, 130, 200))
            k = r.random()
            t = c.split()
            if t and t[0] in ("N0450F350", "N0450VFR"):
                first, t = t[:1], t[1:]
            else:
                first = []
            if k < .5:
                p = max((route_tokens(r, n) for _ in range(3)), key=len)[1:]
            else:
                u = r.choice(([prp(r), "DCT"], [route(r), named(r)], [named(r)], [ll(r)], ["C"], [named(r)] + _stay(r), [named(r), "/", sa(r, 0)],
                              ["C", "/", named(r), "/", saa(r, 0)], ["OAT", named(r), "GAT", named(r)], [unknown(r)], ["IFR"], [ll(r), "DCT"], soup(r, 2)))
                p = [named(r)] + u * (n // len(u) + 1)
            yield clean(join(r, first + p + t + [a], .9))


def large(r):
    """One field of 60 to 450 elements."""
    n = r.choice((60, 90, 101, 128, 129, 140, 200, 257, 280, 330, 450))
    k = r.random()
    t = []
    if k < .3:
        t = max((route_tokens(r, n) for _ in range(5)), key=len)
    elif k < .45:
        t = mutate(r, max((route_tokens(r, n) for _ in range(5)), key=len))
    elif k < .6:
        while len(t) < n:
            t += mutate(r, valid_tokens(r, 30)) if r.random() < .5 else soup(r, 10)
    elif k < .75:
        t = soup(r, n)
    else:
        # one unit over and over, sometimes with something at the end
        u = soup(r, r.randint(1, 3))[r.random() < .8:] or ["ABC"]
        t = valid_tokens(r, 6) + u * (n // len(u)) + (soup(r, r.randint(1, 3)) if r.random() < .5 else [])
    return clean(join(r, t, .9))
