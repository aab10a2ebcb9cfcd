"""Reference model of field 15 analysis: an iterative, table-driven transducer written from the
documented grammar (docstrings, message catalogue, ICAO Doc 4444 item 15), sharing no code with /repo.

run(text) -> Expected(records, errors, derived, verdict, marks, path)
"""
import math
import lex

MSG = {
    1: "The first Field 15 element must be a SPEED/LEVEL and not '!'",
    3: "The element '!' is an unrecognised Field 15 element",
    4: "Element '!' is too long for a Field 15 Element",
    5: "Expecting '/' before '!'",
    6: "No VFR section preceding this '!' rule change indicator",
    7: "No OAT section preceding this '!' rule change indicator",
    8: "No IFPSTART preceding this '!' indicator",
    9: "Expecting 'C/POINT/' before '!'",
    10: "Expecting the keyword 'STAY' before '!'",
    11: "'/' not expected preceding '!'",
    12: "Expecting a PRP after an ATS route instead of '!'",
    13: "Rule change '!' cannot occur following an ATS route element",
    14: "Cannot go direct ('!') from an ATS route element, must be preceded by a point",
    15: "'!' must be preceded by a point",
    16: "'!' cannot follow a '/'",
    18: "Expecting cruise climb point name before '!'",
    19: "Expecting end of field 15 after truncation indicator 'T' instead od '!'",
    20: "Field 15 is incomplete, expecting additional data after the final '!'",
    21: "A 'DCT' must be followed by a point instead of '!'",
    22: "Expecting '/SPEED/LEVEL' following '!' to complete rule change to IFR",
    23: "The first SPEED/LEVEL cannot be followed by the element '!'",
    24: "Expecting SID or DPF after first SPEED/LEVEL element instead of '!'",
    25: "Field 15 cannot end with the '!' element",
    26: "Expecting '/' after cruise / climb 'C/POINT' instead of '!'",
    27: "Expecting point / speed / altitude / altitude after start of Cruise/Climb indicator 'C/!'",
    28: "Expecting speed / altitude / altitude after start of Cruise/Climb indicator 'C/!/'",
    29: "Expecting Cruise/Climb 'SPEED/ALTITUDE/ALTITUDE' or 'SPEED/ALTITUDE/PLUS' instead of '!'",
    30: "SID '!' must follow the first SPEED/ALTITUDE and cannot appear anywhere else in field 15",
    31: "The SID must be followed by a point or STAR, cannot be followed with '!'",
    32: "The SID cannot be followed by another SID '!'",
    34: "A STAR must be the last element in field 15 and cannot be followed with '!'",
    35: "Expecting STAY time as '/HHMM' after '!'",
    36: "Expecting forward slash '/' after STAY instead of '!'",
    37: "Time value as HHMM token missing after '!'",
    38: "Expecting HHMM token following STAYx/ element",
    39: "'!' Cannot follow a STAY/HHMM' element",
    40: "The flight level '!' must end in a zero or 5",
    41: "Field 15 is empty",
    42: "Latitude degree value must be 0 to 90 instead of '!'",
    43: "Latitude degree/minute value must be 0 to 9000 with minutes < 60 instead of '!'",
    44: "Longitude degree value must be 0 to 180 instead of '!'",
    45: "Longitude degree/minute value must be 0 to 18000 with minutes < 60 instead of '!'",
    46: "Bearing degree value must be 0 to 360 instead of '!'",
    47: "ATS route '!' cannot follow a Lat/Long point",
    48: "Lat/Long '!' cannot follow an ATS route",
    49: "Field 15 contains no route description",
    50: "Expecting SPEED/LEVEL or SPEED/VFR after '/' instead of '!'",
    52: "Expecting point / speed / altitude / altitude after start of Cruise/Climb indicator 'C!'",
    53: "Add crossing point between previous ATS route and '!'",
    54: "Add APF between previous ATS route and STAR '!'",
    55: "The SPEED/LEVEL '!' cannot follow an ATS route",
}

COORD_SUBS = ("PRP_BD", "LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN")
BREAK_RULES = {"VFR": "VFR", "OAT": "OAT", "IFPSTOP": "IFPS"}
BREAK_MATCH = {("IFR", "VFR"), ("GAT", "OAT"), ("IFPSTART", "IFPS")}
END_ERR = {"IFR": 6, "GAT": 7, "IFPSTART": 8}
DEFAULT_LEVEL = "F050"

# What each grammar state does with the base type of the next element.
# A number is an error reported at that element (then recovery); a word is an action.
_ALL = ("UNKNOWN SLASH BREAK_START SPEED_VFR BREAK_END DCT STAY TRUNCATE C POINT ROUTE SID_STAR SPEED_ALTITUDE "
        "SPEED_ALTITUDE_ALTITUDE SPEED_ALTITUDE_PLUS TOO_LONG STAY_TIME SID STAR").split()


def _table(default, **kw):
    t = {b: default for b in _ALL}
    t.update(kw)
    return t


_COMMON = dict(UNKNOWN=3, TOO_LONG=4, STAY_TIME=10, SPEED_ALTITUDE_ALTITUDE=9, SPEED_ALTITUDE_PLUS=9)
NEXT = {
    "FIRST": _table(1, SPEED_VFR="speed_vfr", SPEED_ALTITUDE="speed_level"),
    "DEPARTED": _table(23, **_COMMON, DCT="dct", TRUNCATE="truncate", POINT="point", ROUTE=24, SID_STAR="sid_star",
                       SID="sid", STAR="star"),
    "POINT": _table(None, **_COMMON, SLASH="slash", BREAK_START="break", SPEED_VFR=5, SPEED_ALTITUDE=5,
                    BREAK_END="end_err", DCT="dct", STAY="stay", TRUNCATE="truncate", C="c", POINT="point",
                    ROUTE="route_checked", SID_STAR="sid_star", SID="sid", STAR="star"),
    "SID": _table(31, TRUNCATE="truncate", POINT="point", ROUTE="route", SID_STAR="sid_star", TOO_LONG=4, SID=32,
                  STAR="star"),
    "DCT": _table(21, TRUNCATE="truncate", POINT="point", C="c"),
    "ROUTE": _table(None, **_COMMON, SLASH=12, BREAK_START=13, SPEED_VFR=13, SPEED_ALTITUDE=55, BREAK_END="end_err",
                    DCT=14, STAY=15, TRUNCATE="truncate", C="c", POINT="point_after_route", ROUTE=53, SID_STAR=54,
                    STAR=54, SID=30),
    "SLASH": _table(50, UNKNOWN=3, SLASH=16, SPEED_VFR="speed_vfr", SPEED_ALTITUDE="speed_level", TOO_LONG=4),
    "STAYED": _table(39, UNKNOWN=3, TOO_LONG=4, BREAK_START="break", BREAK_END="end_err", DCT="dct",
                     TRUNCATE="truncate", C="c", POINT="point", ROUTE="route_checked", SID_STAR="sid_star", SID="sid",
                     STAR="star"),
    "TRUNCATED": _table(19),
    "C": _table(None, **_COMMON, SLASH="climb", BREAK_START="+break", SPEED_VFR=5, SPEED_ALTITUDE=5,
                BREAK_END="end_err", DCT="+dct", STAY="+stay", TRUNCATE="+truncate", C="+c", POINT="+point",
                ROUTE="+route", SID_STAR="+sid_star", SID="+sid", STAR="+star"),
    "CLIMB_AT": _table(18, POINT="climb_point", C="climb_point"),
    "CLIMB_SLASH": _table(26, SLASH="climb_slash"),
    "CLIMB_LEVELS": _table(29, SPEED_ALTITUDE_ALTITUDE="speed_levels", SPEED_ALTITUDE_PLUS="speed_plus"),
    "STAY_SLASH": _table(36, SLASH="stay_slash"),
    "STAY_TIME": _table(38, STAY_TIME="stay_time"),
    "RESYNC": _table(None, UNKNOWN=3, TOO_LONG=4, STAY_TIME=10, SLASH="resync_slash", BREAK_START="break",
                     SPEED_VFR="speed_vfr", BREAK_END="resync_end", DCT="dct", STAY="stay", TRUNCATE="truncate", C="c",
                     POINT="point", ROUTE="route", SID_STAR="sid_star", SPEED_ALTITUDE="speed_level",
                     SPEED_ALTITUDE_ALTITUDE="speed_levels", SPEED_ALTITUDE_PLUS="speed_plus", SID="sid", STAR="star"),
    "RESYNC_SLASH": _table(11, SPEED_VFR="speed_vfr", POINT="point", SPEED_ALTITUDE="speed_level",
                           SPEED_ALTITUDE_ALTITUDE="speed_levels", SPEED_ALTITUDE_PLUS="speed_plus"),
}


class XRec:
    __slots__ = ("name", "start", "end", "base", "sub", "speed", "speed_si", "alt", "alt_si", "rules", "brk", "err",
                 "stay", "cr_to", "cr_si", "lat", "lon", "valid", "proj", "tok", "msg")

    def __init__(self, name, start, end, base, sub, tok):
        self.name, self.start, self.end, self.base, self.sub, self.tok = name, start, end, base, sub, tok
        self.speed = self.alt = self.rules = self.brk = self.err = self.cr_to = ""
        self.speed_si = self.alt_si = self.cr_si = self.stay = self.lat = self.lon = 0
        self.valid = False
        self.proj = None   # (lat, lon, bearing, NM) for projected points
        self.msg = None


class Expected:
    pass


def level_si(t):
    n = int(t[1:])
    if t[0] in "FA":
        return (n * 3048 * 2 + 100) // 200      # n*100 ft * 0.3048, rounded half up, in integers
    return n * 10


def sound(h):
    t = 15.0 - 0.00645 * min(h, 11000)
    return 331.15 * math.sqrt((t + 273.15) / 273.15)


def speed_exact(t, alt_si):
    n = int(t[1:])
    if t[0] == "K":
        return n * 0.2777778
    if t[0] == "N":
        return n * 0.514444
    return n / 100 * (343.0 if alt_si == 0 else sound(alt_si))


def angle(d):
    """Signed decimal value of ddH, dddH, ddmmH or dddmmH."""
    h = d[-1]
    w = 2 if h in "NS" else 3
    v = int(d[:w])
    if len(d) > w + 1:
        v = v + int(d[w:-1]) / 60.0
    return -float(v) if h in "SW" else float(v)


def angle_ok(d):
    h = d[-1]
    w = 2 if h in "NS" else 3
    lim = 90 if w == 2 else 180
    v = int(d[:w])
    m = int(d[w:-1]) if len(d) > w + 1 else 0
    return m <= 59 and (v < lim or (v == lim and m == 0))


def split_coord(text, sub):
    dl = 2 if sub.endswith("DEG") else 4
    return text[:dl + 1], text[dl + 1:2 * dl + 3 if dl == 2 else 2 * dl + 3]


class Model:
    def __init__(self, text, toks=None):
        self.text = text
        if toks is None:
            toks = [(t, s, e) + lex.classify(t) for t, s, e in lex.tokenize(text)]
        self.toks = toks
        self.recs, self.errs = [], []
        self.role = [None] * len(toks)      # what became of each element (conservation)
        self.trans = []                     # (state, base type) pairs driven

    # -- primitives ------------------------------------------------------------------------------------
    def error(self, i, n):
        t, s, e, b, u = self.toks[i]
        r = XRec(t, s, e, b, u, i)
        r.msg = n
        r.err = MSG[n].replace("!", t)
        self.errs.append(r)

    def add(self, i, **over):
        t, s, e, b, u = self.toks[i]
        r = XRec(over.get("name", t), s, e, over.get("base", b), over.get("sub", u), i)
        p = self.recs[-1]
        r.speed, r.speed_si, r.alt, r.alt_si, r.rules = p.speed, p.speed_si, p.alt, p.alt_si, p.rules
        self.recs.append(r)
        return r

    def level(self, r, i, t):
        if t[0] == "F" and int(t[1:]) % 5:
            self.error(i, 40)
        r.alt, r.alt_si = t, level_si(t)

    def cruise(self, r, i, t):
        if t[0] == "F" and int(t[1:]) % 5:
            self.error(i, 40)
        r.cr_to, r.cr_si = t, level_si(t)

    def speed(self, r, t):
        r.speed, r.speed_si = t, speed_exact(t, r.alt_si)

    def decode(self, r, i):
        t, _, _, _, sub = self.toks[i]
        if sub not in COORD_SUBS:
            return
        if sub != "PRP_BD":
            bd = sub.startswith("LLBD")
            core = t[:-6] if bd else t
            cut = 3 if sub.endswith("DEG") else 5
            la, lo = core[:cut], core[cut:]
            r.lat, r.lon, r.valid = angle(la), angle(lo), True
            deg = sub.endswith("DEG")
            if not angle_ok(la):
                # in the degree form only the degrees can be wrong
                self.error(i, 42 if deg else 43)
            if not angle_ok(lo):
                self.error(i, 44 if deg else 45)
            if bd:
                r.proj = (r.lat, r.lon, float(t[-6:-3]), float(t[-3:]))
        if sub == "PRP_BD" or sub.startswith("LLBD"):
            if int(t[-6:-3]) > 360:
                self.error(i, 46)

    @staticmethod
    def parts(t):
        """speed and level texts of a speed/level(s)(PLUS) element"""
        n = 1 + lex.SPEED_DIGITS[t[0]]
        out = [t[:n]]
        i = n
        while i < len(t) and t[i] in lex.LEVEL_DIGITS:
            w = 1 + lex.LEVEL_DIGITS[t[i]]
            out.append(t[i:i + w])
            i += w
        if t[i:]:
            out.append(t[i:])
        return out

    # -- the transducer --------------------------------------------------------------------------------
    def run(self):
        T = self.toks
        n = len(T)
        adep = XRec("ADEP", 0, 0, "POINT", "PRP_AERO", None)
        self.recs.append(adep)
        x = Expected()
        if n == 0:
            e = XRec("NULL", 0, 0, "UNKNOWN", "UNKNOWN", None)
            e.msg, e.err = 41, MSG[41]
            self.errs.append(e)
            self.recs.append(XRec("ADES", 0, 0, "POINT", "PRP_AERO", None))
            return self.result("")
        state, i, mark = "FIRST", 0, None
        while i < n:
            b = T[i][3]
            if state == "BREAK":
                state, i = self.in_break(i)
                continue
            act = NEXT[state][b]
            self.trans.append((state, b))
            assert act is not None, (state, b)
            if isinstance(act, int):
                if state == "C":
                    self.role[i - 1] = "dropped-c"
                self.error(i, act)
                self.role[i] = "error"
                state, i = "RESYNC", i + 1
                continue
            if act[0] == "+":
                self.add(i - 1)
                self.role[i - 1] = "record"
                act = act[1:]
            elif act == "end_err" and state == "C":
                self.role[i - 1] = "dropped-c"
            state, i = getattr(self, "a_" + act)(state, i)
        self.at_end(state, n)
        if T[0][3] == "SPEED_VFR":
            adep.rules = "VFR"
        prev = self.recs[-1]
        ades = XRec("ADES", 0, 0, "POINT", "PRP_AERO", None)
        ades.rules = prev.rules
        self.recs.append(ades)
        allr = [r.rules for r in self.recs]
        if adep.rules == "VFR":
            derived = "Z" if "IFR" in allr else "V"
        else:
            derived = "Y" if "VFR" in allr else "I"
        return self.result(derived)

    def result(self, derived):
        x = Expected()
        x.recs, x.errs, x.derived, x.role, x.trans, x.toks = \
            self.recs, self.errs, derived, self.role, self.trans, self.toks
        x.verdict = not self.errs
        return x

    def at_end(self, state, n):
        last = n - 1
        if state == "SLASH":
            self.error(last, 20)
        elif state == "C":
            self.add(last)
            self.role[last] = "record"
        elif state == "CLIMB_AT":
            self.add(last - 1)
            self.role[last - 1] = "record"
            self.error(last, 52)
        elif state == "CLIMB_SLASH":
            self.error(last, 27)
        elif state == "CLIMB_LEVELS":
            self.error(last - 1, 28)
        elif state == "STAY_SLASH":
            self.error(last, 35)
        elif state == "STAY_TIME":
            self.error(last, 37)
        elif state == "RESYNC_SLASH":
            self.error(last, 25)

    # -- actions: return (next state, next index) ---------------------------------------------------------
    def a_point(self, state, i):
        r = self.add(i)
        r.rules = "IFR"
        self.role[i] = "record"
        self.decode(r, i)
        return "POINT", i + 1

    def a_point_after_route(self, state, i):
        if self.toks[i][4] in COORD_SUBS:
            self.error(i, 48)
        return self.a_point(state, i)

    def a_route(self, state, i):
        r = self.add(i)
        r.rules = "IFR"
        self.role[i] = "record"
        return "ROUTE", i + 1

    def a_route_checked(self, state, i):
        if self.recs[-1].sub in COORD_SUBS:
            self.error(i, 47)
            self.role[i] = "error"
            return "RESYNC", i + 1
        return self.a_route(state, i)

    def a_dct(self, state, i):
        self.add(i)
        self.role[i] = "record"
        return "DCT", i + 1

    def a_truncate(self, state, i):
        self.role[i] = "punct"
        return "TRUNCATED", i + 1

    def a_slash(self, state, i):
        self.role[i] = "punct"
        return "SLASH", i + 1

    a_stay_slash = lambda self, state, i: self._punct(i, "STAY_TIME")
    a_climb_slash = lambda self, state, i: self._punct(i, "CLIMB_LEVELS")
    a_resync_slash = lambda self, state, i: self._punct(i, "RESYNC_SLASH")
    a_stay = lambda self, state, i: self._punct(i, "STAY_SLASH")

    def _punct(self, i, nxt):
        self.role[i] = "punct"
        return nxt, i + 1

    def a_stay_time(self, state, i):
        t = self.toks[i][0]
        self.recs[-1].stay = int(t[:2]) * 60 + int(t[2:])
        self.role[i] = "modifier"
        return "STAYED", i + 1

    def a_c(self, state, i):
        self.role[i] = "punct"
        return "C", i + 1

    def a_climb(self, state, i):
        self.role[i] = "punct"
        return "CLIMB_AT", i + 1

    def a_climb_point(self, state, i):
        if self.recs[-1].base == "ROUTE" and self.toks[i][4] in COORD_SUBS:
            self.error(i, 48)
        r = self.add(i)
        self.role[i] = "record"
        self.decode(r, i)
        return "CLIMB_SLASH", i + 1

    def a_speed_level(self, state, i):
        r = self.recs[-1]
        s, l = self.parts(self.toks[i][0])
        self.level(r, i, l)
        self.speed(r, s)
        r.rules = "IFR"
        self.role[i] = "modifier"
        if i == 0 and len(self.toks) == 1:
            self.error(i, 49)
        return ("DEPARTED" if len(self.recs) == 1 else "POINT"), i + 1

    def a_speed_levels(self, state, i):
        r = self.recs[-1]
        s, lo, hi = self.parts(self.toks[i][0])
        self.level(r, i, lo)
        self.cruise(r, i, hi)
        self.speed(r, s)
        r.rules = "IFR"
        self.role[i] = "modifier"
        return "POINT", i + 1

    def a_speed_plus(self, state, i):
        r = self.recs[-1]
        s, lo, plus = self.parts(self.toks[i][0])
        self.level(r, i, lo)
        r.cr_to = plus
        r.cr_si = 0
        self.speed(r, s)
        r.rules = "IFR"
        self.role[i] = "modifier"
        return "POINT", i + 1

    def a_speed_vfr(self, state, i):
        p = self.recs[-1]
        r = self.add(i, name="VFR")
        self.level(r, i, DEFAULT_LEVEL)
        self.speed(r, self.toks[i][0][:-3])
        r.rules = "VFR"
        p.speed, p.speed_si, p.alt, p.alt_si = r.speed, r.speed_si, r.alt, r.alt_si
        self.role[i] = "record"
        return "BREAK", i + 1

    def a_break(self, state, i):
        r = self.add(i)
        r.rules = BREAK_RULES[self.toks[i][4]]
        self.role[i] = "record"
        return "BREAK", i + 1

    def a_end_err(self, state, i):
        self.error(i, END_ERR[self.toks[i][4]])
        self.role[i] = "error"
        return "RESYNC", i + 1

    def a_sid(self, state, i):
        r = self.add(i)
        self.role[i] = "record"
        if len(self.recs) == 2:
            r.base, r.sub = "SID", ("SID_LITERAL" if r.name == "SID" else "SID")
            return "SID", i + 1
        self.error(i, 30)
        return "RESYNC", i + 1

    def a_sid_star(self, state, i):
        if len(self.recs) == 1:
            return self.a_sid(state, i)
        return self.a_star(state, i)

    def a_star(self, state, i):
        r = self.add(i)
        self.role[i] = "record"
        if i + 1 == len(self.toks):
            r.base, r.sub = "STAR", ("STAR_LITERAL" if r.name == "STAR" else "STAR")
            return "END", i + 1
        self.error(i + 1, 34)
        return "RESYNC", i + 1

    def a_resync_end(self, state, i):
        self.role[i] = "skipped-end"
        nxt = self.try_end(i)
        return nxt or ("RESYNC", i + 1)

    def in_break(self, i):
        T = self.toks
        if T[i][3] == "TOO_LONG":
            self.error(i, 4)
        r = self.recs[-1]
        r.brk = T[i][0] if r.brk == "" else r.brk + " " + T[i][0]
        self.role[i] = "break-text"
        self.trans.append(("BREAK:" + r.rules, T[i][3]))
        if (T[i][4], r.rules) in BREAK_MATCH:
            nxt = self.try_end(i)
            if nxt:
                return nxt
        return "BREAK", i + 1

    def try_end(self, i):
        T = self.toks
        kind = [T[k][3] if k < len(T) else None for k in (i + 1, i + 2, i + 3)]
        self.trans.append(("END?" + T[i][4],) + tuple(kind if T[i][4] == "IFR" else kind[:1]))
        if kind[0] != "POINT":
            return None
        if T[i][4] != "IFR":
            return self.a_point("BREAK", i + 1)
        if kind[1] is None:
            self.error(i + 1, 22)
            return "RESYNC", i + 1
        if kind[1] != "SLASH":
            return None
        if kind[2] not in ("SPEED_ALTITUDE", "SPEED_VFR"):
            self.error(i + 1, 22)
            return "RESYNC", i + 1
        self.a_point("BREAK", i + 1)
        self.role[i + 2] = "punct"
        if kind[2] == "SPEED_ALTITUDE":
            return self.a_speed_level("BREAK", i + 3)
        return self.a_speed_vfr("BREAK", i + 3)


def run(text, toks=None):
    return Model(text, toks).run()
