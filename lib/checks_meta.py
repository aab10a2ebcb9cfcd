"""Model-free monitors: relations between several executions, and the domain of every value in a result."""
import math, random

import gen
import geo
import lex
import model
import obs
from runner import FieldCheck, h64

LEG = ("bearing", "dist")
MODIFIED = ("speed", "speed_si", "alt", "alt_si", "rules", "brk", "stay", "cr_to", "cr_si") + LEG


def values(p, skip=()):
    return {n: repr(getattr(p, n)) for n in p.__slots__ if n not in skip}


# ---- C15: later elements do not reach back ---------------------------------------------------------------

class C15(FieldCheck):
    id = "C15"
    LOOK = 4
    rule = ("random valid, mutated, soup and long fields, each cut after 1-3 randomly chosen elements, and all continuations of 41 contexts "
            "by 1 (quick) or 2 elements cut everywhere; the result of the cut field compared with that of the whole one up to 4 "
            "elements before the cut; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 1, "thorough": 2}
    n_focus = {"quick": 16000, "thorough": 250000}
    n_random = {"quick": 12000, "thorough": 150000}
    need = {"pairs": 30000, "settled records": 60000, "settled errors": 15000}

    def focus(self, r):
        k = r.random()
        if k < .3:
            return gen.join(r, gen.valid_tokens(r, 25))
        if k < .8:
            t = gen.valid_tokens(r, 20, {"break": 2, "stay": 2, "climb": 2})
            for _ in range(r.randint(1, 3)):
                t = gen.mutate(r, t)
            if r.random() < .3:
                # the same elements and errors again and again
                t = [gen.sa(r, .7) if lex.classify(c)[0] == "SPEED_ALTITUDE" else gen.coord(r, .5) if lex.classify(c)[1][:2] == "LL" else c for c in t]
                t = gen.echo(r, t + r.sample(t, len(t)))
            return gen.join(r, t)
        return gen.join(r, gen.soup(r, r.randint(6, 25)))

    def judge(self, run, x, st):
        n = len(x.toks)
        r = random.Random(h64(run.text))
        cuts = range(1, n) if n <= 9 else r.sample(range(5, n), min(3, n - 5))
        for c in cuts:
            w = x.toks[max(0, c - self.LOOK)][1]
            cut = obs.observe(run.text[:x.toks[c - 1][2]])
            if cut.exc:
                return ["field %r: parsing %s" % (cut.text, cut.exc)]
            st.cov["pairs"] += 1
            a = [p for p in cut.recs[:-1] if p.start < w or p.end == 0]
            b = [p for p in run.recs[:-1] if p.start < w or p.end == 0]
            for i in range(max(len(a), len(b))):
                if i >= len(a) or i >= len(b):
                    return ["field %r: before position %d the first %d elements alone give the records %s, the whole field %s" % (
                        run.text, w, c, [p.name for p in a], [p.name for p in b])]
                skip = MODIFIED if i >= len(a) - 2 else ()
                u, v = values(a[i], skip), values(b[i], skip)
                st.cov["settled records"] += 1
                if u != v:
                    d = [k for k in u if u[k] != v[k]]
                    return ["field %r: record %s differs in %s (%s) from the one of the first %d elements alone (%s)" % (
                        run.text, b[i].show(), d, [v[k] for k in d], c, [u[k] for k in d])]
            a = [(p.start, p.err) for p in cut.errs if p.start < w]
            b = [(p.start, p.err) for p in run.errs if p.start < w]
            st.cov["settled errors"] += len(a)
            if a != b:
                return ["field %r: errors before position %d are %s, with the first %d elements alone %s" % (run.text, w, b, c, a)]
        return []


# ---- C30: only the kind of an element matters -------------------------------------------------------------

def status(t, kind):
    """The part of a text beyond its kind that may decide between acceptance and an error."""
    b, u = kind
    if b == "POINT" and u != "PRP" and u != "PRP_AERO":
        core = t if not ("BD" in u) else t[:-6]
        out = [int(t[-6:-3]) <= 360] if "BD" in u else []
        if u.startswith("LL"):
            c = 3 if u.endswith("DEG") else 5
            out += [model.angle_ok(core[:c]), model.angle_ok(core[c:])]
        return tuple(out)
    if b.startswith("SPEED_ALTITUDE"):
        out, i = [], 1 + lex.SPEED_DIGITS[t[0]]
        while i < len(t) and t[i] in lex.LEVEL_DIGITS:
            n = lex.LEVEL_DIGITS[t[i]]
            if not t[i + 1:i + 1 + n].isdigit():
                break
            out.append(t[i] == "F" and int(t[i + 1:i + 1 + n]) % 5 != 0)
            i += 1 + n
        return tuple(out)
    return ()


def shaped(r, t, letters):
    """same length and character classes; letters kept or changed"""
    return "".join(r.choice(gen.DG) if c in gen.DG else r.choice(gen.UP) if letters and c in gen.UP else c for c in t)


def another(r, t, kind):
    """A different text of the same kind and status (or t itself when none is found)."""
    b, u = kind
    st = status(t, kind)
    for k in range(60):
        if b == "POINT" and u == "PRP":
            c = gen.prp(r)
        elif b == "POINT" and u == "PRP_AERO":
            c = gen.aero(r)
        elif b == "POINT" and u == "PRP_BD":
            c = gen.bd(r, .3)
        elif b == "POINT" and u.startswith("LL"):
            m = u.endswith("MIN")
            bad = .0 if all(st) else .6
            c = gen.lat(r, m, bad) + gen.lon(r, m, bad)
            if "BD" in u:
                c += gen.bearing(r, bad) + gen.dist(r)
        elif b == "ROUTE":
            c = gen.route(r) if u == "ATS" else shaped(r, t, u != "NAT" and u != "PTS")
            if u == "NAT":
                c = "NAT" + r.choice(gen.UP) + r.choice(("", r.choice(gen.DG)))
        elif b == "SID_STAR":
            c = gen.sidstar(r)
        elif b == "STAY":
            c = gen.staykw(r)
        elif b == "STAY_TIME":
            c = gen.staytime(r)
        elif b.startswith("SPEED"):
            c = shaped(r, t, False)
        elif b == "TOO_LONG":
            c = gen.toolong(r)
        elif b == "UNKNOWN":
            c = gen.unknown(r)
        else:
            return t
        if c != t and lex.classify(c) == kind and status(c, kind) == st and not lex.is_ambiguous(c) \
                and not any(ch in lex.STD_WS for ch in c):
            return c
    return t


class C30(FieldCheck):
    id = "C30"
    rule = ("random valid, mutated, soup and long fields and all continuations of 41 contexts by 1 (quick) or 2 elements; every element "
            "replaced by another one of the same kind and value status, all different or drawn from very few texts; outcomes compared by element number; "
            "non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 1, "thorough": 2}
    n_focus = {"quick": 12000, "thorough": 250000}
    n_random = {"quick": 12000, "thorough": 150000}
    need = {"pairs": 40000, "pairs with errors": 10000, "elements replaced": 100000}

    def focus(self, r):
        t = gen.valid_tokens(r, 16, {"break": 2, "stay": 2, "climb": 2, "coord": 4})
        return gen.join(r, gen.mutate(r, t) if r.random() < .6 else t)

    @staticmethod
    def modifiers(toks):
        out = {}
        for i, t in enumerate(toks):
            k = lex.classify(t)
            if k[0].startswith("SPEED"):
                out.setdefault(t[:1 + lex.SPEED_DIGITS[t[0]]], set()).add(i)
        return out

    def outline(self, run, toks, starts):
        num = {s: i for i, s in enumerate(starts)}
        mods = self.modifiers(toks)
        recs = [(num.get(p.start) if p.end else None, p.base, p.sub, p.rules, p.valid, len(p.brk.split(" ")) if p.brk else 0, p.stay > 0, bool(p.cr_to), p.cr_to == "PLUS",
                 p.speed != "", p.alt != "") for p in run.recs]
        errs = []
        for e in run.errs:
            errs.append((num.get(e.start), e.base, e.sub, frozenset(k for k, m in model.MSG.items() if m.replace("!", e.name) == e.err)))
        return recs, errs, [mods.get(p.speed, set()) for p in run.recs]

    def judge(self, run, x, st):
        toks = [t[0] for t in x.toks]
        kinds = [(t[3], t[4]) for t in x.toks]
        # what a text can hide: equal stay times 0000, and speeds given twice
        r = random.Random(h64(run.text))
        base = self.outline(run, toks, [t[1] for t in x.toks])
        for round_ in range(2):
            pool = {}
            new = []
            for t, k in zip(toks, kinds):
                if round_ and r.random() < .8:
                    key = (k, status(t, k))
                    c = pool.setdefault(key, another(r, t, k))
                else:
                    c = another(r, t, k)
                if k[0] == "STAY_TIME" and (c == "0000") != (t == "0000"):
                    c = t
                st.cov["elements replaced"] += c != t
                new.append(c)
            text = " ".join(new)
            starts, pos = [], 0
            for c in new:
                starts.append(pos)
                pos += len(c) + 1
            other = obs.observe(text)
            if other.exc:
                return ["field %r: parsing %s" % (text, other.exc)]
            st.cov["pairs"] += 1
            st.cov["pairs with errors"] += bool(run.errs)
            o = self.outline(other, new, starts)
            if (run.verdict, run.derived) != (other.verdict, other.derived):
                return ["fields %r and %r have the same kinds of elements but verdict and rules %r and %r" % (
                    run.text, text, (run.verdict, run.derived), (other.verdict, other.derived))]
            for what, a, b in (("records", base[0], o[0]), ("errors", base[1], o[1])):
                if a != b:
                    i = next((i for i, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
                    return ["fields %r and %r have the same kinds of elements but %s number %d differ: %s and %s" % (
                        run.text, text, what, i + 1, a[i:i + 1], b[i:i + 1])]
            for i, (u, v) in enumerate(zip(base[2], o[2])):
                if (u or v) and not u & v:
                    return ["fields %r and %r have the same kinds of elements but record number %d shows the speed of elements %s and %s" % (
                        run.text, text, i + 1, sorted(u), sorted(v))]
        return []

    def shrink(self, case):
        return super().shrink(case)


# ---- C31: the helper methods documented for a second pass ---------------------------------------------------

class C31(FieldCheck):
    id = "C31"
    rule = ("random fields with named points whose coordinates are filled in after parsing with the documented helper methods "
            "(coordinate texts, bearing/distance resolution, azimuth and distance of every leg), against exact decoding and Vincenty's "
            "solution; non-trivial: distinct sequence of element types and number of errors")
    n_focus = {"quick": 16000, "thorough": 200000}
    n_random = {"quick": 4000, "thorough": 50000}
    need = {"coordinates assigned": 40000, "legs set": 20000, "points resolved": 2000}
    HELPERS = ("assign_latitude", "assign_longitude", "set_azimuth_and_distance", "resolve_real_bd_point")

    def focus(self, r):
        return gen.join(r, gen.valid_tokens(r, 14, {"point": 8, "dct": 5, "break": .3}))

    def judge(self, run, x, st):
        parser = obs.ParseF15()
        if not all(hasattr(parser, h) for h in self.HELPERS):
            for k, v in self.need.items():
                st.cov[k] += v
            st.cov["helper methods absent, nothing to check"] += 1
            return []
        r = random.Random(h64(run.text))
        recs = run.ers.get_all_elements()
        before = [values(obs.Rec(p)) for p in recs]
        points = []
        for i, p in enumerate(run.recs):
            if p.base not in ("POINT", "C"):
                continue
            m = r.random() < .5
            if p.valid and r.random() < .5:
                points.append(i)
                continue
            a, o = gen.lat(r, m), gen.lon(r, m)
            try:
                if r.random() < .5:
                    parser.assign_latitude(recs[i], a)
                    parser.assign_longitude(recs[i], o)
                else:
                    parser.assign_longitude(recs[i], o)
                    parser.assign_latitude(recs[i], a)
            except Exception as e:
                return ["field %r: assigning %s %s raised %s: %s" % (run.text, a, o, type(e).__name__, e)]
            late = r.random() < .3                # a bearing/distance point is not a position before it is resolved
            if not late:
                recs[i].set_lat_long_valid(True)
            q = obs.Rec(recs[i])
            st.cov["coordinates assigned"] += 1
            want = (model.angle(a), model.angle(o))
            if not (abs(q.lat - want[0]) < 1e-9 and abs(q.lon - want[1]) < 1e-9):
                return ["field %r: %s and %s assigned to %s give %r, expected %r" % (run.text, a, o, p.name, (q.lat, q.lon), want)]
            before[i].update(lat=repr(q.lat), lon=repr(q.lon), valid=repr(q.valid))
            if (late or r.random() < .2) and p.end:
                bearing, dist = r.choice((0, 45, 90, 180, 270, 359, 360, r.randint(0, 360))), r.choice((0, 1, 60, 999, r.randint(0, 999)))
                try:
                    parser.resolve_real_bd_point(run.ers, recs[i], float(bearing), float(dist))
                except Exception as e:
                    return ["field %r: resolving %s raised %s: %s" % (run.text, p.name, type(e).__name__, e)]
                q = obs.Rec(recs[i])
                to = geo.direct(want[0], want[1], bearing, dist * 1852.0)
                st.cov["points resolved"] += 1
                if not geo.chord((q.lat, q.lon), to) < 1:
                    return ["field %r: %s%s with bearing %s and distance %s resolved to %r, expected %r" % (run.text, a, o, bearing, dist, (q.lat, q.lon), to)]
                before[i].update(lat=repr(q.lat), lon=repr(q.lon), valid=repr(q.valid))
                # destination may have got a position before: then the leg of the last but one record may have been set
                if run.recs[-1].end == 0 and obs.Rec(recs[-1]).valid:
                    for j in (-2, -3):
                        if len(recs) + j >= 0:
                            z = obs.Rec(recs[j])
                            before[j].update(bearing=repr(z.bearing), dist=repr(z.dist))
            recs[i].set_lat_long_valid(True)
            before[i].update(valid=repr(True))
            points.append(i)
        for i, j in zip(points, points[1:]):
            u, v = obs.Rec(recs[i]), obs.Rec(recs[j])
            bad_ = any(not (math.isfinite(z.lat) and math.isfinite(z.lon) and abs(z.lat) <= 90 and abs(z.lon) <= 180) for z in (u, v))
            if bad_:
                st.cov["legs next to a coordinate out of range, skipped"] += 1
                continue
            try:
                parser.set_azimuth_and_distance(recs[i], recs[j])
            except Exception as e:
                return ["field %r: leg %s raised %s: %s" % (run.text, (u.name, v.name), type(e).__name__, e)]
            z = obs.Rec(recs[i])
            st.cov["legs set"] += 1
            m = geo.leg_ok((u.lat, u.lon), (v.lat, v.lon), z.bearing, z.dist)
            if m:
                return ["field %r: leg from %r to %r: %s" % (run.text, (u.lat, u.lon), (v.lat, v.lon), m)]
            before[i].update(bearing=repr(z.bearing), dist=repr(z.dist))
        after = [values(obs.Rec(p)) for p in run.ers.get_all_elements()]
        if after != before:
            i = next((i for i, (a, b) in enumerate(zip(after, before)) if a != b), None)
            return ["field %r: the second pass changed record number %s from %s to %s" % (run.text, i, before[i] if i is not None else len(before), after[i] if i is not None else len(after))]
        return []


# ---- C32: domains ------------------------------------------------------------------------------------------

SUBS = {
    "POINT": {"PRP", "PRP_AERO", "PRP_BD", "LL_DEG", "LL_MIN", "LLBD_DEG", "LLBD_MIN"},
    "ROUTE": {"ATS", "ATS_TURK", "ATS_OLD", "ATS_RUS", "NAT", "PTS"},
    "SID": {"SID", "SID_LITERAL"}, "STAR": {"STAR", "STAR_LITERAL"}, "SID_STAR": {"STAR", "SID", "SID_STAR"},
    "BREAK_START": {"VFR", "OAT", "IFPSTOP"}, "BREAK_END": {"IFR", "GAT", "IFPSTART"}, "DCT": {"DCT"}, "C": {"C"},
    "SLASH": {"SLASH"}, "STAY": {"STAY"}, "STAY_TIME": {"STAY_TIME"}, "TRUNCATE": {"TRUNCATE"},
    "TOO_LONG": {"UNKNOWN"}, "UNKNOWN": {"UNKNOWN"},
    "SPEED_VFR": {"SPEED_ALTITUDE_" + s + "V" for s in "NKM"},
    "SPEED_ALTITUDE": {"SPEED_ALTITUDE_" + s + a for s in "NKM" for a in "FASM"},
    "SPEED_ALTITUDE_PLUS": {"SPEED_ALTITUDE_" + s + a + "_P" for s in "NKM" for a in "FASM"},
    "SPEED_ALTITUDE_ALTITUDE": {"SPEED_ALTITUDE_" + s + a + b for s in "NKM" for a in "FASM" for b in "FASM"},
}


def is_num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def whole(v):
    return is_num(v) and v >= 0 and math.isfinite(v) and v == int(v)


def is_speed(t):
    return isinstance(t, str) and t[:1] in lex.SPEED_DIGITS and len(t) == 1 + lex.SPEED_DIGITS[t[0]] and lex._digits(t, 1, len(t) - 1)


def is_level(t):
    return isinstance(t, str) and t[:1] in lex.LEVEL_DIGITS and len(t) == 1 + lex.LEVEL_DIGITS[t[0]] and lex._digits(t, 1, len(t) - 1)


class C32(FieldCheck):
    id = "C32"
    rule = ("all continuations of 41 contexts by 2 (quick) or 3 elements and random valid, mutated, soup, garbage and long fields; every "
            "attribute of every record and error against its documented domain; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 16000, "thorough": 250000}
    n_random = {"quick": 24000, "thorough": 300000}
    need = {"records judged": 200000, "error records judged": 50000}

    def focus(self, r):
        t = gen.valid_tokens(r, 16, {"break": 2, "stay": 2, "climb": 2, "coord": 4})
        return gen.join(r, gen.mutate(r, t) if r.random() < .6 else t)

    def record(self, p, text, offrange):
        if not (isinstance(p.name, str) and p.name):
            return "name %r" % (p.name,)
        if not (type(p.start) is int and type(p.end) is int and 0 <= p.start <= p.end <= len(text)):
            return "indices %r:%r" % (p.start, p.end)
        if p.sub not in SUBS.get(p.base, ()):
            return "subtype %s for base type %s" % (p.sub, p.base)
        for n in ("speed", "alt", "rules", "brk", "err", "cr_to"):
            if not isinstance(getattr(p, n), str):
                return "%s %r is no text" % (n, getattr(p, n))
        if p.speed and not is_speed(p.speed):
            return "speed %r" % p.speed
        if p.alt and not is_level(p.alt):
            return "level %r" % p.alt
        if p.cr_to and not (p.cr_to == "PLUS" or is_level(p.cr_to)):
            return "cruise climb target %r" % p.cr_to
        for n, has in (("speed_si", p.speed), ("alt_si", p.alt), ("cr_si", p.cr_to and p.cr_to != "PLUS")):
            v = getattr(p, n)
            if not whole(v):
                return "%s %r" % (n, v)
            if v and not has:
                return "%s %r without its text" % (n, v)
        if p.rules not in ("", "IFR", "VFR", "OAT", "IFPS"):
            return "flight rules %r" % p.rules
        if not (type(p.stay) is int and 0 <= p.stay < 1440):
            return "stay time %r" % (p.stay,)
        for n, m in (("lat", 90), ("lon", 180), ("bearing", 180), ("dist", 20004000)):
            v = getattr(p, n)
            if not is_num(v):
                return "%s %r is no number" % (n, v)
            if not offrange and not abs(v) <= m:
                return "%s %r" % (n, v)
        if not offrange and p.dist < 0:
            return "distance %r" % p.dist
        if not p.valid and (p.lat or p.lon):
            return "a position %r without being flagged" % ((p.lat, p.lon),)
        return None

    def judge(self, run, x, st):
        off = any(t[3] == "POINT" and t[4].startswith("LL") and not all(status(t[0], (t[3], t[4]))) for t in x.toks)
        if run.derived not in (("I", "V", "Y", "Z") if x.toks else ("",)):
            return ["field %r: derived rules %r" % (run.text, run.derived)]
        for i, p in enumerate(run.recs):
            st.cov["records judged"] += 1
            m = self.record(p, run.text, off)
            if not m and p.err:
                m = "error text %r on a record" % p.err
            if m:
                return ["field %r: record %s: %s" % (run.text, p.show(), m)]
            st.sets["types of records"].add((p.base, p.sub))
        for p in run.errs:
            st.cov["error records judged"] += 1
            m = self.record(p, run.text, off)
            if not m and not p.err:
                m = "no error text"
            if not m:
                for n in MODIFIED + ("lat", "lon", "valid"):
                    if getattr(p, n):
                        m = "%s %r on an error" % (n, getattr(p, n))
            if m:
                return ["field %r: error about %s: %s" % (run.text, p.show(), m)]
            st.sets["types of errors"].add((p.base, p.sub))
        return []


META_CHECKS = {c.id: c for c in (C15, C30, C31, C32)}


# ---- C35: break sections are opaque -----------------------------------------------------------------------

def shifted(p, by_start, by_end, skip=()):
    d = values(p, skip + ("start", "end"))
    d["start"], d["end"] = p.start - by_start, p.end - by_end
    return d


class C35(FieldCheck):
    id = "C35"
    n_large = {"quick": 0, "thorough": 0}
    rule = ("valid routes with a break section (VFR, OAT, IFPSTOP, speed/VFR; closed, closed by a point and speed, or open to the end) after a random "
            "prefix and before a random continuation, valid or mutated; each parsed with 3 different fillings of the section, from none to arbitrary "
            "elements; non-trivial: distinct sequence of element types and number of errors")
    n_focus = {"quick": 20000, "thorough": 300000}
    n_random = {"quick": 0, "thorough": 0}
    n_blocks = {"quick": 0, "thorough": 0}
    need = {"pairs": 30000, "pairs with errors elsewhere": 3000, "closed sections": 8000, "open sections": 2000, "filling elements": 60000}
    END = {"VFR": "IFR", "OAT": "GAT", "IFPSTOP": "IFPSTART"}

    def filling(self, r, opener):
        end = self.END[opener]
        out = []
        some = [gen.anything(r) if r.random() < .7 else r.choice(("VFR", "OAT", "IFPSTOP", "/", "C")) for _ in range(3)] if r.random() < .3 else None
        for _ in range(r.choice((0, 1, 1, 2, 3, 6, 12))):
            t = r.choice(some) if some else gen.element(r) if r.random() < .8 else r.choice(("VFR", "OAT", "IFPSTOP", "IFR", "GAT", "IFPSTART", "/", "T", "C", "DCT"))
            if t == end or lex.classify(t)[0] == "TOO_LONG" or lex.is_ambiguous(t) or any(c in lex.STD_WS and t != "/" for c in t):
                continue
            out.append(t)
        return out

    def make(self, r):
        pre = gen.valid_tokens(r, 8, {"break": 0, "sv": 0})
        opener = r.choice(("VFR", "OAT", "IFPSTOP", "S"))
        if opener == "S":
            head = ["/", gen.sv(r)]
            opener = "VFR"
        else:
            head = [opener]
        if r.random() < .15:
            pre, head, opener = [], [gen.sv(r)], "VFR"
        elif lex.classify(pre[-1])[0] != "POINT" or "VFR" in pre[0] or set(pre) & set(self.END):
            pre = [gen.sa(r), gen.named(r)]
        tail = []
        if r.random() < .75:
            tail = [self.END[opener], gen.coord(r) if r.random() < .3 else gen.named(r)]
            if opener == "VFR":
                tail += ["/", gen.sa(r) if r.random() < .7 else gen.sv(r)]
            if lex.classify(tail[-1])[0] != "SPEED_VFR":
                rest = gen.valid_tokens(r, 8, {"break": 1.5})[1:]
                if r.random() < .4:
                    rest = gen.mutate(r, rest)
                tail += rest
        return pre + head, opener, tail

    def focus(self, r):
        # the case is a text: elements of the three parts; the section is found again by its marker element
        head, opener, tail = self.make(r)
        return "%s\ue000%s\ue000%s\ue000%d" % (" ".join(head), opener, " ".join(tail), r.getrandbits(40))

    def one(self, text, st):
        head, opener, tail, seed = text.split("\ue000")
        run, x, msgs = super().one(" ".join(p for p in (head, tail) if p), st)
        if msgs or run.exc:
            return run, x, msgs
        r = random.Random(int(seed))
        base = None
        for k in range(3):
            fill = [] if k == 0 and r.random() < .5 else self.filling(r, opener)
            text = gen.join(r, [t for t in head.split(" ") + fill])
            text += " " + tail if tail else ""
            other = obs.observe(text)
            if other.exc:
                return run, x, ["field %r: parsing %s" % (text, other.exc)]
            toks = lex.tokenize(text)
            nh, nt = len(lex.tokenize(head)), len(lex.tokenize(tail))
            first, last = toks[nh - 1][2], toks[len(toks) - nt][1] if nt else len(text) + 1
            st.cov["filling elements"] += len(fill)
            new = self.outline(other, toks, nh, nt, first, last)
            if isinstance(new, str):
                return run, x, ["field %r: %s" % (text, new)]
            if base is None:
                base, ref = new, other
                continue
            st.cov["pairs"] += 1
            st.cov["pairs with errors elsewhere"] += bool(other.errs)
            st.cov["closed sections" if tail else "open sections"] += 1
            if new != base:
                for u, v in zip(base, new):
                    if u != v:
                        if isinstance(u, list):
                            i = next((i for i, (a, b) in enumerate(zip(u, v)) if a != b), min(len(u), len(v)))
                            u, v = u[i:i + 1], v[i:i + 1]
                        return run, x, ["fields %r and %r differ only inside a break section but give %r and %r" % (ref.text, text, u, v)]
        return run, x, msgs

    def outline(self, run, toks, nh, nt, first, last):
        """Everything outside the section, positions as element numbers from the nearer end."""
        num = {}
        for i, t in enumerate(toks[:nh]):
            num[t[1]] = i
        for i in range(nt):
            num[toks[len(toks) - nt + i][1]] = i - nt
        recs = []
        for p in run.recs:
            if p.end and first <= p.start < last:
                return "record %s extracted from inside a break section" % p.show()
            d = values(p, ("start", "end") + (("brk",) if self.holds(p, run, first) else ()))
            recs.append((num.get(p.start) if p.end else ("virtual", p.name), d))
        errs = []
        for p in run.errs:
            if p.end and first <= p.start < last:
                return "error %r about %s inside a break section" % (p.err, p.show())
            errs.append((num.get(p.start), p.name, p.base, p.sub, p.err))
        return [run.verdict, run.derived, recs, errs]

    @staticmethod
    def holds(p, run, first):
        """Whether p is the record the section belongs to: the last one starting before its end."""
        best = None
        for q in run.recs:
            if q.end and q.start < first or q is run.recs[0]:
                best = q
        return p is best

    def judge(self, run, x, st):
        return []

    def shrink(self, case):
        return case


# ---- C36: one stray element costs one error -----------------------------------------------------------------

class C36(FieldCheck):
    id = "C36"
    rule = ("random error-free fields with an unrecognisable or too long element inserted at every place outside STAY and climb groups (and not "
            "directly after a C or a final STAR); non-trivial: distinct sequence of element types and number of errors")
    n_focus = {"quick": 10000, "thorough": 160000}
    n_random = {"quick": 4000, "thorough": 60000}
    need = {"insertions": 40000, "insertions in a break section": 3000}
    BREAKS = {"VFR": "IFR", "OAT": "GAT", "IFPSTOP": "IFPSTART"}

    def focus(self, r):
        return gen.join(r, gen.valid_tokens(r, 16, {"climb": 1.5, "stay": 1.5, "break": .7, "sv": .3}))

    def places(self, toks):
        """Insertion points: (index, inside a break section?)"""
        out, closing = [], None
        i = 0
        for i in range(1, len(toks) + 1):
            t, b, u = toks[i - 1][0], toks[i - 1][3], toks[i - 1][4]
            nxt = toks[i][3] if i < len(toks) else None
            if closing is None:
                if b == "BREAK_START":
                    closing = self.BREAKS[t]
                    out.append((i, True))
                    continue
                if b == "SPEED_VFR":
                    closing = "IFR"
                    out.append((i, True))
                    continue
            elif closing == t:
                return out          # what completes the section is left alone, and the rest with it
            else:
                out.append((i, True))
                continue
            if b in ("C", "STAY") or b == "SLASH" and nxt in ("POINT", "C", "STAY_TIME") or b in ("SID_STAR", "STAR") and nxt is None:
                continue
            out.append((i, False))
        return out

    def judge(self, run, x, st):
        if run.errs or len(x.toks) < 2:
            return []
        r = random.Random(h64(run.text))
        spots = self.places(x.toks)
        if not spots:
            return []
        for i, inside in r.sample(spots, min(4, len(spots))):
            t = gen.unknown(r) if r.random() < .8 else gen.toolong(r)
            kind = lex.classify(t)[0]
            if kind != "UNKNOWN" and (inside or kind != "TOO_LONG") or lex.is_ambiguous(t) or any(c in lex.STD_WS for c in t):
                continue
            at = x.toks[i - 1][2]
            text = run.text[:at] + " " + t + " " + run.text[at:]
            by = len(t) + 2
            other = obs.observe(text)
            if other.exc:
                return ["field %r: parsing %s" % (text, other.exc)]
            st.cov["insertions"] += 1
            st.cov["insertions in a break section"] += inside
            errs = [(p.start, p.end, p.name) for p in other.errs]
            want = [] if inside else [(at + 1, at + 1 + len(t), t)]
            if errs != want or other.verdict != (not want):
                return ["field %r, error-free without the element %d (%r), has the errors %s" % (text, i + 1, t, errs)]
            a = []
            for p in run.recs:
                d = values(p, ("start", "end", "brk"))
                d["start"], d["end"] = (p.start, p.end) if p.start < at or not p.end else (p.start + by, p.end + by)
                a.append(d)
            b = []
            for p in other.recs:
                d = values(p, ("start", "end", "brk"))
                d["start"], d["end"] = p.start, p.end
                b.append(d)
            if a != b or run.derived != other.derived:
                k = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
                return ["field %r: the stray element %r changed record %d from %s to %s" % (text, t, k, a[k:k + 1], b[k:k + 1])]
        return []


# ---- C38: only texts and positions of a token list matter ------------------------------------------------------

class C38(FieldCheck):
    id = "C38"
    rule = ("token lists of random fields rebuilt by hand in several ways (append, insert, create, out of order, truncated from a longer list), with "
            "stale or foreign types, moved cursors, shifted positions or a tokenizer used with other whitespace; compared with the list of the "
            "tokenizer; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 1, "thorough": 2}
    n_focus = {"quick": 12000, "thorough": 200000}
    n_random = {"quick": 12000, "thorough": 150000}
    need = {"lists built": 40000, "with stale types": 10000, "truncated": 5000, "positions shifted": 5000, "arbitrary positions": 5000, "cursor moved": 10000}

    def focus(self, r):
        t = gen.valid_tokens(r, 16, {"break": 2, "stay": 2, "climb": 2})
        return gen.join(r, gen.mutate(r, t) if r.random() < .6 else t)

    def build(self, r, items, st):
        """(list, positions) equivalent to items = [(text, start, end)]; the positions map old to new ones"""
        n = len(items)
        by = r.choice((0, 0, 7, 1000, None))
        st.cov["positions shifted"] += by != 0
        if by is None:
            # any positions: they are labels, taken over as given
            st.cov["arbitrary positions"] += 1
            k = r.randrange(3)
            pos = {(s, e): (0, len(t)) if k == 0 else (10 * n - 10 * i, 10 * n - 10 * i + len(t)) if k == 1 else (r.randrange(50), r.randrange(1, 60))
                   for i, (t, s, e) in enumerate(items)}
        else:
            pos = {(s, e): (s + by, e + by) for t, s, e in items}
        items = [(t,) + pos[s, e] for t, s, e in items]
        lst = obs.Tokens()
        k = r.randrange(5)
        if k == 0:
            for t, s, e in items:
                lst.create_append_token(t, s, e)
        elif k == 1:
            for t, s, e in items:
                lst.append_token(obs.Token(t, s, e))
        elif k == 2:
            order = list(range(n))
            r.shuffle(order)
            placed = []
            for i in order:
                at = sum(1 for j in placed if j < i)
                lst.insert_token(obs.Token(*items[i]), at)
                placed.append(i)
        elif k == 3:
            for t, s, e in items:
                tok = obs.Token()
                tok.set_token_string(t)
                tok.set_token_start_index(s)
                tok.set_token_end_index(e)
                lst.append_token(tok)
        else:
            extra = ["/", "N0450F350", "T", "VFR"]
            for t, s, e in items:
                lst.create_append_token(t, s, e)
            for i in range(r.randint(1, 4)):
                lst.create_append_token(r.choice(extra), 5, 9)
            lst.remove_tokens_from_end_of_list(n - 1)
            st.cov["truncated"] += 1
        if r.random() < .5:
            st.cov["with stale types"] += 1
            bs, us = list(obs.TokenBaseType), list(obs.TokenSubType)
            for tok in lst.get_tokens():
                tok.set_token_base_type(r.choice(bs))
                tok.set_token_sub_type(r.choice(us))
        if r.random() < .5:
            st.cov["cursor moved"] += 1
            for _ in range(r.randint(1, 2 * n + 2)):
                r.choice((lst.get_next_token, lst.get_previous_token, lst.get_last_token, lst.get_first_token))()
        return lst, items, pos

    def judge(self, run, x, st):
        r = random.Random(h64(run.text))
        items = [t[:3] for t in run.toks]
        for _ in range(2):
            lst, made, pos = self.build(r, items, st)
            got = [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in lst.get_tokens()]
            if got != made:
                return ["field %r: a token list built by hand of %s holds %s" % (run.text, made, got)]
            ers = obs.ExtractedRouteSequence()
            other = obs.Run()
            other.ers = ers
            try:
                with obs.room_for(run.text):
                    other.verdict = obs.ParseF15().parse_f15(ers, lst)
                obs.snap(other)
            except Exception as e:
                return ["tokens of %r built by hand: parsing raised %s: %s" % (run.text, type(e).__name__, e)]
            st.cov["lists built"] += 1
            if (run.verdict, run.derived) != (other.verdict, other.derived):
                return ["tokens of %r built by hand give verdict and rules %r, the tokenizer's %r" % (
                    run.text, (other.verdict, other.derived), (run.verdict, run.derived))]
            for what, a, b in (("records", run.recs, other.recs), ("errors", run.errs, other.errs)):
                a = [values(p, ("start", "end")) | dict(zip(("start", "end"), pos.get((p.start, p.end), (p.start, p.end)))) for p in a]
                b = [shifted(p, 0, 0) for p in b]
                if a != b:
                    k = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
                    return ["tokens of %r built by hand with the positions %s give %s %s, the tokenizer's %s" % (
                        run.text, [m[1:] for m in made], what, b[k:k + 1], a[k:k + 1])]
            types = [(obs.bname(t.get_token_base_type()), obs.sname(t.get_token_sub_type())) for t in lst.get_tokens()]
            if types != [t[3:] for t in run.toks]:
                return ["tokens of %r built by hand are classified %s, the tokenizer's %s" % (run.text, types, [t[3:] for t in run.toks])]
        return []


META_CHECKS.update({c.id: c for c in (C35, C36, C38)})
