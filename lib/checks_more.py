"""More relations between executions: forgetting the past, writing a result back, symmetry of the geometry."""
import math, random

import gen
import lex
import model
import obs
from checks_meta import shifted, values
from runner import FieldCheck, h64


# ---- C39: what came before matters only through the data in force ------------------------------------------

class C39(FieldCheck):
    id = "C39"
    n_large = {"quick": 0, "thorough": 0}
    rule = ("random valid, mutated, cut and very long beginnings, often repeating the elements of what follows, then a point with speed and level and "
            "another point, then a random valid, mutated or arbitrary rest; the rest extracted after the long beginning compared with the rest after a "
            "minimal one; non-trivial: distinct sequence of element types and number of errors")
    n_focus = {"quick": 30000, "thorough": 400000}
    n_random = {"quick": 0, "thorough": 0}
    n_blocks = {"quick": 0, "thorough": 0}
    need = {"pairs": 12000, "records compared": 50000, "errors compared": 10000, "beginnings with errors": 4000, "beginnings repeating the rest": 800}

    def rest(self, r):
        k = r.random()
        w = {"break": 2, "stay": 2, "climb": 2, "coord": 5, "c": 1}
        if k < .35:
            return gen.valid_tokens(r, 14, w)[1:]
        if k < .7:
            return gen.mutate(r, gen.valid_tokens(r, 12, w)[1:])
        return gen.soup(r, r.randint(1, 8))

    def focus(self, r):
        s = self.rest(r)
        k = r.random()
        if k < .3:
            p = gen.valid_tokens(r, 20)
        elif k < .6:
            p = gen.mutate(r, gen.valid_tokens(r, 20))
        elif k < .7:
            p = gen.valid_tokens(r, 70)
        elif k < .85:
            # all sorts of errors in a row
            p = ["N0450F350"]
            for _ in range(r.randint(2, 9)):
                p += gen.mutate(r, gen.valid_tokens(r, 4))
        else:
            p = gen.soup(r)
        if r.random() < .35:
            i = r.randint(1, max(1, len(p)))
            p = p[:i] + s * r.choice((1, 1, 2, 3)) + p[i:]
        if r.random() < .4:
            del p[r.randint(1, max(1, len(p))):]
        names = r.sample(["BRIDG", "BRI", "BR", "BRIA"], 2)
        return "%s\ue000%s\ue000%s" % (gen.clean(" ".join(p)), " ".join([names[0], "/", gen.sa(r, 0), names[1]]), gen.clean(gen.join(r, s).strip(" \n\t\r")))

    def one(self, text, st):
        p, b, s = text.split("\ue000")
        long_ = "%s XQ %s %s" % (p, b, s)
        short = "N0450F350 XQ %s %s" % (b, s)
        run, x, msgs = super().one(long_, st)
        if msgs or run.exc:
            return run, x, msgs
        at = len(p) + 4
        first = at + b.rindex(" ") + 1
        nb = 4
        i0 = next(i for i, t in enumerate(x.toks) if t[1] == at)
        # the bridge must have been met in the ordinary state (the reference model tells)
        roles = [x.role[i] for i in range(i0, i0 + nb)]
        if roles != ["record", "punct", "modifier", "record"] or any(at <= e.start < first for e in x.errs):
            st.cov["bridge not met in the ordinary state"] += 1
            return run, x, []
        other = obs.observe(short)
        if other.exc:
            return run, x, ["field %r: parsing %s" % (short, other.exc)]
        by = len(long_) - len(short)
        st.cov["pairs"] += 1
        st.cov["beginnings with errors"] += any(e.start < at for e in run.errs)
        st.cov["beginnings repeating the rest"] += s != "" and s in p
        a = [shifted(q, 0, 0) for q in other.recs[:-1] if q.start >= first - by]
        c = [shifted(q, by, by) for q in run.recs[:-1] if q.start >= first]
        ends = [values(q) for q in (other.recs[-1], run.recs[-1])]
        for what, u, v in (("records", a, c), ("errors", [shifted(q, 0, 0) for q in other.errs if q.start >= first - by],
                                              [shifted(q, by, by) for q in run.errs if q.start >= first]), ("destinations", ends[:1], ends[1:])):
            st.cov[what + " compared"] += len(u)
            if u != v:
                k = next((k for k, (m, n) in enumerate(zip(u, v)) if m != n), min(len(u), len(v)))
                return run, x, ["%r parsed after %r gives %s %s, after a minimal beginning %s" % (b + " " + s, p, what, v[k:k + 1], u[k:k + 1])]
        return run, x, []

    def judge(self, run, x, st):
        return []

    def shrink(self, case):
        p, b, s = case["text"].split("\ue000")
        best = case
        for which in (0, 1):
            parts = [p.split(" "), s.split(" ")]
            i, n = 0, 0
            while i < len(parts[which]) and n < 150:
                cand = [list(q) for q in parts]
                del cand[which][i]
                n += 1
                c = {"text": "%s\ue000%s\ue000%s" % (" ".join(cand[0]), b, " ".join(cand[1]))}
                try:
                    ok = bool(self.replay(c))
                except Exception:
                    ok = False
                if ok:
                    parts, best = cand, c
                    p, s = " ".join(parts[0]), " ".join(parts[1])
                else:
                    i += 1
        return best


# ---- C40: an accepted field can be written back from its result ----------------------------------------------

def written_back(run):
    """The elements of a field that says what the records of an error-free result say."""
    recs = run.recs[1:-1]
    out = []
    start = run.recs[0]
    if recs and recs[0].base == "SPEED_VFR" and start.rules == "VFR":
        pass
    else:
        out.append(start.speed + start.alt)
    speed, alt = start.speed, start.alt
    after_rule_change = False
    for i, p in enumerate(recs):
        nxt = recs[i + 1] if i + 1 < len(recs) else None
        if p.base == "SPEED_VFR":
            out += ([] if not out else ["/"]) + [p.speed + "VFR"] + p.brk.split(" ") if p.brk else ([] if not out else ["/"]) + [p.speed + "VFR"]
            speed, alt = p.speed, p.alt
            after_rule_change = p.brk.split(" ")[-1:] == ["IFR"]
            continue
        if p.cr_to:
            out += ["C", "/", p.name, "/", p.speed + p.alt + p.cr_to]
        else:
            out.append(p.name)
            told = nxt is not None and nxt.base == "SPEED_VFR"
            if ((p.speed, p.alt) != (speed, alt) or after_rule_change) and not told:
                out += ["/", p.speed + p.alt]
        if p.stay:
            out += ["STAY1", "/", "%02d%02d" % divmod(p.stay, 60)]
        if p.base == "BREAK_START" and p.brk:
            out += p.brk.split(" ")
        after_rule_change = p.base == "BREAK_START" and p.sub == "VFR" and p.brk.split(" ")[-1:] == ["IFR"]
        speed, alt = p.speed, p.alt
    if not recs:
        out.append("T")
    return out


class C40(FieldCheck):
    id = "C40"
    rule = ("random valid fields of up to 60 elements with all features, echoed and uniform ones; each accepted field is written back from its records "
            "alone, parsed again, and the two results compared; then once more; non-trivial: distinct sequence of element types")
    n_focus = {"quick": 40000, "thorough": 500000}
    n_random = {"quick": 8000, "thorough": 100000}
    need = {"written back": 25000, "records compared": 150000, "with a break section": 5000, "with a cruise climb": 5000, "with a stay": 5000}

    def focus(self, r):
        return gen.join(r, gen.valid_tokens(r, r.choice((4, 10, 20, 60)), {"break": 2, "stay": 2, "climb": 2, "coord": 4, "c": 1}))

    def judge(self, run, x, st):
        if run.errs or not run.verdict:
            return []
        first = run
        for turn in range(2):
            text = " ".join(written_back(first))
            if turn == 0:
                st.cov["written back"] += 1
                st.cov["with a break section"] += any(p.brk for p in run.recs)
                st.cov["with a cruise climb"] += any(p.cr_to for p in run.recs)
                st.cov["with a stay"] += any(p.stay for p in run.recs)
            again = obs.observe(text)
            if again.exc:
                return ["field %r: parsing %s" % (text, again.exc)]
            if again.errs or not again.verdict:
                return ["field %r is accepted; written back from its records, %r is rejected: %s" % (run.text, text, again.errs[0].err if again.errs else "verdict")]
            if again.derived != run.derived:
                return ["field %r: derived rules %r; written back from its records, %r: %r" % (run.text, run.derived, text, again.derived)]
            a = [values(p, ("start", "end")) for p in run.recs]
            b = [values(p, ("start", "end")) for p in again.recs]
            if a != b:
                k = next((k for k, (m, n) in enumerate(zip(a, b)) if m != n), min(len(a), len(b)))
                return ["field %r: record %s; written back from its records, %r: %s" % (run.text, a[k:k + 1], text, b[k:k + 1])]
            st.cov["records compared"] += len(a)
            first = again
        return []


# ---- C41: symmetry of the geometry -----------------------------------------------------------------------------

def parse_coord(t):
    """(lat digits, N/S, lon digits, E/W, tail) of a coordinate element"""
    n = 2 if t[2] in "NS" else 4
    return t[:n], t[n], t[n + 1:2 * n + 2] if n == 2 else t[n + 1:n + 6], t[n + 4] if n == 2 else t[n + 6], t[n + 5:] if n == 2 else t[n + 7:]


def minutes(d, whole):
    return int(d[:whole]) * 60 + (int(d[whole:]) if len(d) > whole else 0)


class C41(FieldCheck):
    id = "C41"
    rule = ("random valid and mutated fields rich in coordinates, each parsed as it is and with all its coordinates mirrored at the equator, at the "
            "Greenwich meridian, and turned about the pole by a random angle; non-trivial: distinct sequence of element types and number of errors")
    n_focus = {"quick": 24000, "thorough": 300000}
    n_random = {"quick": 0, "thorough": 0}
    n_blocks = {"quick": 0, "thorough": 0}
    need = {"pairs": 30000, "positions compared": 90000, "legs compared": 40000}

    def focus(self, r):
        t = gen.valid_tokens(r, 14, {"coord": 14, "point": 3})
        if r.random() < .4:
            t = gen.mutate(r, t)
        if r.random() < .25:
            i = r.randint(min(1, len(t)), len(t))
            t[i:i] = [gen.coord(r) for _ in range(r.randint(2, 6))]
        return gen.join(r, t)

    def moved(self, t, how, k):
        """The element after the movement, or None when it has no representation"""
        la, ns, lo, ew, tail = parse_coord(t)
        if int(la[:2]) > 90 or int(lo[:3]) > 180 or minutes(la, 2) > 5400 or minutes(lo, 3) > 10800 or int(la[2:] or 0) > 59 or int(lo[3:] or 0) > 59:
            return None
        if tail and int(tail[:3]) > 360:
            return None
        b = int(tail[:3]) if tail else 0
        if how == "equator":
            ns = "S" if ns == "N" else "N"
            b = (540 - b) % 360
        elif how == "meridian":
            ew = "W" if ew == "E" else "E"
            b = (360 - b) % 360
        else:
            m = minutes(lo, 3) * (1 if ew == "E" else -1) + k * 60
            m = (m + 10800) % 21600 - 10800
            if m == -10800 and ew == "E":
                m = 10800
            ew = "E" if m >= 0 else "W"
            lo = "%03d%s" % (abs(m) // 60, "%02d" % (abs(m) % 60) if len(lo) > 3 else "")
        return la + ns + lo + ew + ("%03d" % b + tail[3:] if tail else "")

    def judge(self, run, x, st):
        r = random.Random(h64(run.text))
        for how in ("equator", "meridian", "axis"):
            k = r.choice((1, 90, 179, 180, r.randint(1, 359)))
            text, pos, new = [], 0, {}
            for t, s, e, b, u in x.toks:
                text.append(run.text[pos:s])
                pos = e
                if u.startswith("LL") and b == "POINT":
                    v = self.moved(t, how, k)
                    if v is None or len(v) != len(t):
                        return []
                    new[s] = v
                    t = v
                text.append(t)
            if not new:
                return []
            text = "".join(text) + run.text[pos:]
            other = obs.observe(text)
            if other.exc:
                return ["field %r: parsing %s" % (text, other.exc)]
            st.cov["pairs"] += 1

            def bad(m):
                return ["fields %r and %r (moved: %s%s) %s" % (run.text, text, how, " %d" % k if how == "axis" else "", m)]
            if (run.verdict, run.derived, len(run.recs), len(run.errs)) != (other.verdict, other.derived, len(other.recs), len(other.errs)):
                return bad("differ in verdict, rules or number of records and errors")
            for p, q in zip(run.errs, other.errs):
                n = new.get(p.start, p.name)
                if (p.start, p.end, p.base, p.sub, n, p.err.replace(p.name, n)) != (q.start, q.end, q.base, q.sub, q.name, q.err):
                    return bad("give errors %s and %s" % (p.err, q.err))
            for p, q in zip(run.recs, other.recs):
                u, v = (values(z, ("name", "lat", "lon", "bearing", "brk")) for z in (p, q))
                d0, d1 = float(u.pop("dist")), float(v.pop("dist"))
                if u != v or new.get(p.start if p.end else -1, p.name) != q.name:
                    return bad("give records %s and %s" % (p.show(), q.show()))
                if p.valid:
                    st.cov["positions compared"] += 1
                    lat, lon = p.lat, p.lon
                    if how == "equator":
                        lat = -lat
                    elif how == "meridian":
                        lon = -lon
                    else:
                        lon += k
                    dlon = abs(math.remainder(lon - q.lon, 360)) * math.cos(math.radians(min(90, abs(lat))))
                    if not (abs(lat - q.lat) < 1e-7 and dlon < 1e-7):
                        return bad("put %s at %r and %s at %r" % (p.name, (p.lat, p.lon), q.name, (q.lat, q.lon)))
                elif (p.lat, p.lon) != (q.lat, q.lon):
                    return bad("give positions to %s" % p.name)
                if not abs(d0 - d1) < 0.02:
                    return bad("give distances %r and %r after %s" % (d0, d1, p.name))
                if d0 > 1 and d0 < 1.98e7 and p.valid and abs(p.lat) < 89.5:
                    st.cov["legs compared"] += 1
                    az = {"equator": 180 - p.bearing, "meridian": -p.bearing, "axis": p.bearing}[how]
                    # at 19800 km the azimuth is ill-conditioned; compare the displacement it stands for
                    if abs(math.remainder(az - q.bearing, 360)) * min(d0, 2e7 - d0) > 5.0:
                        return bad("give azimuths %r and %r after %s" % (p.bearing, q.bearing, p.name))
        return []


MORE_CHECKS = {c.id: c for c in (C39, C40, C41)}
