"""Monitors over single parse executions: real result against the reference model or stated invariants."""
import collections, itertools

import gen
import geo
import lex
import model
import obs
from runner import FieldCheck, Stats

J = " ".join


def reverse_messages():
    """template -> number, used to name what was reported"""
    return {v: k for k, v in model.MSG.items()}


def err_list(run):
    return [(e.start, e.err) for e in run.errs]


def xerr_list(x):
    return [(e.start, e.err) for e in x.errs]


def real_by_start(run):
    """real records other than the two placeholders, by start index"""
    return {r.start: r for r in run.recs[1:-1]}


def model_by_start(x):
    return {r.start: r for r in x.recs[1:-1]}


def pairs(run, x):
    """(real, expected) records that represent the same element, plus departure and destination"""
    a, b = real_by_start(run), model_by_start(x)
    out = [(a[s], b[s]) for s in a if s in b]
    if run.recs and x.recs:
        out.append((run.recs[0], x.recs[0]))
        out.append((run.recs[-1], x.recs[-1]))
    return out


def diff_errs(run, x, what="errors"):
    a, b = err_list(run), xerr_list(x)
    if a == b:
        return []
    for i in range(max(len(a), len(b))):
        u = a[i] if i < len(a) else None
        v = b[i] if i < len(b) else None
        if u != v:
            return ["field %r: %s number %d is %s, expected %s" % (run.text, what, i + 1, u, v)]


def count_trans(x, st, name="grammar transitions"):
    st.sets[name].update("/".join(map(str, t)) for t in x.trans)


def random_prefix(r):
    """A grammatical beginning that ends in a state where a point may follow."""
    t = gen.valid_tokens(r, r.choice((2, 4, 8)))
    while t and t[-1] in ("T", "STAR") or (len(t) > 1 and lex.classify(t[-1])[0] in ("SID_STAR", "STAR")):
        t.pop()
    return t


# ---------------------------------------------------------------------------------------------------------

class C02(FieldCheck):
    id = "C02"
    rule = ("fields: all continuations of 41 grammar contexts by 2 (quick) or 3 (thorough) of 30 elements, empty and "
            "blank fields, random valid/mutated/soup/garbage fields; non-trivial: distinct sequence of element types "
            "and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 8000, "thorough": 60000}
    need = {"empty fields": 20, "erroneous": 1000, "error-free fields": 1000, "results used before": 2000}

    def cases(self, tier, seed, w, nw):
        for n in range(5):
            for c in itertools.product(" \n\t\r", repeat=n):
                yield "".join(c)
                yield "/" + "".join(c)
                yield "".join(c) + "A" + "".join(c)
        yield from ("ADEP", "ADES", "N0450F350 ADEP ADES", "N0450F350 ADES", "NULL", "N0450F350 ADEP", "/", "N0450F350",
                    "N0450VFR", "ADEP N0450F350 ADES")

    def focus(self, r):
        if r.random() < .3:
            return "".join(r.choice(" \n\t\r") for _ in range(r.randint(0, 40)))
        t = gen.mutate(r, gen.valid_tokens(r)) if r.random() < .6 else gen.valid_tokens(r)
        for _ in range(r.randint(0, 3)):
            t.insert(r.randint(0, len(t)), r.choice(("ADEP", "ADES", "NULL")))
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        text = run.text
        marks = [(i, r) for i, r in enumerate(run.recs) if r.start == 0 and r.end == 0]
        if len(run.recs) < 2:
            return ["field %r: only %d records" % (text, len(run.recs))]
        if [i for i, _ in marks] != [0, len(run.recs) - 1]:
            out.append("field %r: placeholders at record numbers %s of %d" % (text, [i for i, _ in marks], len(run.recs)))
        for r, n in ((run.recs[0], "ADEP"), (run.recs[-1], "ADES")):
            if (r.name, r.start, r.end, r.base, r.sub) != (n, 0, 0, "POINT", "PRP_AERO"):
                out.append("field %r: expected placeholder %s, found %s" % (text, n, r.show()))
        if run.recs[-1].rules != run.recs[-2].rules:
            out.append("field %r: destination rules %r, record before %r" % (text, run.recs[-1].rules, run.recs[-2].rules))
        if run.verdict is not (len(run.errs) == 0):
            out.append("field %r: verdict %r with %d errors" % (text, run.verdict, len(run.errs)))
        if run.errs:
            st.cov["erroneous"] += 1
        if x.toks:
            if any(e.err == model.MSG[41] for e in run.errs):
                out.append("field %r: reported as empty although it has %d elements" % (text, len(x.toks)))
        else:
            st.cov["empty fields"] += 1
            if len(run.recs) != 2 or len(run.errs) != 1 or run.errs[0].err != model.MSG[41] or run.verdict is not False:
                out.append("empty field %r: %d records, errors %s, verdict %r" % (text, len(run.recs), err_list(run), run.verdict))
        if not out:
            out = self.used_before(text, st)
        return out

    def used_before(self, text, st):
        """The verdict speaks about the error list of the result object, also of one that was used before."""
        r = self.rng(0, 0, text)
        if r.random() > .15:
            return []
        ers = obs.ExtractedRouteSequence()
        how = r.choice(("an empty field", "an erroneous field", "a sound field", "an error entered by hand"))
        if how == "an error entered by hand":
            ers.add_error("EARLIER", 0, r.choice((0, 0, 7)), 0, 0, "an earlier message")
        else:
            obs.ParseF15().parse_f15(ers, obs.make_tokens({"an empty field": "", "an erroneous field": "N0450F350 ?? ABC",
                                                           "a sound field": "N0450F350 ABC"}[how]).get_tokens())
        with obs.room_for(text):
            v = obs.ParseF15().parse_f15(ers, obs.make_tokens(text).get_tokens())
        st.cov["results used before"] += 1
        if v is not (len(ers.get_all_errors()) == 0):
            return ["field %r parsed into a result that held %s before: verdict %r with %d errors in the list" % (text, how, v, len(ers.get_all_errors()))]
        return []


class C05(FieldCheck):
    id = "C05"
    rule = ("random valid, mutated, soup, garbage and long fields with odd layout and repeated element texts, plus all "
            "continuations of 41 contexts by 1 (quick) or 2 elements; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 24000, "thorough": 300000}
    n_random = {"quick": 32000, "thorough": 300000}
    need = {"records sliced": 5000, "errors sliced": 2000, "error lists compared by occurrence": 5000}

    def focus(self, r):
        # the same few texts again and again, so an index of the wrong occurrence shows
        base = gen.mutate(r, gen.valid_tokens(r, 10)) if r.random() < .7 else gen.soup(r)
        pool = [gen.element(r) for _ in range(3)]
        if r.random() < .3:
            # the same stray elements between sound ones
            for _ in range(r.randint(2, 4)):
                base.insert(r.randint(0, len(base)), r.choice(pool[:2]))
            return gen.join(r, base, plain=.2)
        return gen.join(r, [t if t == "/" or r.random() < .6 else r.choice(pool) for t in base], plain=.2)

    def judge(self, run, x, st):
        out = []
        text = run.text
        kind = {(s, e): (b, u) for _, s, e, b, u in x.toks}
        for r in run.recs[1:-1]:
            st.cov["records sliced"] += 1
            k = kind.get((r.start, r.end))
            src = text[r.start:r.end]
            if k is None:
                out.append("field %r: record %s is not at an element" % (text, r.show()))
                continue
            name = "VFR" if k[0] == "SPEED_VFR" else src
            if r.name != name:
                out.append("field %r: record named %r at %d:%d where the field has %r" % (text, r.name, r.start, r.end, src))
            ok = {k}
            if k[0] in ("SID_STAR", "SID", "STAR"):
                ok |= {("SID", "SID"), ("STAR", "STAR"), ("SID", "SID_LITERAL"), ("STAR", "STAR_LITERAL")}
            if (r.base, r.sub) not in ok:
                out.append("field %r: record %s has type %s/%s, the element is %s/%s" % (text, r.show(), r.base, r.sub, k[0], k[1]))
        if x.toks:
            for e in run.errs:
                st.cov["errors sliced"] += 1
                k = kind.get((e.start, e.end))
                src = text[e.start:e.end]
                if k is None or e.name != src:
                    out.append("field %r: error about %r at %d:%d where the field has %r" % (text, e.name, e.start, e.end, src))
                    continue
                if (e.base, e.sub) != k:
                    out.append("field %r: error record %r has type %s/%s, the element is %s/%s" % (text, src, e.base, e.sub, k[0], k[1]))
                msgs = st.__dict__.setdefault("_msgs", list(model.MSG.values()))
                if not any(m.replace("!", src) == e.err for m in msgs):
                    out.append("field %r: message %r about %r is none of the defined ones" % (text, e.err, src))
                else:
                    st.sets["messages seen"].update(m for m in msgs if m.replace("!", src) == e.err)
        # the same records and messages, but about another occurrence of the same text
        for what, a, b in (("record", run.recs, x.recs), ("error", run.errs, x.errs)):
            if [(p.name, p.err) for p in a] == [(p.name, p.err) for p in b]:
                st.cov[what + " lists compared by occurrence"] += 1
                for p, q in zip(a, b):
                    if p.start != q.start:
                        out.append("field %r: %s %r points at %d, it is about the one at %d" % (text, what, p.name, p.start, q.start))
        return out


class C06(FieldCheck):
    id = "C06"
    rule = ("all continuations of 41 contexts by 2 (quick) or 3 elements, random valid/mutated/soup fields biased to "
            "re-synchronisation; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    need = {"ordered records": 20000, "ordered errors": 5000}

    def focus(self, r):
        t = gen.valid_tokens(r, 20)
        for _ in range(r.randint(1, 4)):
            t = gen.mutate(r, t)
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        last = -1
        for r in run.recs[1:-1]:
            st.cov["ordered records"] += 1
            if r.start <= last:
                out.append("field %r: record %s after one at %d" % (run.text, r.show(), last))
            last = r.start
        last = -1
        for e in run.errs:
            st.cov["ordered errors"] += 1
            if e.start < last:
                out.append("field %r: error at %d (%s) reported after one at %d" % (run.text, e.start, e.err, last))
            last = e.start
        if run.recs and not (run.recs[0].start == run.recs[0].end == run.recs[-1].start == run.recs[-1].end == 0):
            out.append("field %r: first or last record carries a source position" % run.text)
        return out


class C07(FieldCheck):
    id = "C07"
    rule = ("all continuations of 41 contexts by 2 (quick) or 3 elements, random valid/mutated/soup/long fields; every "
            "element is looked for in records, break texts, modifiers and errors; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    need = {"role:record": 10000, "role:break-text": 2000, "role:modifier": 2000, "role:error": 2000}

    def focus(self, r):
        k = r.random()
        if k < .4:
            return gen.join(r, gen.valid_tokens(r, 24, {"break": 3, "sl": 4, "climb": 3, "stay": 2}))
        t = gen.valid_tokens(r, 16, {"break": 3, "sv": 2})
        for _ in range(r.randint(1, 3)):
            t = gen.mutate(r, t)
        return gen.join(r, t)

    def judge(self, run, x, st):
        text = run.text
        T = x.toks
        rec_at = {r.start for r in run.recs[1:-1]}
        err_at = {e.start for e in run.errs}
        idx = {t[1]: i for i, t in enumerate(T)}
        in_break = set()
        for r in run.recs[1:-1]:
            if r.brk and r.start in idx:
                i = idx[r.start] + 1
                for w in r.brk.split(" "):
                    while i < len(T) and T[i][0] != w:
                        i += 1
                    if i < len(T):
                        in_break.add(i)
                        i += 1
        out = []
        if not T and not run.errs:
            return ["empty field %r yields no error" % text]
        # nearest record carrying a modifier
        near = []
        cur = run.recs[0]
        by = {r.start: r for r in run.recs[1:-1]}
        for i, (t, s, e, b, u) in enumerate(T):
            if s in by:
                cur = by[s]
            near.append(cur)
        last_mod = {}
        for i, (t, s, e, b, u) in enumerate(T):
            if x.role[i] == "modifier":
                last_mod[(id(near[i]), b == "STAY_TIME")] = i
            elif b == "SPEED_VFR" and x.role[i] == "record" and i:
                last_mod[(id(near[i - 1]), False)] = i      # gives the point before it a new speed and level
        for i, (t, s, e, b, u) in enumerate(T):
            role = x.role[i]
            st.cov["role:%s" % role] += 1
            if s in rec_at or s in err_at or i in in_break:
                continue
            if role == "punct":
                continue
            if role in ("dropped-c", "skipped-end") and run.errs:
                continue
            if role == "modifier":
                r = near[i]
                if b == "STAY_TIME":
                    if r.stay == int(t[:2]) * 60 + int(t[2:]) or last_mod.get((id(r), True)) != i:
                        continue
                else:
                    p = model.Model.parts(t)
                    if last_mod.get((id(r), False)) != i:
                        continue
                    if r.speed == p[0] and r.alt == p[1] and (len(p) < 3 or r.cr_to == p[2]):
                        continue
            out.append("field %r: element %r at %d (%s) is neither in a record, a break text, a modifier nor an error"
                       % (text, t, s, role))
        return out


class C08(FieldCheck):
    id = "C08"
    rule = ("all continuations of 41 contexts by 2 (quick) or 3 (thorough) of 30 element kinds, random valid fields, "
            "single and multiple mutations, soups; verdict and first error against the reference grammar; non-trivial: "
            "distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_random = {"quick": 32000, "thorough": 400000}
    need = {"accepted": 4000, "rejected": 4000}

    def focus(self, r):
        k = r.random()
        if k < .35:
            return gen.join(r, gen.valid_tokens(r, 30))
        t = gen.valid_tokens(r, 12)
        if k < .7:
            return gen.join(r, gen.mutate(r, t))
        # one value out of range somewhere
        i = r.randrange(len(t))
        kind = r.randrange(6)
        new = (gen.ll(r, .5), gen.llbd(r, .4), gen.bd(r, .5), gen.sa(r, .9), gen.saa(r, .7), gen.sap(r, .9))[kind]
        if kind < 3:
            t.insert(i + 1, new)
        else:
            c = {3: "SPEED_ALTITUDE", 4: "SPEED_ALTITUDE_ALTITUDE", 5: "SPEED_ALTITUDE_PLUS"}[kind]
            for j, u in enumerate(t):
                if lex.classify(u)[0] == c and r.random() < .6:
                    t[j] = new
                    break
            else:
                t += ["DCT", "ABC"] + (["/", new] if kind == 3 else ["C", "/", "DEF", "/", new])
        return gen.join(r, t)

    def judge(self, run, x, st):
        count_trans(x, st)
        good = not run.errs
        if good and not x.errs:
            st.cov["accepted"] += 1
            if run.verdict is not True:
                return ["field %r: no error but verdict %r" % (run.text, run.verdict)]
            return []
        if good:
            return ["field %r accepted, expected %s" % (run.text, xerr_list(x)[0])]
        if not x.errs:
            return ["field %r rejected with %s, expected acceptance" % (run.text, err_list(run)[0])]
        st.cov["rejected"] += 1
        st.sets["first messages"].add(x.errs[0].msg)
        if run.verdict is not False:
            return ["field %r: errors but verdict %r" % (run.text, run.verdict)]
        a, b = err_list(run)[0], xerr_list(x)[0]
        if a != b:
            return ["field %r: first error %s, expected %s" % (run.text, a, b)]
        return []


class C09(FieldCheck):
    id = "C09"
    rule = ("erroneous fields: all continuations of 41 contexts by 2 (quick) or 3 elements, valid routes with 1-9 mutations, "
            "soups; all errors and record identities against the reference grammar; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 40000, "thorough": 400000}
    need = {"erroneous": 10000, "with several errors": 3000, "records after the first error": 10000}

    def focus(self, r):
        t = gen.valid_tokens(r, r.choice((6, 12, 24)))
        for _ in range(r.randint(1, 3)):
            t = gen.mutate(r, t)
        return gen.join(r, t)

    def judge(self, run, x, st):
        if not x.errs and not run.errs:
            return []
        count_trans(x, st)
        st.cov["erroneous"] += 1
        st.cov["with several errors"] += len(x.errs) > 1
        st.sets["messages"].update(e.msg for e in x.errs)
        out = diff_errs(run, x)
        a = [(r.start, r.end, r.name, r.base, r.sub) for r in run.recs[1:-1]]
        b = [(r.start, r.end, r.name, r.base, r.sub) for r in x.recs[1:-1]]
        if a != b and not out:
            miss = [v for v in b if v not in a]
            more = [v for v in a if v not in b]
            out.append("field %r (first error %s): records missing %s, unexpected %s" % (run.text, err_list(run)[:1], miss[:3], more[:3]))
        if x.errs:
            st.cov["records after the first error"] += sum(r.start > x.errs[0].start for r in x.recs[1:-1])
        if not out:
            # values on the records extracted after the error: as in a valid field
            for p, q in pairs(run, x):
                if (p.speed, p.alt, p.rules, p.brk, p.stay, p.cr_to, p.valid) != (q.speed, q.alt, q.rules, q.brk, q.stay, q.cr_to, q.valid):
                    out.append("field %r: record %s carries %r, expected %r" % (
                        run.text, p.show(), (p.speed, p.alt, p.rules, p.brk, p.stay, p.cr_to), (q.speed, q.alt, q.rules, q.brk, q.stay, q.cr_to)))
                    break
        return out


def si_close(p, q):
    return abs(p - q) <= 0.506


class C10(FieldCheck):
    id = "C10"
    rule = ("random routes with many speed/level changes, cruise climbs, speed/VFR and errors between them; all "
            "continuations of 41 contexts by 1 (quick) or 2 elements; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 32000, "thorough": 400000}
    need = {"speed changes": 5000, "records carrying": 20000}

    def focus(self, r):
        t = gen.valid_tokens(r, r.choice((8, 16, 30)), {"sl": 5, "climb": 2, "sv": 1, "break": .6})
        if r.random() < .35:
            t = gen.mutate(r, t)
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        for i, t in enumerate(x.toks):
            st.cov["speed changes"] += x.role[i] == "modifier" and t[3] != "STAY_TIME"
        for p, q in pairs(run, x):
            st.cov["records carrying"] += 1
            if (p.speed, p.alt) != (q.speed, q.alt):
                out.append("field %r: record %s has speed/level %r, expected %r" % (run.text, p.show(), (p.speed, p.alt), (q.speed, q.alt)))
            elif p.alt_si != q.alt_si or not si_close(p.speed_si, q.speed_si):
                out.append("field %r: record %s has SI speed/level %r, expected %r" % (run.text, p.show(), (p.speed_si, p.alt_si), (q.speed_si, q.alt_si)))
        return out


class C12(FieldCheck):
    id = "C12"
    rule = ("all 3x4x4 level pair and 3x4 PLUS unit combinations with boundary and random digits, in every context where a "
            "climb may start, every kind of element in each climb position, random routes with several climbs; non-trivial: "
            "distinct sequence of element types and number of errors")
    depth = {"quick": 1, "thorough": 2}
    n_focus = {"quick": 32000, "thorough": 300000}
    n_random = {"quick": 12000, "thorough": 100000}
    need = {"climbs": 5000, "climb errors": 500}

    def cases(self, tier, seed, w, nw):
        r = self.rng(seed, w, "sys")
        pres = ["N0450F350 ABC", "N0450F350 12N034E", "N0450F350 DCT", "N0450F350 ABC B9", "N0450F350 ABC STAY1/0100",
                "N0450F350 ABC/N0300F100", "N0450F350 ABC C", "N0450F350 ABC ??", "N0450F350 ABC OAT X GAT DEF",
                "N0450F350 ABC C/XYZ/N0460F350F370"]
        for rep in range({"quick": 2, "thorough": 12}[tier]):
            for su in "NKM":
                for l1 in "FASM":
                    for l2 in ("F", "A", "S", "M", "PLUS"):
                        for pre in pres:
                            s = gen.speed(r, su) + gen.level(r, l1, .05) + (l2 if l2 == "PLUS" else gen.level(r, l2, .05))
                            # thinned by worker afterwards: keep the stream identical in content shape
                            yield "%s C/%s/%s GHI%s" % (pre, r.choice(("DEF", "EGLL", "12N034E", "1200S01330W", "XYZ180060", "13N035E180060", "C")), s,
                                                        r.choice(("", "/N0440F330", " DCT JKL", " C/MNO/N0470F370F390", " B9 PQR", " VFR")))
        A = gen.ALPHABET + ["?", "<a>", "N0450A100F350", "K0830S0840M0900", "M082A010PLUS", "N0450F353F350", "N0450F350F352"]
        for pre in pres:
            for a in A:
                yield "%s C/%s" % (pre, a)
                yield "%s C/%s/" % (pre, a)
                yield "%s C/%s/N0460F350F370 GHI" % (pre, a)
                yield "%s C/DEF %s" % (pre, a)
                yield "%s C/DEF/%s" % (pre, a)
                yield "%s C/DEF/%s GHI/N0440F330" % (pre, a)
                yield "%s C/DEF/N0460F350F370 %s" % (pre, a)
                yield "%s C/DEF/N0460F350PLUS %s" % (pre, a)
                yield "%s C %s" % (pre, a)

    def focus(self, r):
        t = gen.valid_tokens(r, r.choice((6, 12, 24)), {"climb": 6, "c": 1})
        if r.random() < .5:
            ix = [i for i, u in enumerate(t) if u == "C"]
            if ix:
                i = min(len(t) - 1, r.choice(ix) + r.randint(0, 6))
                k = r.randrange(3)
                if k == 0:
                    t[i] = gen.element(r)
                elif k == 1:
                    del t[i]
                else:
                    t.insert(i, gen.element(r))
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        for p, q in pairs(run, x):
            st.cov["climbs"] += bool(q.cr_to)
            if q.cr_to:
                st.sets["unit combinations"].add(q.speed[0] + q.alt[0] + (q.cr_to if q.cr_to == "PLUS" else q.cr_to[0]))
            if (p.cr_to, p.cr_si) != (q.cr_to, q.cr_si):
                out.append("field %r: record %s has climb target %r, expected %r" % (run.text, p.show(), (p.cr_to, p.cr_si), (q.cr_to, q.cr_si)))
            elif q.cr_to and ((p.speed, p.alt, p.alt_si) != (q.speed, q.alt, q.alt_si) or not si_close(p.speed_si, q.speed_si)):
                out.append("field %r: climb point %s has %r, expected %r" % (run.text, p.show(), (p.speed, p.speed_si, p.alt, p.alt_si), (q.speed, q.speed_si, q.alt, q.alt_si)))
        a, b = real_by_start(run), model_by_start(x)
        for i, t in enumerate(x.toks):
            if t[3] == "C" and x.role[i] == "punct" and t[1] in a:
                out.append("field %r: climb marker at %d extracted as %s" % (run.text, t[1], a[t[1]].show()))
            if i and t[3] in ("POINT", "C") and x.role[i] == "record" and x.toks[i - 1][3] == "SLASH" and t[1] not in a:
                out.append("field %r: climb point %r is not extracted" % (run.text, t[0]))
        # what is reported in and around climbs
        if any(t[3] == "C" for t in x.toks) or any(t[3] in ("SPEED_ALTITUDE_ALTITUDE", "SPEED_ALTITUDE_PLUS") for t in x.toks):
            climb = {9, 18, 26, 27, 28, 29, 52}
            want = {(e.start, e.err) for e in x.errs if e.msg in climb}
            st.cov["climb errors"] += len(want)
            miss = [m for m in want if m not in err_list(run)]
            if miss:
                out.append("field %r: expected climb error %s, reported %s" % (run.text, miss[0], err_list(run)))
            names = {s: t for t, s, e, b, u in x.toks}
            for s, e in err_list(run):
                if s in names and any(e == model.MSG[n].replace("!", names[s]) for n in climb) and (s, e) not in want:
                    out.append("field %r: unexpected climb error %s" % (run.text, (s, e)))
        return out


class C13(FieldCheck):
    id = "C13"
    rule = ("routes with nested, repeated, unfinished and wrongly closed break sections holding arbitrary elements, in every "
            "context; all section texts of up to 4 (quick) or 5 of 12 elements for each opener; all continuations of 41 contexts by 2 (quick) or 3 elements; "
            "non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 40000, "thorough": 400000}
    n_random = {"quick": 12000, "thorough": 100000}
    need = {"break sections": 10000, "break words": 20000, "sections closed": 2000}
    OPEN = ("VFR", "OAT", "IFPSTOP")
    END = ("IFR", "GAT", "IFPSTART")

    def cases(self, tier, seed, w, nw):
        for i, (o, e) in enumerate(zip(self.OPEN, self.END)):
            for n in range(5 if tier == "quick" else 6):
                for f in itertools.product((o, e, self.OPEN[i - 1], self.END[i - 1], "ABC", "DEF", "10N010E", "/", "N0420F330", "C", "??", "B9"), repeat=n):
                    yield "N0450F350 ABC %s %s" % (o, " ".join(f))

    def focus(self, r):
        if r.random() < .4:
            t = gen.valid_tokens(r, 20, {"break": 4, "sv": 2})
            if r.random() < .5:
                t = gen.mutate(r, t)
            return gen.join(r, t)
        t = [gen.sa(r)] if r.random() < .8 else [gen.sv(r)]
        if len(t[0]) and r.random() < .7:
            t.append(gen.named(r))
        for _ in range(r.randint(1, 4)):
            k = r.random()
            t.append(r.choice(self.OPEN) if k < .8 else gen.sv(r) if k < .9 else "/")
            if t[-1] == "/":
                t.append(gen.sv(r))
            some = [r.choice(("/", "C", r.choice(self.OPEN + self.END), gen.named(r), gen.coord(r), gen.element(r))) for _ in range(3)]
            again = r.random() < .4
            for _ in range(r.choice((0, 0, 1, 2, 4, 7) if again else (0, 0, 1, 2, 4))):
                t.append(r.choice(some) if again else r.choice(self.OPEN + self.END + (
                    "/", "DCT", "T", "C", gen.named(r), gen.toolong(r), gen.element(r), gen.element(r))))
            k = r.random()
            if k < .75:
                t.append(r.choice(self.END))
                if r.random() < .8:
                    t.append(gen.coord(r, .1) if r.random() < .3 else gen.named(r))
                    if r.random() < .6:
                        t.append("/")
                        if r.random() < .9:
                            t.append(gen.sa(r) if r.random() < .5 else gen.sv(r) if r.random() < .7 else gen.element(r))
                if r.random() < .4:
                    t.append(gen.element(r))
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        a, b = real_by_start(run), model_by_start(x)
        for q in x.recs[1:-1]:
            if q.base in ("BREAK_START", "SPEED_VFR"):
                st.cov["break sections"] += 1
                st.cov["break words"] += len(q.brk.split())
                p = a.get(q.start)
                if p is None:
                    out.append("field %r: break section at %d is not extracted" % (run.text, q.start))
                elif p.brk != q.brk:
                    out.append("field %r: section %s has break text %r, expected %r" % (run.text, p.show(), p.brk, q.brk))
        for p in run.recs:
            if p.brk and p.base not in ("BREAK_START", "SPEED_VFR"):
                out.append("field %r: record %s has break text %r" % (run.text, p.show(), p.brk))
        for i, t in enumerate(x.toks):
            if x.role[i] == "break-text":
                if t[1] in a:
                    out.append("field %r: %r inside a break section is extracted as %s" % (run.text, t[0], a[t[1]].show()))
                if i + 1 < len(x.toks) and x.role[i + 1] == "record":
                    st.cov["sections closed"] += 1
                    if x.toks[i + 1][1] not in a:
                        out.append("field %r: point %r ending a break section is not extracted" % (run.text, x.toks[i + 1][0]))
        brk = {6, 7, 8, 22}
        names = {s: t for t, s, e, b_, u in x.toks}
        inside = {t[1] for i, t in enumerate(x.toks) if x.role[i] == "break-text"}
        want = {(e.start, e.err) for e in x.errs if e.msg in brk}
        st.cov["break errors"] += len(want)
        got = err_list(run)
        for m in want:
            if m not in got:
                out.append("field %r: expected error %s, reported %s" % (run.text, m, got))
        for s, e in got:
            if s in names and (s, e) not in want and any(e == model.MSG[n].replace("!", names[s]) for n in brk):
                out.append("field %r: unexpected error %s" % (run.text, (s, e)))
            if s in inside and e != model.MSG[4].replace("!", names[s]):
                out.append("field %r: %r inside a break section is interpreted: %s" % (run.text, names[s], e))
        return out


class C14(FieldCheck):
    id = "C14"
    rule = ("routes mixing VFR, OAT, IFPS and IFR sections, starting with speed/level, speed/VFR or neither; all "
            "continuations of 41 contexts by 2 (quick) or 3 elements; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    need = {"derived I": 500, "derived V": 200, "derived Y": 500, "derived Z": 200, "rules OAT": 200, "rules IFPS": 200}

    def focus(self, r):
        if r.random() < .25:
            # a single record under other rules than the rest
            t = [gen.sv(r)] if r.random() < .7 else [gen.sa(r), gen.named(r), "VFR"]
            for _ in range(r.choice((1, 1, 2))):
                t += ["IFR", r.choice((gen.named, gen.coord))(r), "/", r.choice((gen.sa, gen.sa, gen.sv))(r)]
                if r.random() < .6:
                    t += [gen.staykw(r), "/", gen.staytime(r)]
                t += r.choice(([], ["VFR"], ["VFR"], ["/", gen.sv(r)], ["OAT"], ["IFPSTOP"], ["DCT"], [gen.named(r)]))
            return gen.join(r, t)
        t = gen.valid_tokens(r, 20, {"break": 3, "sv": 2})
        if r.random() < .3:
            t[0] = gen.sv(r)
        if r.random() < .4:
            t = gen.mutate(r, t)
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        if not x.toks or x.toks[0][3] not in ("SPEED_ALTITUDE", "SPEED_VFR"):
            return out
        rules = [r.rules for r in run.recs]
        prev = None
        for p in run.recs[1:-1]:
            st.cov["rules " + p.rules] += 1
            if p.base in ("POINT", "ROUTE"):
                want = {"IFR"}
            elif p.base == "SPEED_VFR":
                want = {"VFR"}
            elif p.base == "BREAK_START":
                want = {model.BREAK_RULES.get(p.sub)}
            else:
                want = None
            q = model_by_start(x).get(p.start)
            if want and p.rules not in want:
                # a climb point inherits what the record before it has
                out.append("field %r: record %s has rules %r, expected %s" % (run.text, p.show(), p.rules, sorted(want)))
            elif q is not None and p.rules != q.rules:
                out.append("field %r: record %s has rules %r, expected %r" % (run.text, p.show(), p.rules, q.rules))
        dep = "VFR" if x.toks[0][3] == "SPEED_VFR" else "IFR"
        if rules[0] != dep:
            out.append("field %r: departure has rules %r, expected %r" % (run.text, rules[0], dep))
        if dep == "VFR":
            d = "Z" if "IFR" in rules else "V"
        else:
            d = "Y" if "VFR" in rules else "I"
        st.cov["derived " + d] += 1
        if run.derived != d:
            out.append("field %r: derived rules %r, expected %s for record rules %s" % (run.text, run.derived, d, rules))
        elif x.derived != run.derived:
            out.append("field %r: derived rules %r, expected %r" % (run.text, run.derived, x.derived))
        return out


POSITIONS = ["N0450F350 %s", "N0450F350 ABC DCT %s", "N0450F350 ABC C/%s/N0460F350F370", "N0450F350 ABC OAT X GAT %s",
             "N0450F350 ABC IFPSTOP IFPSTART %s", "N0450F350 ABC VFR IFR %s/N0450F350", "N0450F350 ABC VFR X IFR %s/N0450VFR",
             "N0450F350 ABC VFR IFR %s", "N0450F350 ?? %s", "N0450F350 ABC ?? IFR %s/N0450F350", "N0450F350 ABC SID STAR /%s",
             "N0450F350 ABC B9 %s", "N0450F350 SID %s", "N0450F350 ABC STAY1/0100 %s", "N0450F350 DCT %s", "N0450F350 12N034E %s",
             "N0450F350 ABC/N0300VFR IFR %s/N0450F350", "N0450F350 ABC C %s", "N0450VFR IFR %s/N0100F100", "N0450F350 ABC %s C/DEF/N0460F350PLUS",
             "?? %s", "N0450F350 B9 %s", "N0450F350 ABC C/DEF/N0450F350F370 %s", "N0450F350 ABC B9 C/%s/N0460F350F370"]


def all_lats(mins, full):
    for h in "NS":
        if not mins:
            for d in range(100):
                yield "%02d%s" % (d, h)
        else:
            for v in range(10000):
                yield "%04d%s" % (v, h)


def all_lons(mins, full):
    for h in "EW":
        if not mins:
            for d in range(1000):
                yield "%03d%s" % (d, h)
        else:
            for v in (range(100000) if full else itertools.chain(range(0, 19000), range(19000, 100000, 61), range(19059, 100000, 1000))):
                yield "%05d%s" % (v, h)


class C16(FieldCheck):
    id = "C16"
    rule = ("every 2- and 4-digit latitude text, every 3-digit and nearly every 5-digit longitude text (thorough: every "
            "one), every 3-digit bearing, each batched 12 to a field, and in each of 24 syntactic positions a random sample; random "
            "routes; non-trivial: distinct sequence of element types and number of errors")
    n_focus = {"quick": 24000, "thorough": 300000}
    n_random = {"quick": 12000, "thorough": 100000}
    depth = {"quick": 1, "thorough": 2}
    wall = {"quick": 150, "thorough": 800}
    need = {"positions decoded": 60000, "range errors": 5000, "named points": 2000}

    def singles(self, tier, r):
        full = tier == "thorough"
        for m in (False, True):
            lats, lons = list(all_lats(m, full)), list(all_lons(m, full))
            r.shuffle(lats)
            r.shuffle(lons)
            good_lat = [gen.lat(r, m) for _ in range(200)]
            good_lon = [gen.lon(r, m) for _ in range(200)]
            for la in lats:
                lo = r.choice(good_lon) if r.random() < .7 else r.choice(lons)
                yield la + lo + (gen.bearing(r) + gen.dist(r) if r.random() < .3 else "")
            for lo in lons:
                la = r.choice(good_lat) if r.random() < .7 else r.choice(lats)
                yield la + lo + (gen.bearing(r) + gen.dist(r) if r.random() < .3 else "")
        for b in range(1000):
            yield gen.ll(r) + "%03d" % b + gen.dist(r)
            yield gen.letters(r, r.randint(1, 5)) + "%03d" % b + gen.dist(r)

    def cases(self, tier, seed, w, nw):
        r = self.rng(seed, 0, "singles")
        batch = []
        for t in self.singles(tier, r):
            batch.append(t)
            if len(batch) == 12:
                yield "N0450F350 " + J(batch)
                batch = []
        yield "N0450F350 " + J(batch)

    def focus(self, r):
        if r.random() < .6:
            t = r.choice((gen.ll, gen.llbd, gen.bd))(r, .3)
            return r.choice(POSITIONS) % t
        t = gen.valid_tokens(r, 14, {"coord": 8, "climb": 2, "break": 2})
        t = [r.choice((gen.ll, gen.llbd, gen.bd))(r, .3) if lex.classify(u)[1] in model.COORD_SUBS and r.random() < .3 else u for u in t]
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        a = real_by_start(run)
        kind = {s: (b, u) for _, s, e, b, u in x.toks}
        for p in run.recs:
            # judged from the element itself, wherever and however it was extracted
            b, u = kind.get(p.start, (None, None)) if p not in (run.recs[0], run.recs[-1]) else (None, None)
            if b == "POINT" and (u.startswith("LL_") or u.startswith("LLBD_")):
                st.cov["positions decoded"] += 1
                st.sets["positions"].add(p.name)
                if not p.valid:
                    out.append("field %r: point %s has no position" % (run.text, p.show()))
                elif u.startswith("LL_"):
                    cut = 3 if u == "LL_DEG" else 5
                    la, lo = model.angle(p.name[:cut]), model.angle(p.name[cut:])
                    if not (abs(p.lat - la) <= 1e-9 and abs(p.lon - lo) <= 1e-9):
                        out.append("field %r: point %s decoded as %r, expected %r" % (run.text, p.name, (p.lat, p.lon), (la, lo)))
            else:
                st.cov["named points"] += b == "POINT"
                if p.valid or p.lat or p.lon:
                    out.append("field %r: record %s carries a position %r" % (run.text, p.show(), (p.lat, p.lon)))
        rng = {42, 43, 44, 45, 46}
        names = {s: t for t, s, e, b, u in x.toks}
        want = collections.Counter((e.start, e.err) for e in x.errs if e.msg in rng)
        st.cov["range errors"] += sum(want.values())
        got = collections.Counter((s, e) for s, e in err_list(run) if s in names and any(e == model.MSG[n].replace("!", names[s]) for n in rng))
        if got != want:
            out.append("field %r: range errors %s, expected %s" % (run.text, sorted(got), sorted(want)))
        return out


class C17(FieldCheck):
    id = "C17"
    rule = ("coordinate/bearing/distance points: every whole bearing and distance, poles, equator, date line and random "
            "coordinates in both forms, in 24 syntactic positions; position against Vincenty's direct solution (chord < 1 m); "
            "non-trivial: distinct sequence of element types and number of errors")
    n_focus = {"quick": 60000, "thorough": 500000}
    n_random = {"quick": 8000, "thorough": 50000}
    need = {"projections": 20000}

    def cases(self, tier, seed, w, nw):
        r = self.rng(seed, 0, "sys")
        batch = []
        src = []
        reps = 3 if tier == "quick" else 20
        for _ in range(reps):
            src += ["%03d" % b + gen.dist(r) for b in range(361)]
            src += [gen.bearing(r) + "%03d" % d for d in range(1000)]
        corners = ["00N000E", "90N000E", "90S180W", "00S180E", "00N180W", "45N179E", "45S179W", "89N090E", "0000N00000E", "9000N18000E",
                   "9000S00000W", "0001S17959W", "8959N00001E", "4530N17959E"]
        for s in src:
            c = r.choice(corners) if r.random() < .25 else gen.ll(r)
            batch.append(c + s)
            if len(batch) == 10:
                yield "N0450F350 " + J(batch)
                batch = []
        for c in corners:
            for bd in ("000000", "000999", "360999", "090060", "180500", "270001", "045000", "359999"):
                yield "N0450F350 " + c + bd

    def focus(self, r):
        k = r.random()
        if k < .7:
            return r.choice(POSITIONS) % gen.llbd(r)
        if k < .85:
            return "N0450F350 " + J(gen.llbd(r) for _ in range(6))
        return gen.join(r, gen.valid_tokens(r, 14, {"coord": 8}))

    def judge(self, run, x, st):
        out = []
        kind = {s: (b, u) for _, s, e, b, u in x.toks}
        for p in run.recs[1:-1]:
            b, u = kind.get(p.start, (None, None))
            if b != "POINT" or not u.startswith("LLBD"):
                continue
            t = p.name
            core = t[:-6]
            cut = 3 if u == "LLBD_DEG" else 5
            if not (model.angle_ok(core[:cut]) and model.angle_ok(core[cut:]) and int(t[-6:-3]) <= 360):
                st.cov["out of range, skipped"] += 1
                continue
            st.cov["projections"] += 1
            st.sets["points"].add(t)
            la, lo = model.angle(core[:cut]), model.angle(core[cut:])
            want = geo.direct(la, lo, float(t[-6:-3]), float(t[-3:]) * 1852.0)
            if not p.valid:
                out.append("field %r: %s has no position" % (run.text, t))
                continue
            try:
                c = geo.chord((p.lat, p.lon), want)
            except (TypeError, ValueError):
                c = float("inf")
            if not c < 1.0:
                out.append("field %r: %s projected to %r, expected %r (%.1f m off)" % (run.text, t, (p.lat, p.lon), want, c))
            elif not (-90 <= p.lat <= 90 and -180 <= p.lon <= 180):
                out.append("field %r: %s projected to %r outside the coordinate range" % (run.text, t, (p.lat, p.lon)))
        return out


class C18(FieldCheck):
    id = "C18"
    rule = ("routes mixing coordinate points, named points, connectors, climbs, C points, stays, breaks and errors; each leg "
            "re-walked with Vincenty's direct solution from the reported azimuth and distance; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 40000, "thorough": 400000}
    n_random = {"quick": 16000, "thorough": 200000}
    need = {"legs direct": 5000, "legs across a connector": 1000, "records without leg": 20000}

    def focus(self, r):
        k = r.random()
        if k < .35:
            t = [gen.sa(r, 0)]
            for _ in range(r.randint(2, 8)):
                t.append(gen.ll(r) if r.random() < .6 else gen.llbd(r))
                k2 = r.random()
                if k2 < .25:
                    t.append("DCT")
                elif k2 < .35:
                    t += ["DCT", gen.named(r)]
                elif k2 < .45:
                    t.append(r.choice((gen.named(r), gen.bd(r), "C")))
                elif k2 < .55:
                    t += ["OAT", gen.prp(r), "GAT"] if r.random() < .5 else ["IFPSTOP", "IFPSTART"]
                elif k2 < .62:
                    t += ["/", gen.sa(r, 0)]
                elif k2 < .7:
                    t += ["C", "/", gen.ll(r), "/", gen.saa(r, 0)]
                elif k2 < .76:
                    t += ["VFR", "IFR", gen.ll(r), "/", gen.sa(r, 0)]
                elif k2 < .8:
                    t += ["STAY1", "/", gen.staytime(r)]
                elif k2 < .84:
                    t.append(gen.route(r))
                elif k2 < .88:
                    t.append(gen.unknown(r))
            return gen.join(r, t)
        t = gen.valid_tokens(r, 16, {"coord": 9, "dct": 5, "break": 1.5, "climb": 1.5})
        if k > .75:
            t = gen.mutate(r, t)
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        R = run.recs
        kind = {s: (b, u) for _, s, e, b, u in x.toks}

        def known(i):
            if not 0 < i < len(R) - 1:
                return False
            b, u = kind.get(R[i].start, (None, None))
            return b == "POINT" and u.startswith("LL")

        def pointlike(i):
            return R[i].base in ("POINT", "C")

        def in_range(i):
            t = R[i].name
            u = kind[R[i].start][1]
            cut = 3 if u.endswith("DEG") else 5
            core = t[:-6] if u.startswith("LLBD") else t
            return model.angle_ok(core[:cut]) and model.angle_ok(core[cut:]) and (not u.startswith("LLBD") or int(t[-6:-3]) <= 360)
        for i, p in enumerate(R):
            j = None
            if known(i):
                if i + 1 < len(R) and known(i + 1):
                    j = i + 1
                elif i + 2 < len(R) and known(i + 2) and not pointlike(i + 1):
                    j = i + 2
            if j is None:
                st.cov["records without leg"] += 1
                if p.bearing != 0 or p.dist != 0:
                    out.append("field %r: record %s has azimuth %r and distance %r but no neighbouring position" % (run.text, p.show(), p.bearing, p.dist))
                continue
            if not (in_range(i) and in_range(j)):
                st.cov["legs next to an out of range coordinate, skipped"] += 1
                continue
            st.cov["legs direct" if j == i + 1 else "legs across a connector"] += 1
            q = R[j]
            try:
                bad = geo.leg_ok((p.lat, p.lon), (q.lat, q.lon), p.bearing, p.dist)
            except Exception as e:
                bad = "%r %r: %s" % (p.bearing, p.dist, e)
            if bad:
                out.append("field %r: leg %s - %s: %s" % (run.text, p.name, q.name, bad))
        return out


class C19(FieldCheck):
    id = "C19"
    rule = ("every four-digit text as stay time, every STAY digit, every element kind after STAY, '/', time and the whole "
            "stay, stays after every kind of point; random routes; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 24000, "thorough": 200000}
    n_random = {"quick": 12000, "thorough": 100000}
    need = {"stays recorded": 6000, "fields with stay errors": 1000}

    def cases(self, tier, seed, w, nw):
        r = self.rng(seed, 0, "sys")
        for v in range(10000):
            yield "N0450F350 %s STAY%d/%04d %s" % (r.choice(("ABC", "12N034E", "XYZ180060", "EGLL", "1200N03400E090100", "C", "ABC DEF/N0400F300")),
                                                   v % 10, v, r.choice(("", "DEF", "DCT DEF", "B9 DEF", "STAY1/0100", "STAR")))
        for d in "0123456789AX":
            for p in ("ABC", "12N034E", "B9", "DCT", "SID", "ABC/N0400F300", "ABC VFR IFR DEF/N0100F100", "ABC C/DEF/N0400F300F350", "ABC STAY1/0200"):
                for tail in ("", "/", "/0130", "/0130 DEF", "0130", "/ /0130", "/DEF", "/2400", "/0160", "/130", "/01300", "/0130/N0450F350",
                             "/0130 B9 DEF", "/0130 12N034E", "/0130 STAY2/0200", "/0130 C/DEF/N0400F300F350", "/0130 VFR", "/0130 T", "/0130 SID",
                             "/0130 STAR", "/0130 ABC1A", "/0130 0130", "/0130 IFR", "/0130 ?", "/0130 N0450F350"):
                    yield "N0450F350 %s STAY%s%s" % (p, d, tail)

    def focus(self, r):
        t = gen.valid_tokens(r, 14, {"stay": 6, "coord": 4})
        if r.random() < .6:
            ix = [i for i, u in enumerate(t) if lex.classify(u)[0] in ("STAY", "STAY_TIME")]
            if ix:
                i = min(len(t), r.choice(ix) + r.randint(0, 3))
                k = r.randrange(3)
                if k == 0 or i == len(t):
                    t.insert(i, gen.element(r))
                elif k == 1:
                    del t[i]
                else:
                    t[i] = gen.element(r)
        if r.random() < .25:
            # a second stay after something else, most of the time a stay of an unusual length
            ix = [i for i, u in enumerate(t) if lex.classify(u)[0] == "STAY_TIME"]
            if ix:
                i = r.choice(ix) + 1
                t[i:i] = [gen.element(r) for _ in range(r.choice((0, 1, 1, 2)))] + [gen.staykw(r), "/", r.choice(("0000", "0001", "2359", "0100", gen.staytime(r)))]
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        for p, q in pairs(run, x):
            st.cov["stays recorded"] += bool(q.stay)
            if q.stay:
                st.sets["stay times"].add(q.stay)
            if p.stay != q.stay:
                out.append("field %r: record %s has stay %r, expected %r minutes" % (run.text, p.show(), p.stay, q.stay))
        sts = [i for i, t in enumerate(x.toks) if t[3] in ("STAY", "STAY_TIME") and x.role[i] != "break-text"]
        if sts:
            s0 = x.toks[sts[0]][1]
            a = [e for e in err_list(run) if e[0] >= s0]
            b = [e for e in xerr_list(x) if e[0] >= s0]
            st.cov["fields with stay errors"] += any(e.msg in (10, 35, 36, 37, 38, 39) for e in x.errs)
            # nearest difference only counts when it is the first thing after a stay element
            if a != b:
                for u, v in itertools.zip_longest(a, b):
                    if u != v:
                        out.append("field %r: after STAY reported %s, expected %s" % (run.text, u, v))
                        break
            ra = [(r.start, r.name) for r in run.recs[1:-1] if r.start > s0]
            rb = [(r.start, r.name) for r in x.recs[1:-1] if r.start > s0]
            if ra != rb and not out:
                out.append("field %r: records after STAY %s, expected %s" % (run.text, ra[:6], rb[:6]))
        return out


class C20(FieldCheck):
    id = "C20"
    rule = ("every SID/STAR designator shape and the literal words first, last, in the middle and repeated, after every kind "
            "of element; all continuations of 41 contexts by 2 (quick) or 3 elements; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    need = {"SID records": 2000, "STAR records": 2000, "SID/STAR errors": 2000}

    def cases(self, tier, seed, w, nw):
        r = self.rng(seed, 0, "sys")
        des = ["SID", "STAR"] + [gen.from_shape(r, s) for s in gen.SIDSTAR_SHAPES for _ in range(3)]
        des = [d for d in des if lex.classify(d)[0] in ("SID", "STAR", "SID_STAR")]
        for d in des:
            for f in ("N0450F350 %s", "N0450F350 %s ABC", "N0450F350 %s B9 ABC", "N0450F350 ABC %s", "N0450F350 ABC B9 DEF %s", "N0450F350 ABC DCT %s",
                      "N0450F350 ABC B9 %s", "N0450F350 ABC %s DEF", "N0450F350 ABC %s T", "N0450F350 %s T", "N0450VFR IFR ABC/N0450F350 %s",
                      "N0450F350 ABC/N0400F300 %s", "N0450F350 ABC STAY1/0100 %s", "N0450F350 12N034E %s", "N0450F350 C %s", "N0450F350 DCT %s",
                      "%s", "%s ABC", "N0450F350 ?? %s", "N0450F350 ?? %s ABC", "N0450F350 ABC ?? %s", "N0450F350 ABC ?? %s DEF",
                      "N0450F350 ABC OAT %s GAT DEF", "N0450F350 ABC OAT GAT DEF %s", "N0450F350 ABC C/DEF/N0400F300F350 %s", "N0450F350 %s DCT ABC",
                      "N0450F350 ABC /%s", "N0450F350 %s VFR", "?? %s", "N0450F350/%s"):
                yield f % d
            for d2 in des[:2] + des[::5]:
                yield "N0450F350 %s %s" % (d, d2)
                yield "N0450F350 %s ABC %s" % (d, d2)
                yield "N0450F350 %s ABC B9 DEF %s %s" % (d2, d, d2)
                yield "N0450F350 ABC %s %s" % (d, d2)

    def focus(self, r):
        t = gen.valid_tokens(r, 12)
        for _ in range(r.choice((0, 1, 1, 1, 2))):
            i = r.choice((1, 1, len(t), len(t), r.randint(1, len(t))))
            t.insert(i, r.choice(("SID", "STAR", gen.sidstar(r), gen.sidstar(r))))
        return gen.join(r, t)

    def judge(self, run, x, st):
        out = []
        T = ("SID", "STAR", "SID_STAR")
        a = {r.start: (r.base, r.sub, i) for i, r in enumerate(run.recs) if 0 < i < len(run.recs) - 1}
        b = {r.start: (r.base, r.sub, i) for i, r in enumerate(x.recs) if 0 < i < len(x.recs) - 1}
        at = {t[1]: t for t in x.toks}
        for s in set(a) | set(b):
            p, q = a.get(s), b.get(s)
            if at.get(s, ("",) * 4)[3] not in T and (p is None or p[0] not in T):
                continue
            st.cov["SID records"] += bool(q) and q[0] == "SID"
            st.cov["STAR records"] += bool(q) and q[0] == "STAR"
            if q and q[0] in ("SID", "STAR"):
                st.sets["designators"].add(at[s][0])
            if (p and p[:2]) != (q and q[:2]):
                out.append("field %r: %r at %d recorded as %s, expected %s" % (run.text, at[s][0] if s in at else "?", s, p, q))
        for i, r in enumerate(run.recs):
            if not run.errs and r.base == "SID" and i != 1:
                out.append("field %r: SID is record number %d of an error-free field" % (run.text, i))
        num = {30, 31, 32, 34, 54}
        names = {s: t for t, s, e, _, _ in x.toks}
        want = collections.Counter((e.start, e.err) for e in x.errs if e.msg in num)
        st.cov["SID/STAR errors"] += sum(want.values())
        got = collections.Counter((s, e) for s, e in err_list(run) if s in names and any(e == model.MSG[n].replace("!", names[s]) for n in num))
        if got != want:
            out.append("field %r: SID/STAR errors %s, expected %s" % (run.text, sorted(got), sorted(want)))
        return out


class C29(FieldCheck):
    id = "C29"
    rule = ("error-free results among: all continuations of 41 contexts by 2 (quick) or 3 elements, random valid fields and "
            "fields one or two edits away from valid; non-trivial: distinct sequence of element types")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 48000, "thorough": 400000}
    need = {"error-free fields": 5000}

    def nontrivial(self, run, x):
        return not run.errs

    def focus(self, r):
        t = gen.valid_tokens(r, 20)
        k = r.random()
        if k < .35:
            # a misplaced connector or mark
            t.insert(r.randint(1, len(t)), r.choice((gen.route(r), gen.route(r), "DCT", "T", "SID", "STAR", "VFR", "OAT", "IFPSTOP", gen.sidstar(r), "C", gen.ll(r), gen.bd(r), gen.llbd(r))))
        elif k < .5 and len(t) > 3:
            del t[r.randrange(1, len(t))]
        return gen.join(r, t)

    def judge(self, run, x, st):
        if run.errs:
            return []
        R = run.recs
        out = []

        def bad(i, why):
            out.append("error-free field %r: %s at record %d: %s" % (run.text, R[i].show(), i, why))

        def pt(i):
            return R[i].base in ("POINT", "C") and 0 < i < len(R) - 1

        def named(i):
            return pt(i) and R[i].sub not in model.COORD_SUBS
        n = len(R) - 1
        CONN = ("ROUTE", "DCT", "SID", "STAR", "SID_STAR", "BREAK_START", "SPEED_VFR")
        for i in range(1, n):
            b = R[i].base
            st.cov["records of error-free fields: " + b] += 1
            if b == "ROUTE":
                if not (named(i - 1) or R[i - 1].base == "SID"):
                    bad(i, "an ATS route must follow the SID or a named point, not %s" % R[i - 1].show())
                if not (i + 1 == n or named(i + 1)):
                    bad(i, "an ATS route must be followed by a named point or the end, not %s" % R[i + 1].show())
            elif b == "DCT":
                if not (i + 1 == n or pt(i + 1)):
                    bad(i, "a DCT must be followed by a point or the end, not %s" % R[i + 1].show())
            elif b == "STAR":
                if i + 1 != n:
                    bad(i, "a STAR must be the last record")
            elif b == "SID":
                if i != 1:
                    bad(i, "a SID must be the first record")
            elif b in ("BREAK_START", "SPEED_VFR"):
                if not (pt(i - 1) or (b == "SPEED_VFR" and i == 1)):
                    bad(i, "a break must open at a point, not after %s" % R[i - 1].show())
            elif b not in ("POINT", "C"):
                bad(i, "unexpected record type")
            if b in CONN and R[i - 1].base in CONN and R[i - 1].base != "SID":
                bad(i, "two adjacent connectors, after %s" % R[i - 1].show())
        for i, t in enumerate(x.toks):
            if t[3] == "TRUNCATE" and x.role[i] != "break-text":
                st.cov["truncated fields"] += 1
                if i != len(x.toks) - 1:
                    out.append("error-free field %r: elements after the truncation mark" % run.text)
                if t[1] in real_by_start(run):
                    out.append("error-free field %r: truncation mark extracted" % run.text)
        return out


FIELD_CHECKS = {c.id: c for c in (C02, C05, C06, C07, C08, C09, C10, C12, C13, C14, C16, C17, C18, C19, C20, C29)}
