"""Results as data: copied, transported, read by many at once; and fields that say the same thing again."""
import copy, os, pickle, random, struct, subprocess, sys, time

import gen
import lex
import model
import obs
import runner
from checks_meta import values
from checks_output import Baton, NEVER
from runner import Check, FieldCheck, h64


# ---- C43: copies and transport -----------------------------------------------------------------------------

SERVER = r'''
import os, pickle, struct, sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence
from F15_Parser.F15Parse import ParseF15
inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
while True:
    head = inp.read(4)
    if len(head) < 4:
        break
    tokens = pickle.loads(inp.read(struct.unpack("<I", head)[0]))
    try:
        ers = ExtractedRouteSequence()
        verdict = ParseF15().parse_f15(ers, tokens)
        data = pickle.dumps((verdict, ers, tokens, ers.as_xml()))
    except Exception as e:
        data = pickle.dumps((None, "%s: %s" % (type(e).__name__, e), None, None))
    out.write(struct.pack("<I", len(data)) + data)
    out.flush()
'''


def content(ers):
    """Everything a result says."""
    run = obs.Run()
    run.ers = ers
    obs.snap(run)
    return (run.derived, [p.key() for p in run.recs], [p.key() for p in run.errs], ers.as_xml(),
            [r.to_string(False) for r in ers.get_all_elements()], [r.to_string(True) for r in ers.get_all_errors()])


def disturb(ers, r):
    """Uses a result the way a second pass does."""
    for p in ers.get_all_elements() + ers.get_all_errors():
        p.set_name("CHANGED")
        p.set_latitude(1.5)
        p.append_break_text("MORE")
        p.set_flight_rules("OAT")
    ers.add_error("X", 1, 2, obs.TokenBaseType.F15_POINT, obs.TokenSubType.F15_SB_PRP, "more !")
    ers.add_dummy_ades()
    ers.set_derived_flight_rules("Y")
    if r.random() < .3:
        obs.ParseF15().parse_f15(ers, obs.make_tokens("N0100A050 ABC ??").get_tokens())


class C43(FieldCheck):
    id = "C43"
    rule = ("random valid, mutated and arbitrary fields; each result, token list, tokenizer and parser copied (deepcopy, pickle protocols 2 to 5), the copies "
            "compared, used further and disturbed while the originals are watched, and the other way round; token lists sent to another interpreter and "
            "results sent back; non-trivial: distinct sequence of element types and number of errors")
    n_focus = {"quick": 8000, "thorough": 120000}
    n_random = {"quick": 6000, "thorough": 80000}
    n_large = {"quick": 80, "thorough": 1000}
    need = {"results copied": 10000, "copies disturbed": 10000, "token lists copied": 10000, "parsed in another interpreter": 1500}

    def focus(self, r):
        t = gen.valid_tokens(r, 16, {"break": 2, "stay": 2, "climb": 2, "coord": 4})
        return gen.join(r, gen.mutate(r, t) if r.random() < .6 else t)

    @staticmethod
    def duplicate(r, x):
        if r.random() < .4:
            return "deepcopy", copy.deepcopy(x)
        p = r.choice((2, 3, 4, 5))
        return "pickle protocol %d" % p, pickle.loads(pickle.dumps(x, p))

    server = None

    def remote(self, tokens):
        if self.server is None or self.server[0] != os.getpid():
            env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
            p = subprocess.Popen([sys.executable, "-B", "-c", SERVER, obs.REPO], stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env)
            self.server = os.getpid(), p
        p = self.server[1]
        data = pickle.dumps(tokens)
        p.stdin.write(struct.pack("<I", len(data)) + data)
        p.stdin.flush()
        head = p.stdout.read(4)
        if len(head) < 4:
            self.server = None
            return None, "the process died", None, None
        return pickle.loads(p.stdout.read(struct.unpack("<I", head)[0]))

    def judge(self, run, x, st):
        r = random.Random(h64(run.text))
        try:
            want = content(run.ers)
        except Exception as e:
            return ["field %r: reading the result raised %s: %s" % (run.text, type(e).__name__, e)]
        try:
            return self.judged(run, r, want, st)
        except (obs.Inconclusive, MemoryError):
            raise
        except Exception as e:
            return ["field %r: copying its result, tokens or parser, or using the copy, raised %s: %s" % (run.text, type(e).__name__, e)]

    def judged(self, run, r, want, st):
        how, dup = self.duplicate(r, run.ers)
        st.cov["results copied"] += 1
        got = content(dup)
        if got != want:
            i = next(i for i in range(len(want)) if got[i] != want[i])
            return ["field %r: %s of the result says %.300r instead of %.300r" % (run.text, how, got[i], want[i])]
        how2, keep = self.duplicate(r, dup)
        st.cov["copies disturbed"] += 1
        disturb(dup, r)
        if content(run.ers) != want:
            return ["field %r: changing a copy (%s) of the result changed the original" % (run.text, how)]
        if content(keep) != want:
            return ["field %r: changing a copy (%s) changed a copy (%s) of that copy" % (run.text, how, how2)]
        # a copied token list, parser and tokenizer are as good as the originals
        how, tokens = self.duplicate(r, run.tokens)
        st.cov["token lists copied"] += 1
        if obs.snap_tokens(tokens) != run.toks:
            return ["field %r: %s of the token list holds %s" % (run.text, how, obs.snap_tokens(tokens))]
        held = tokens.get_tokens()
        p1 = obs.ParseF15()
        if r.random() < .5:
            p1.parse_f15(obs.ExtractedRouteSequence(), obs.make_tokens("N0100VFR ABC ?? IFR DEF/N0100F050").get_tokens())
        try:
            how1, parser = self.duplicate(r, p1)
        except Exception:
            # only results and token lists are data; a parser or tokenizer need not be one
            how1, parser = "none", p1
            st.cov["parsers that cannot be copied"] += 1
        ers = obs.ExtractedRouteSequence()
        if r.random() < .5:
            _, ers = self.duplicate(r, ers)
        with obs.room_for(run.text):
            verdict = parser.parse_f15(ers, tokens)
        got = content(ers)
        if verdict != run.verdict or got != want:
            return ["field %r: parsed from a copied token list (%s) with a copied parser (%s): %.300r instead of %.300r" % (
                run.text, how, how1, (verdict,) + next(((a,) for a, b in zip(got, want) if a != b), ()), (run.verdict,) + next(((b,) for a, b in zip(got, want) if a != b), ()))]
        for t in held:
            t.set_token_string("CHANGED")
            t.set_token_start_index(-7)
        if obs.snap_tokens(run.tokens) != run.toks:
            return ["field %r: changing the tokens of a copied list changed the original" % run.text]
        t = obs.Tokenize()
        t.set_string_to_tokenize(run.text)
        t.set_whitespace(obs.STD_WS)
        t.tokenize()
        try:
            how, t2 = self.duplicate(r, t)
        except Exception:
            st.cov["tokenizers that cannot be copied"] += 1
            return self.elsewhere(run, want, st)
        if obs.snap_tokens(t2.get_tokens()) != obs.snap_tokens(t.get_tokens()) or t2.get_string_to_tokenize() != run.text or t2.get_whitespace() != obs.STD_WS:
            return ["field %r: %s of its tokenizer holds other tokens or texts" % (run.text, how)]
        t2.set_string_to_tokenize("N0100 ABC")
        t2.tokenize()
        if [q[0] for q in obs.snap_tokens(t2.get_tokens())] != ["N0100", "ABC"] or [q[:3] for q in obs.snap_tokens(t.get_tokens())] != [q[:3] for q in run.toks]:
            return ["field %r: using a copied tokenizer (%s) again went wrong or changed the original" % (run.text, how)]
        return self.elsewhere(run, want, st)

    def elsewhere(self, run, want, st):
        if len(run.toks) < 100 and st.evals % 5 == 0:
            v, other, toks, xml = self.remote(obs.make_tokens(run.text).get_tokens())
            st.cov["parsed in another interpreter"] += 1
            if isinstance(other, str):
                return ["field %r: its token list parsed in another interpreter: %s" % (run.text, other)]
            got = content(other)
            if (v, xml) != (run.verdict, want[3]) or got != want or obs.snap_tokens(toks) != run.toks:
                return ["field %r: its token list parsed in another interpreter gives %.300r instead of %.300r" % (
                    run.text, next((a for a, b in zip(got, want) if a != b), (v, toks)), next((b for a, b in zip(got, want) if a != b), run.verdict))]
        return []


# ---- C44: one result read by many ------------------------------------------------------------------------------

class C44(Check):
    id = "C44"
    rule = ("2-4 threads reading the same 1-2 results and token lists at once (XML export, text lines, all getters), next to threads that parse other fields "
            "with a shared parser, under a seeded scheduler that switches at source lines or single bytecodes, and free-running; everything read compared "
            "with what was read alone; non-trivial: distinct interleavings with at least 3 switches")
    need = {"switches": 20000, "readings compared": 4000, "schedules": 400}

    @staticmethod
    def reader(ers, tokens, how):
        def go():
            out = []
            for k in how:
                if k == "xml":
                    out.append(ers.as_xml())
                elif k == "lines":
                    out.append([q.to_string(False) for q in ers.get_all_elements()] + [q.to_string(True) for q in ers.get_all_errors()])
                elif k == "values":
                    out.append(([obs.Rec(q).key() for q in ers.get_all_elements()], [obs.Rec(q).key() for q in ers.get_all_errors()],
                                ers.get_derived_flight_rules(), ers.get_number_of_elements(), ers.get_number_of_errors()))
                elif k == "places":
                    n = ers.get_number_of_elements()
                    out.append([q and q.get_name() for q in [ers.get_first_element(), ers.get_last_element(), ers.get_previous_to_last_element()] +
                                [ers.get_element_at(i) for i in range(-1, n + 1)]])
                elif k == "peek":
                    out.append([t and t.get_token_string() for t in [tokens.get_current_token()] + [tokens.peek_next_token(i) for i in (1, 2, 5)] +
                                [tokens.peek_previous_token(i) for i in (1, 2)]])
                else:
                    out.append([obs.snap_tokens(tokens), [t and t.get_token_string() for t in (tokens.get_token_at(i) for i in range(-1, tokens.get_number_of_tokens() + 1))]])
            return out
        return go

    @staticmethod
    def worker(field, parser):
        def go():
            return [repr(obs.parse_raw(field, parser).key())]
        return go

    def case(self, r):
        fields = [gen.join(r, gen.mutate(r, gen.valid_tokens(r, 10, {"break": 2, "coord": 3, "climb": 2})))[:250] if r.random() < .6 else gen.mixed(r)[1][:250] for _ in range(3)]
        what = ("xml", "xml", "lines", "values", "places", "tokens", "peek")
        readers = [(r.randrange(2), [r.choice(what) for _ in range(r.choice((1, 2, 3)))]) for _ in range(r.choice((2, 2, 3)))]
        if r.random() < .6:
            readers[1] = (readers[0][0], readers[1][1])
        case = {"fields": fields, "readers": readers, "work": r.random() < .4, "seed": r.getrandbits(40), "p": r.choice((.01, .05, .2, .5)),
                "opcodes": r.random() < .25}
        if case["opcodes"]:
            case["p"] /= 4
        return case

    def one(self, case, st):
        parser = obs.ParseF15()
        runs = []
        for f in case["fields"]:
            try:
                runs.append(obs.parse_raw(f, parser))
            except Exception:
                return None         # the matter of C01
        for q in runs:
            # somewhere in the list
            for _ in range(1 + case["seed"] % 5):
                q.tokens.get_next_token() or q.tokens.get_first_token()
        bodies = [self.reader(runs[i].ers, runs[i].tokens, how) for i, how in case["readers"]]
        if case["work"]:
            bodies.append(self.worker(case["fields"][2], parser))
        ref = [b() for b in bodies]
        b = Baton(case["seed"], case["p"], case["opcodes"])
        got = b.run(bodies)
        st.cov["switches"] += b.switches
        st.cov["schedules"] += 1
        if b.switches >= 3:
            st.seen.add(h64((b.trace_hash, case["fields"], case["readers"])))
        after = [x() for x in bodies] if not any(NEVER in str(g[1])[:200] for g in got) else ref
        for i, (g, w, z) in enumerate(zip(got, ref, after)):
            st.cov["readings compared"] += len(w)
            what = "parsing %r" % case["fields"][2] if i >= len(case["readers"]) else "reading %s of the result of %r" % (
                case["readers"][i][1], case["fields"][case["readers"][i][0]])
            if g[0] == "exc":
                return "%s while %s others use it: %s" % (what, len(bodies) - 1, g[1])
            if g[1] != w:
                u, v = next((u, v) for u, v in zip(g[1], w) if u != v)
                return "%s while others read it gives %.300r instead of %.300r" % (what, u, v)
            if z != w:
                return "%s gives another result after concurrent reading" % what
        return None

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w)
        t0 = time.time()
        for i in range({"quick": 2400, "thorough": 40000}[tier] // nw):
            if time.time() - t0 > {"quick": 120, "thorough": 700}[tier]:
                st.truncated = True
                break
            case = self.case(r)
            st.evals += 1
            bad = self.one(case, st)
            if i % 100 == 3:
                st.sample(case)
            if bad:
                st.viol.append((case, bad))
                if len(st.viol) >= 2 or NEVER in bad:
                    break

    def replay(self, case):
        b = self.one(case, runner.Stats())
        return [b] if b else []


# ---- C45: saying it again ---------------------------------------------------------------------------------------

class C45(FieldCheck):
    id = "C45"
    rule = ("random valid fields; at every point extracted in the ordinary state the speed and level in force there given again, between every two points "
            "that follow each other a DCT inserted, and every metric altitude written as a standard level and back; the results compared; "
            "non-trivial: distinct sequence of element types")
    n_focus = {"quick": 16000, "thorough": 240000}
    n_random = {"quick": 4000, "thorough": 60000}
    n_large = {"quick": 80, "thorough": 1000}
    need = {"restated": 20000, "connected": 6000, "records compared": 200000}

    def focus(self, r):
        return gen.join(r, gen.valid_tokens(r, r.choice((5, 10, 16)), {"break": 1, "stay": 1.5, "climb": 1.5, "coord": 4, "point": 4}))

    def places(self, run, x):
        """[(kind, element number)]: points without a modifier, and points directly after a point."""
        out = []
        recs = {p.start: p for p in run.recs if p.end}
        last = None
        for i, (t, s, e, b, u) in enumerate(x.toks):
            nxt = x.toks[i + 1][3] if i + 1 < len(x.toks) else None
            role = x.role[i]
            if role == "record" and b in ("POINT", "C"):
                plain = i == 0 or x.toks[i - 1][3] != "SLASH"
                p = recs[s]
                if plain and b == "POINT" and nxt != "SLASH" and p.rules == "IFR" and p.speed and p.alt:
                    out.append(("restated", i))
                if plain and b == "POINT" and last is not None and x.toks[last][3] == "POINT":
                    out.append(("connected", i))
                last = i
            elif role != "modifier" and b != "SLASH":
                last = None
        return out

    def judge(self, run, x, st):
        if run.errs or not run.verdict:
            return []
        r = random.Random(h64(run.text))
        spots = self.places(run, x)
        for kind, i in r.sample(spots, min(4, len(spots))):
            t, s, e = x.toks[i][:3]
            if kind == "restated":
                p = next(p for p in run.recs if p.end and p.start == s)
                new = r.choice(("/", " / ", "/ ")) + p.speed + p.alt
                at = e
            else:
                new = r.choice((" ", "\n")) + "DCT "
                at = s
            text = run.text[:at] + new + run.text[at:]
            other = obs.observe(text)
            if other.exc:
                return ["field %r: parsing %s" % (text, other.exc)]
            st.cov[kind] += 1
            if other.errs or not other.verdict or other.derived != run.derived:
                return ["field %r is accepted with rules %r; with %r inserted at %d: %r, errors %s" % (
                    run.text, run.derived, new, at, other.derived, [q.err for q in other.errs][:2])]
            a = [values(p, ("start", "end")) for p in run.recs]
            b = [values(p, ("start", "end")) for p in other.recs]
            if kind == "connected":
                k = next((k for k, q in enumerate(other.recs) if q.end and q.start == at + 1), None)
                if k is None or other.recs[k].name != "DCT":
                    return ["field %r: the DCT inserted at %d is not extracted" % (text, at)]
                before = values(other.recs[k - 1], ("start", "end", "name", "base", "sub", "lat", "lon", "valid", "bearing", "dist", "stay", "cr_to", "cr_si"))
                got = values(other.recs[k], ("start", "end", "name", "base", "sub", "lat", "lon", "valid", "bearing", "dist", "stay", "cr_to", "cr_si"))
                if before != got:
                    return ["field %r: the DCT inserted at %d does not carry on the data of the point before it: %s, not %s" % (text, at, got, before)]
                del b[k]
            st.cov["records compared"] += len(a)
            if a != b:
                k = next((k for k, (u, v) in enumerate(zip(a, b)) if u != v), min(len(a), len(b)))
                return ["field %r: record %s; with %r inserted at %d: %s" % (run.text, a[k:k + 1], new, at, b[k:k + 1])]
        return []


COPY_CHECKS = {c.id: c for c in (C43, C44, C45)}
