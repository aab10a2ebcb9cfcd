"""Executions that are broken off: by an interrupt, by the recursion limit, by a stream that refuses to be written."""
import contextlib, errno, io, os, pickle, select, signal, sys, time

import gen
import lex
import obs
import runner
from checks_env import settings
from runner import Check, h64

PUBLIC = set()
for _cls in (obs.Token, obs.Tokens, obs.Tokenize, obs.ExtractedRouteSequence, obs.ExtractedRouteRecord, obs.ParseF15):
    PUBLIC |= {k for k in vars(_cls) if not k.startswith("_")}
# the documented methods; whatever else is there is the code's own business, clean-up after a fault included
PUBLIC &= set("""get_token_string set_token_string get_token_start_index get_token_end_index get_token_base_type
set_token_base_type get_token_sub_type set_token_sub_type tokenize get_tokens append_token create_append_token
get_token_at get_first_token get_next_token peek_next_token get_number_of_tokens append_break_text append_element
create_append_element add_error add_dummy_ades add_dummy_adep_ades get_all_elements get_all_errors get_last_element
get_first_element get_element_at get_previous_to_last_element get_name get_altitude get_altitude_si get_speed
get_speed_si get_flight_rules set_altitude set_altitude_si set_altitude_cruise_to set_altitude_cruise_to_si set_speed
set_speed_si set_flight_rules set_stay_time set_latitude set_longitude set_lat_long_valid set_bearing set_distance
as_xml print_ers print_record print_token print_tokens to_string parse_f15 get_number_of_elements
get_number_of_errors""".split())


class Interrupt(BaseException):
    """What a caller's own time limit would raise."""


EXC = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "Interrupt": Interrupt,
       "RecursionError": RecursionError}
STREAM = {"BrokenPipeError": lambda: BrokenPipeError(errno.EPIPE, "Broken pipe"),
          "OSError": lambda: OSError(errno.ENOSPC, "No space left on device"),
          "ValueError": lambda: ValueError("I/O operation on closed file."),
          "UnicodeEncodeError": lambda: UnicodeEncodeError("ascii", "\xe9", 0, 1, "ordinal not in range(128)"),
          "KeyboardInterrupt": KeyboardInterrupt}


class Failing(io.TextIOBase):
    """Takes so many characters, then refuses."""

    def __init__(self, room, exc):
        self.room, self.exc, self.fired = room, exc, False
        self.text = ""

    def write(self, s):
        if self.fired or len(s) > self.room:
            self.fired = True
            raise STREAM[self.exc]()
        self.room -= len(s)
        self.text += s
        return len(s)


def in_child(fn, patience=30):
    """("ok", value) of fn() in a process of its own, ("exc", text) or ("blocked", None)."""
    rd, wr = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            with obs.cpu_guard(120):
                v = ("ok", fn())
        except BaseException as e:
            sys.setprofile(None)
            v = ("exc", "%s: %s" % (type(e).__name__, str(e)[:300]))
        try:
            with os.fdopen(wr, "wb") as f:
                pickle.dump(v, f)
        finally:
            os._exit(0)
    os.close(wr)
    data = b""
    used, since = -1, time.monotonic()
    while True:
        ready, _, _ = select.select([rd], [], [], 1)
        if ready:
            more = os.read(rd, 1 << 20)
            if not more:
                break
            data += more
            continue
        n = runner.used(pid)
        if n > used + 5:
            used, since = n, time.monotonic()
        elif time.monotonic() - since > patience:
            os.kill(pid, signal.SIGKILL)
            data = pickle.dumps(("blocked", None))
            break
    os.close(rd)
    os.waitpid(pid, 0)
    return pickle.loads(data) if data else ("exc", "the process died")


class Bench:
    """The operations, on objects that live through the faults."""

    def __init__(self):
        self.parser = obs.ParseF15()
        self.tok = obs.Tokenize()
        self.tokens = {}
        self.ers = {}

    def prepare(self, op, field):
        """What the operation works on, made without faults."""
        if op == "tokenize":
            self.tok.set_string_to_tokenize(field)
            self.tok.set_whitespace(obs.STD_WS)
            return lambda: (self.tok.tokenize(), self.list(self.tok.get_tokens()))[1]
        if op == "parse":
            tokens = obs.make_tokens(field).get_tokens()
            self.tokens[field] = tokens
            ers = obs.ExtractedRouteSequence()
            return lambda: (self.parser.parse_f15(ers, tokens), self.values(ers))
        if op == "all":
            # a whole use, everything new
            return lambda: self.whole(field)
        ers = self.ers.get(field)
        if ers is None:
            ers = self.ers[field] = obs.ExtractedRouteSequence()
            tokens = self.tokens[field] = obs.make_tokens(field).get_tokens()
            self.parser.parse_f15(ers, tokens)
        if op == "xml":
            return ers.as_xml
        if op == "print":
            return ers.print_ers
        return self.tokens[field].print_tokens

    @staticmethod
    def list(tokens):
        return [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in tokens.get_tokens()]

    @staticmethod
    def values(ers):
        return ([obs.Rec(r).key() for r in ers.get_all_elements()], [obs.Rec(r).key() for r in ers.get_all_errors()],
                ers.get_derived_flight_rules())

    def whole(self, field):
        t = obs.make_tokens(field)
        ers = obs.ExtractedRouteSequence()
        v = obs.ParseF15().parse_f15(ers, t.get_tokens())
        return self.list(t.get_tokens()), v, self.values(ers), ers.as_xml()


def constants():
    """Documented constants a fault must not leave changed."""
    from F15_Parser.ErrorMessageDefinitions import ErrorMessages
    from Utilities.Constants import Constants
    return {"%s.%s" % (c.__name__, k): repr(getattr(c, k, None)) for c, names in
            ((obs.ParseF15, ("DEFAULT_ALTITUDE", "RULES")), (ErrorMessages, ("error_messages",)),
             (obs.F15TokenSyntaxDefinition, ("F15_SB_CONFIGURATION", "MAX_TOKEN_LENGTH")),
             (Constants, [k for k in vars(Constants) if k.isupper()])) for k in names}


OPS = ("parse", "parse", "parse", "all", "tokenize", "xml", "print", "print_tokens")


def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        fn()
    return out.getvalue()


def measure(op, field):
    """Result of the operation without a fault, how many public methods it enters, how deep it goes."""
    go = Bench().prepare(op, field)
    root = os.path.abspath(obs.REPO) + os.sep
    calls = depth = deepest = 0

    def prof(frame, event, arg):
        nonlocal calls, depth, deepest
        if event == "call":
            depth += 1
            deepest = max(deepest, depth)
            if frame.f_code.co_name in PUBLIC and os.path.abspath(frame.f_code.co_filename).startswith(root):
                calls += 1
        elif event == "return":
            depth -= 1
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        sys.setprofile(prof)
        try:
            v = go()
        finally:
            sys.setprofile(None)
    return v, calls, deepest, out.getvalue()


class C42(Check):
    id = "C42"
    rule = ("1-4 operations (tokenize, parse, whole use, XML export, print) on random valid, mutated and arbitrary fields broken off by an exception on entry "
            "to the n-th public method, by the recursion limit at the n-th level, or by an output stream that fails after n characters, in a fresh process or "
            "after other parses; then the same and other objects used again and compared with what a process without faults gave; "
            "non-trivial: distinct (operation, kind of fault, method or level it struck in)")
    need = {"faults struck": 1500, "operations redone": 9000, "recursion limits struck": 300, "streams failed": 200, "interrupts struck": 600, "in fresh processes": 200}

    def case(self, r):
        def field():
            k = r.random()
            w = {"break": 2, "stay": 2, "climb": 2, "coord": 4}
            if k < .4:
                t = gen.valid_tokens(r, 14, w)
            elif k < .75:
                t = gen.mutate(r, gen.valid_tokens(r, 12, w))
            else:
                t = gen.soup(r, r.randint(1, 14))
            return gen.clean(gen.join(r, t))[:300]
        fields = [field() for _ in range(2)]
        faults = []
        for _ in range(r.choice((1, 1, 1, 2, 4))):
            op = r.choice(OPS)
            how = r.choice(("stream", "stream", "interrupt", "depth") if op.startswith("print") else ("interrupt", "interrupt", "depth"))
            faults.append({"op": op, "field": r.choice((0, 0, 1)), "how": how, "at": r.random(),
                           "exc": r.choice(sorted(STREAM if how == "stream" else EXC))})
        return {"fields": fields, "faults": faults, "warm": r.random() < .5, "seed": r.getrandbits(30)}

    def reference(self, case):
        ref = {}
        for f in case["fields"]:
            for op in ("parse", "all", "tokenize", "xml", "print", "print_tokens"):
                ref[op, f] = measure(op, f)
        return ref

    def strike(self, bench, fault, field, ref):
        """Carries out one operation under its fault. Returns (kind of ending, value, where it struck)."""
        op = fault["op"]
        want, calls, deepest, text = ref
        go = bench.prepare(op, field)
        where = [None]
        out = io.StringIO()
        if fault["how"] == "interrupt":
            left = int(fault["at"] * calls)
            root = os.path.abspath(obs.REPO) + os.sep
            exc = EXC[fault["exc"]]

            def tracer(frame, event, arg):
                nonlocal left
                if where[0] is None and event == "call" and frame.f_code.co_name in PUBLIC and \
                        os.path.abspath(frame.f_code.co_filename).startswith(root):
                    left -= 1
                    if left < 0:
                        where[0] = frame.f_code.co_name
                        raise exc("injected")
                return None

            def run():
                sys.settrace(tracer)
                try:
                    return go()
                finally:
                    sys.settrace(None)
        elif fault["how"] == "depth":
            room = 1 + int(fault["at"] * deepest)

            def run():
                frame, n = sys._getframe(), 0
                while frame:
                    n, frame = n + 1, frame.f_back
                old = sys.getrecursionlimit()
                sys.setrecursionlimit(n + room + 1)
                try:
                    return go()
                finally:
                    sys.setrecursionlimit(old)
        else:
            out = Failing(int(fault["at"] * len(text)), fault["exc"])
            run = go
        try:
            with contextlib.redirect_stdout(out):
                v = run()
        except BaseException as e:
            if fault["how"] == "stream":
                where[0] = len(out.text)
            elif fault["how"] == "depth":
                where[0] = room
            return "broken off", type(e).__name__, where[0]
        return "completed", v, where[0]

    def follow(self, case):
        """In the child: the faults, then everything once more. Returns (messages, counters, where)."""
        ref = case["ref"]
        A, B = case["fields"]
        cov = {"faults struck": 0, "operations redone": 0}
        places = []
        bad = []

        def same(what, got, want):
            cov["operations redone"] += 1
            if got != want and not bad:
                bad.append("%s gives %.400r instead of %.400r" % (what, got, want))
        done = obs.make_tokens(B).get_tokens(), obs.ExtractedRouteSequence()
        if case["warm"]:
            obs.ParseF15().parse_f15(done[1], done[0])
        bench = Bench()
        before = {**settings(), **constants()}
        for fault in case["faults"]:
            field = case["fields"][fault["field"]]
            op = fault["op"]
            how, v, where = self.strike(bench, fault, field, ref[op, field])
            if how == "broken off":
                cov["faults struck"] += 1
                k = {"interrupt": "interrupts struck", "depth": "recursion limits struck", "stream": "streams failed"}[fault["how"]]
                cov[k] = cov.get(k, 0) + 1
                places.append((op, fault["how"], where))
            else:
                # nothing was raised: then nothing may be missing
                want = ref[op, field][0]
                same("%s of %r, which met %s at %r and did not report it," % (op, field, fault["exc"], where), v, want)
        after = {**settings(), **constants()}
        for k in before:
            if before[k] != after[k] and not bad:
                bad.append("afterwards the process has other settings or constants: %s is %.200r instead of %.200r" % (k, after[k], before[k]))
        # objects the faults met
        if case["warm"]:
            same("the result obtained before", (Bench.values(done[1]), done[1].as_xml()), (ref["parse", B][0][1], ref["xml", B][0]))
        for f in (A, B):
            if f in bench.tokens:
                same("the token list of %r" % f, Bench.list(bench.tokens[f]), ref["tokenize", f][0])
                ers = obs.ExtractedRouteSequence()
                same("parsing the same token list of %r again" % f, (bench.parser.parse_f15(ers, bench.tokens[f]), Bench.values(ers)), ref["parse", f][0])
                same("printing the token list of %r" % f, printed(bench.tokens[f].print_tokens), ref["print_tokens", f][3])
            if f in bench.ers:
                same("the result of %r" % f, Bench.values(bench.ers[f]), ref["parse", f][0][1])
                same("the XML of the result of %r" % f, bench.ers[f].as_xml(), ref["xml", f][0])
                same("printing the result of %r" % f, printed(bench.ers[f].print_ers), ref["print", f][3])
        for f in (B, A):
            same("the same parser on %r" % f, bench.prepare("parse", f)(), ref["parse", f][0])
            same("the same tokenizer on %r" % f, bench.prepare("tokenize", f)(), ref["tokenize", f][0])
        for f in (A, B):
            same("a new use with %r" % f, bench.prepare("all", f)(), ref["all", f][0])
            new = Bench()
            same("printing a new result of %r" % f, printed(new.prepare("print", f)), ref["print", f][3])
        return bad, cov, places

    def one(self, case, st):
        how, ref = in_child(lambda: self.reference(case))
        if how != "ok":
            # a field the parser cannot cope with: the matter of C01
            st.cov["fields without a reference"] += 1
            return None
        full = dict(case, ref=ref)
        how, got = in_child(lambda: self.follow(full))
        st.cov["in fresh processes"] += not case["warm"]
        tale = "after %s" % ", ".join("%s of %r broken off by %s (%s)" % (f["op"], case["fields"][f["field"]], f["exc"] if f["how"] != "depth" else "the recursion limit", f["how"])
                                      for f in case["faults"])
        if how == "blocked":
            return "%s: a further use never returns, waiting without using the processor" % tale
        if how == "exc":
            return "%s: a further use raises %s" % (tale, got)
        bad, cov, places = got
        for k, v in cov.items():
            st.cov[k] += v
        st.seen.update(h64(p) for p in places)
        return "%s: %s" % (tale, bad[0]) if bad else None

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w)
        t0 = time.time()
        for i in range({"quick": 4000, "thorough": 60000}[tier] // nw):
            if time.time() - t0 > {"quick": 150, "thorough": 700}[tier]:
                st.truncated = True
                break
            case = self.case(r)
            st.evals += 1
            bad = self.one(case, st)
            if i % 100 == 3:
                st.sample(case)
            if bad:
                st.viol.append((case, bad))
                if len(st.viol) >= 2 or "never returns" in bad:
                    break

    def replay(self, case):
        b = self.one(case, runner.Stats())
        return [b] if b else []

    def shrink(self, case):
        best = case
        t0 = time.time()
        if len(case["faults"]) > 1:
            for f in case["faults"]:
                c = dict(case, faults=[f])
                if self.replay(c):
                    best = c
                    break
        for i in range(2):
            toks = [t for t, _, _ in lex.tokenize(best["fields"][i])]
            j = 0
            while j < len(toks) and time.time() - t0 < 40:
                fs = list(best["fields"])
                fs[i] = " ".join(toks[:j] + toks[j + 1:])
                c = dict(best, fields=fs)
                if self.replay(c):
                    best, toks = c, toks[:j] + toks[j + 1:]
                else:
                    j += 1
        return best


FAULT_CHECKS = {"C42": C42}
