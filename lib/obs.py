"""Drives the real code of /repo through its public interface and records what it did."""
import os, signal, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence  # noqa: E402
from F15_Parser.ExtractedRouteRecord import ExtractedRouteRecord  # noqa: E402
from F15_Parser.F15Parse import ParseF15  # noqa: E402
from F15_Parser.F15TokenSyntaxDescriptions import (TokenBaseType, TokenSubType,  # noqa: E402
                                                   F15TokenSyntaxDefinition)
from Tokenizer.Token import Token  # noqa: E402
from Tokenizer.Tokenize import Tokenize  # noqa: E402
from Tokenizer.Tokens import Tokens  # noqa: E402

STD_WS = " \n\t\r/"


def bname(v):
    try:
        return TokenBaseType(v).name.removeprefix("F15_")
    except Exception:
        return "?" + repr(v)


def sname(v):
    try:
        return TokenSubType(v).name.removeprefix("F15_SB_")
    except Exception:
        return "?" + repr(v)


class Rec:
    """Plain copy of one record / error record."""
    __slots__ = ("name", "start", "end", "base", "sub", "speed", "speed_si", "alt", "alt_si", "rules",
                 "brk", "err", "stay", "cr_to", "cr_si", "lat", "lon", "valid", "bearing", "dist")

    def __init__(self, r=None):
        if r is None:
            return
        self.name = r.get_name()
        self.start = r.get_start_index()
        self.end = r.get_end_index()
        self.base = bname(r.get_base_type())
        self.sub = sname(r.get_sub_type())
        self.speed = r.get_speed()
        self.speed_si = r.get_speed_si()
        self.alt = r.get_altitude()
        self.alt_si = r.get_altitude_si()
        self.rules = r.get_flight_rules()
        self.brk = r.get_break_text()
        self.err = r.get_error_text()
        self.stay = r.get_stay_time()
        self.cr_to = r.get_altitude_cruise_to()
        self.cr_si = r.get_altitude_cruise_to_si()
        self.lat = r.get_latitude()
        self.lon = r.get_longitude()
        self.valid = bool(r.is_lat_long_valid())
        self.bearing = r.get_bearing()
        self.dist = r.get_distance()

    def key(self):
        return tuple(repr(getattr(self, s)) for s in self.__slots__)

    def show(self):
        return "%s[%s:%s] %s/%s %s %s %s" % (self.name, self.start, self.end, self.base, self.sub,
                                             self.speed, self.alt, self.rules)


class Run:
    """One observed execution: input, tokens, records, errors, verdict."""
    __slots__ = ("text", "toks", "recs", "errs", "verdict", "derived", "ers", "tokens", "exc", "src_after")

    def key(self):
        return (self.verdict, self.derived, tuple(r.key() for r in self.recs), tuple(r.key() for r in self.errs))


class NonTermination(Exception):
    pass


class Inconclusive(Exception):
    pass


def snap_tokens(tokens):
    return [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index(),
             bname(t.get_token_base_type()), sname(t.get_token_sub_type())) for t in tokens.get_tokens()]


def snap(run):
    ers = run.ers
    run.recs = [Rec(r) for r in ers.get_all_elements()]
    run.errs = [Rec(r) for r in ers.get_all_errors()]
    run.derived = ers.get_derived_flight_rules()
    return run


def make_tokens(text, ws=STD_WS):
    t = Tokenize()
    t.set_string_to_tokenize(text)
    t.set_whitespace(ws)
    t.tokenize()
    return t


def parse_raw(text, parser=None):
    run = Run()
    run.text = text
    run.exc = None
    t = make_tokens(text)
    run.tokens = t.get_tokens()
    run.ers = ExtractedRouteSequence()
    run.verdict = (parser or ParseF15()).parse_f15(run.ers, run.tokens)
    run.toks = snap_tokens(run.tokens)
    run.src_after = t.get_string_to_tokenize()
    return snap(run)


# ---- hang guard ---------------------------------------------------------------------------------------
# Process CPU time only starts a measurement in logical steps; CPU time decides by itself only when a single
# step (a regular expression, say) burns another CPU_HARD seconds on a field that normally takes milliseconds.

CPU = 10
CPU_HARD = 40


class _Alarm(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Alarm()


class cpu_guard:
    def __init__(self, seconds):
        self.seconds = seconds

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, _on_alarm)
        signal.setitimer(signal.ITIMER_PROF, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


HARNESS = os.path.dirname(os.path.abspath(__file__)) + "/"


def count_steps(fn, budget=None):
    """Runs fn counting executed source lines and jumps of all Python code outside the harness
    (the code under test and what it calls); raises NonTermination beyond the budget."""
    mon = sys.monitoring
    tool = 4
    ev = mon.events.LINE | mon.events.JUMP | mon.events.BRANCH
    mon.use_tool_id(tool, "verif-steps")
    count = 0
    mine = {}

    def on(code, *a):
        nonlocal count
        m = mine.get(code)
        if m is None:
            m = mine[code] = os.path.abspath(code.co_filename).startswith(HARNESS)
        if m:
            return mon.DISABLE
        count += 1
        if budget is not None and count > budget:
            raise NonTermination("more than %d steps executed" % budget)

    for e in (mon.events.LINE, mon.events.JUMP, mon.events.BRANCH):
        mon.register_callback(tool, e, on)
    mon.set_events(tool, ev)
    try:
        fn()
    finally:
        mon.set_events(tool, 0)
        for e in (mon.events.LINE, mon.events.JUMP, mon.events.BRANCH):
            mon.register_callback(tool, e, None)
        mon.free_tool_id(tool)
        mon.restart_events()
    return count


def step_budget(text):
    n = len(text)
    return 300000 + 8000 * (n + 1)


class room_for:
    """Stack for the one recursion the grammar is written with. A field of more than MANY elements can exceed
    Python's default limit (known finding of C01, judged there at the default limit); the properties of what
    such a field gives once a caller has raised the limit are judged under a limit proportional to its length."""
    MANY = 120

    def __init__(self, text, deep=True):
        self.n = 0
        if deep and len(text) > self.MANY:
            self.n = len(text.replace("/", " / ").split())

    def __enter__(self):
        self.old = sys.getrecursionlimit()
        if self.n > self.MANY:
            sys.setrecursionlimit(max(self.old, 1000 + 40 * self.n))

    def __exit__(self, *a):
        if self.n > self.MANY:
            sys.setrecursionlimit(self.old)


def observe(text, parser=None, deep=True):
    """Parse under the hang guard. Exceptions of the code under test are recorded in run.exc."""
    try:
        with cpu_guard(CPU), room_for(text, deep):
            return parse_raw(text, parser)
    except _Alarm:
        pass
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        return failed(text, "raised %s: %s" % (type(e).__name__, str(e)[:200]))
    try:
        with cpu_guard(CPU_HARD), room_for(text, deep):
            count_steps(lambda: parse_raw(text), step_budget(text))
    except NonTermination as e:
        return failed(text, "does not terminate: %s" % e)
    except _Alarm:
        return failed(text, "does not terminate: %d s of CPU time for %d characters" % (CPU_HARD, len(text)))
    except BaseException as e:
        return failed(text, "raised %s: %s" % (type(e).__name__, str(e)[:200]))
    raise Inconclusive("parse took over %d s of CPU time but finished within its step budget" % CPU)


def failed(text, what):
    run = Run()
    run.text = text
    run.exc = what
    run.toks = run.recs = run.errs = []
    run.verdict = run.derived = run.ers = run.tokens = None
    return run
