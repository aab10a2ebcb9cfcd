"""Child of the C34 check: parses the fields given on standard input under one process configuration, prints digests."""
import hashlib, io, json, os, sys

sys.dont_write_bytecode = True
job = json.loads(sys.stdin.buffer.read())
opts, repo = job["opts"], job["repo"]
sys.path.insert(0, repo)
read = set()


class Env(type(os.environ)):
    """os.environ that remembers what the code under test looks up."""

    def _note(self, key):
        f = sys._getframe(2)
        while f is not None:
            n = f.f_code.co_filename
            if n.startswith("<frozen importlib"):
                return                  # a module of the standard library being loaded
            if n.startswith(repo + os.sep):
                read.add(key)
                return
            f = f.f_back

    def __getitem__(self, key):
        self._note(key)
        return super().__getitem__(key)

    def get(self, key, default=None):
        self._note(key)
        return super().get(key, default)

    def __contains__(self, key):
        self._note(key)
        return super().__contains__(key)


os.environ.__class__ = Env
if "imports" in opts:
    import decimal, fractions, locale, logging, numbers, unittest, xml.dom.minidom  # noqa: F401
    locale.setlocale(locale.LC_ALL, "")
if "clock" in opts:
    import datetime, time
    t = opts["clock"]
    real = time.gmtime
    time.time = lambda: t
    time.time_ns = lambda: int(t * 1e9)
    time.localtime = lambda s=None: real(t if s is None else s)
    time.gmtime = lambda s=None: real(t if s is None else s)

    class DT(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(t, tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(t, datetime.timezone.utc).replace(tzinfo=None)
        today = now

    class D(datetime.date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(t)
    datetime.datetime, datetime.date = DT, D
if "recursion" in opts:
    sys.setrecursionlimit(opts["recursion"])
if "decimal" in opts:
    import decimal
    decimal.getcontext().prec = opts["decimal"]
    decimal.getcontext().rounding = decimal.ROUND_UP
if "gc" in opts:
    import gc
    gc.set_threshold(1) if opts["gc"] else gc.disable()
if "random" in opts:
    import random
    random.seed(opts["random"])
if "jump" in opts:
    import time
    now = [1e9]

    def tick():
        now[0] += opts["jump"]
        return now[0]

    for name in ("time", "monotonic", "perf_counter", "process_time", "thread_time"):
        setattr(time, name, tick)
        setattr(time, name + "_ns", lambda: int(tick() * 1e9))
if "argv" in opts:
    class Argv(list):
        """Program arguments among which there is every option."""

        def __contains__(self, x):
            return True

        def __getitem__(self, i):
            x = super().__getitem__(i)
            return Argv(x) if isinstance(i, slice) else x

    sys.argv = Argv([sys.argv[0], "--debug", "-v", "--strict", "N0450F350 ABC", "/dev/null"])
if "interactive" in opts:
    import __main__
    del __main__.__file__
    sys.ps1, sys.ps2, sys.argv = ">>> ", "... ", [""]
if "tools" in opts:
    import types
    for name in ("pytest", "_pytest", "coverage", "pydevd", "IPython", "nose", "debugpy", "idlelib.run", "google.colab"):
        sys.modules[name] = types.ModuleType(name)
if "platform" in opts:
    import platform
    sys.platform, os.linesep, sys.byteorder = opts["platform"], "\r\n", "big"
    platform.system = lambda: "Windows"
    platform.machine = lambda: "sparc"
    platform.python_implementation = lambda: "PyPy"


for name, value in opts.get("patch", {}).items():
    # what the code asks the system about, answered with another value
    module, attr = name.rsplit(".", 1)
    setattr(__import__(module, fromlist=["x"]), attr, lambda *a, _v=value, **k: _v)
asked = set()


def watch(frame, event, arg):
    """Notes the functions outside the code under test that it calls."""
    if event == "c_call":
        if frame.f_code.co_filename.startswith(repo + os.sep):
            m = getattr(arg, "__module__", None) or type(getattr(arg, "__self__", None)).__name__
            if m == "type":
                m = getattr(arg.__self__, "__module__", "") + "." + arg.__self__.__name__
            asked.add("%s.%s" % (m, arg.__name__))
    elif event == "call" and frame.f_back is not None and frame.f_back.f_code.co_filename.startswith(repo + os.sep):
        if not frame.f_code.co_filename.startswith(repo + os.sep):
            asked.add("%s.%s" % (frame.f_globals.get("__name__"), frame.f_code.co_name))


class Printed(io.StringIO):
    def isatty(self):
        return "tty" in opts


if "tty" in opts:
    import shutil
    size = os.terminal_size((opts["tty"], 5))
    os.get_terminal_size = shutil.get_terminal_size = lambda *a, **k: size
    os.isatty = lambda fd: True
out = sys.stdout
if "streams" in opts:
    sys.stdout = sys.stderr = sys.stdin = None

if "watch" in opts:
    sys.setprofile(watch)
from F15_Parser.ExtractedRouteSequence import ExtractedRouteSequence  # noqa: E402
from F15_Parser.F15Parse import ParseF15  # noqa: E402
from Tokenizer.Tokenize import Tokenize  # noqa: E402

GET = ("get_name", "get_start_index", "get_end_index", "get_base_type", "get_sub_type", "get_speed", "get_speed_si", "get_altitude", "get_altitude_si",
       "get_flight_rules", "get_break_text", "get_error_text", "get_stay_time", "get_altitude_cruise_to", "get_altitude_cruise_to_si",
       "get_latitude", "get_longitude", "is_lat_long_valid", "get_bearing", "get_distance")


def one(text):
    t = Tokenize()
    t.set_string_to_tokenize(text)
    t.set_whitespace(" \n\t\r/")
    t.tokenize()
    ers = ExtractedRouteSequence()
    verdict = ParseF15().parse_f15(ers, t.get_tokens())
    keep = sys.stdout
    sys.stdout = Printed()
    try:
        ers.print_ers()
        t.get_tokens().print_tokens()
        printed = sys.stdout.getvalue()
    finally:
        sys.stdout = keep
    both = [[str(getattr(x, g)()) if "type" in g else repr(getattr(x, g)()) for g in GET] for x in list(ers.get_all_elements()) + list(ers.get_all_errors())]
    all_ = [repr(verdict), repr(ers.get_derived_flight_rules()), both, ers.as_xml(), printed]
    short = "%s, %d records, %d errors" % (verdict, ers.get_number_of_elements(), ers.get_number_of_errors())
    return [hashlib.blake2b(json.dumps(all_).encode("ascii"), digest_size=10).hexdigest(), short]


def safe(text):
    try:
        return one(text)
    except Exception as e:
        return ["exception", "raised %s: %s" % (type(e).__name__, str(e)[:200])]


def main():
    fields = job["fields"]
    order = list(reversed(range(len(fields)))) if "reverse" in opts else range(len(fields))
    res = [None] * len(fields)
    if "trace" in opts:
        sys.settrace(lambda *a: None)
    if "watch" in opts:
        sys.setprofile(watch)
    if "profile" in opts:
        sys.setprofile(lambda *a: None)
    for i in order:
        res[i] = safe(fields[i])
    sys.settrace(None)
    sys.setprofile(None)
    return res


if "thread" in opts:
    import threading
    box = []
    th = threading.Thread(target=lambda: box.append(main()))
    th.start()
    th.join()
    digests = box[0]
else:
    digests = main()
out.write(json.dumps({"digests": digests, "env": sorted(read), "asked": sorted(asked)}) + "\n")
out.flush()
