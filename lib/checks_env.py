"""Monitors for what surrounds a parse: side effects, process environment, memory."""
import builtins, collections, copyreg, decimal, faulthandler, gc, io, json, locale, logging, os, random, resource, signal, socket, subprocess, sys, tempfile, threading, time, tracemalloc, types, warnings, weakref

import gen
import lex
import obs
from runner import Check, FieldCheck, h64, VERIF

HERE = os.path.dirname(os.path.abspath(__file__))


# ---- C33: no side effects ----------------------------------------------------------------------------------

WATCHED = ("open", "os.", "shutil.", "socket.", "subprocess.", "urllib", "ftplib.", "http.", "smtplib.", "signal.", "sys.setprofile",
           "sys.settrace", "sys.addaudithook", "sys.excepthook", "sys.unraisablehook", "time.sleep", "tempfile.", "ctypes.", "syslog.",
           "pty.", "builtins.input", "builtins.breakpoint", "_thread.start", "fcntl.", "resource.", "mmap.", "sqlite3.", "logging.",
           "webbrowser.", "pdb.", "_posixsubprocess", "msvcrt.", "glob.", "cpython.run")
_events = None


def _hook(event, args):
    if _events is None or not event.startswith(WATCHED):
        return
    f = sys._getframe(1)
    while f is not None:
        if f.f_code.co_filename.startswith("<frozen importlib"):
            return                      # reading a module for the first time is no effect of the parse
        f = f.f_back
    _events.append((event, repr(args)[:120]))


_hooked = False

# calls into C that the interpreter does not audit
CALLS = {("time", "sleep"), ("atexit", "register"), ("select", "select"), ("select", "poll"), ("select", "epoll"), ("signal", "pause"),
         ("_signal", "pause"), ("_signal", "alarm"), ("_signal", "raise_signal"), ("_thread", "start_new_thread"), ("_thread", "start_joinable_thread"),
         ("_thread", "interrupt_main"), ("faulthandler", "enable"), ("resource", "setrlimit")}
CALLS |= {("posix", n) for n in (
    "write writev pwrite pwritev sendfile pipe pipe2 dup dup2 close closerange nice umask setpriority sched_setaffinity sched_setscheduler setsid "
    "setpgid setuid setgid seteuid setegid sync fsync fdatasync abort _exit memfd_create eventfd mkfifo mknod waitpid wait fchdir ftruncate").split()}


def _profile(frame, event, fn):
    if event != "c_call" or (getattr(fn, "__module__", None), getattr(fn, "__name__", None)) not in CALLS:
        return
    own = os.path.abspath(obs.REPO) + os.sep
    f, ours = frame, False
    while f is not None:
        n = f.f_code.co_filename
        if n.startswith("<frozen importlib"):
            return
        ours = ours or n.startswith(own)
        f = f.f_back
    if ours and _events is not None:
        _events.append(("%s.%s" % (fn.__module__, fn.__name__), "called"))


class recording:
    """Collects watched interpreter events, text written to the standard streams and their file descriptors."""

    def __init__(self, calls=False):
        self.calls = calls

    def __enter__(self):
        global _events, _hooked
        if not _hooked:
            sys.addaudithook(_hook)
            _hooked = True
        self.streams = sys.stdout, sys.stderr
        self.out, self.err = io.StringIO(), io.StringIO()
        sys.stdout, sys.stderr = self.out, self.err
        if self.calls:
            sys.setprofile(_profile)
        self.events = _events = []
        return self

    def __exit__(self, *a):
        global _events
        _events = None
        if self.calls:
            sys.setprofile(None)
        sys.stdout, sys.stderr = self.streams


def settings():
    """Process-wide settings a library has no business changing."""
    return {
        "recursion limit": sys.getrecursionlimit(), "switch interval": sys.getswitchinterval(), "environment": dict(os.environ),
        "working directory": os.getcwd(), "locale": locale.setlocale(locale.LC_ALL), "module search path": list(sys.path),
        "warning filters": len(warnings.filters), "random state": h64(random.getstate()), "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "decimal context": repr(decimal.getcontext()), "threads": threading.active_count(), "hooks": (sys.excepthook, sys.displayhook, sys.gettrace(), sys.getprofile()),
        "signal handlers": tuple(str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGUSR1)),
        "builtins": len(vars(builtins)), "logging": (logging.root.level, len(logging.root.handlers)), "socket timeout": socket.getdefaulttimeout(),
        "stack size of threads": threading.stack_size(), "fault handler": faulthandler.is_enabled(), "limits": resource.getrlimit(resource.RLIMIT_STACK),
        "built-in functions": hash(tuple((k, id(v)) for k, v in vars(builtins).items() if k != "_")), "frozen objects": gc.get_freeze_count(),
        "copy and pickle table": len(copyreg.dispatch_table), "umask": None, "standard input": id(sys.stdin), "integer digits": sys.get_int_max_str_digits(), "alarm": signal.getitimer(signal.ITIMER_REAL),
    }


class C33(FieldCheck):
    id = "C33"
    rule = ("all continuations of 41 contexts by 1 (quick) or 2 elements, random valid, mutated, soup, garbage and long fields, texts of up to 4000 "
            "characters; every audited interpreter event, calls into C that are not audited (sleep, write, ...), everything written to the standard streams and 25 process-wide settings observed around "
            "tokenizing, parsing, reading and XML export; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 1, "thorough": 2}
    n_focus = {"quick": 16000, "thorough": 200000}
    n_random = {"quick": 16000, "thorough": 200000}
    need = {"parses watched": 30000, "settings compared": 4000, "watched events seen by the probe": 8, "parses with calls into C watched": 15000}

    def focus(self, r):
        k = r.random()
        if k < .015:
            return gen.join(r, gen.soup(r, r.randint(60, 110)))
        if k < .018:
            # very long elements of one kind of character
            n = r.choice((60, 150, 300, 1000, 4000, 4301, 5000, 9000))
            e = "".join(r.choice(r.choice(("0123456789", "1", "ABCDEFGHIJ", "A", "01", "NSEW", "\u00e9\u4e00", "/", "+-.,e0"))) for _ in range(n)) if r.random() < .3 else \
                r.choice(("7", "0", "X", "9", "\u0663")) * n
            t = gen.valid_tokens(r, 6)
            return gen.join(r, t[:1 + r.randrange(len(t))] + [e] + t[-1:])
        if k < .022:
            # long fields; beyond some hundred elements the parser may run out of stack (see C01), still without side effects
            n = r.choice((150, 250, 400, 700, 1500))
            return gen.join(r, r.choice((gen.soup(r, n), gen.valid_tokens(r, n), ["N0450F350"] + [r.choice(gen.ALPHABET)] * n,
                                         ["N0450F350", "ABC", "OAT"] + [gen.element(r) for _ in range(n)])))
        t = gen.valid_tokens(r, 16, {"break": 2, "stay": 2, "climb": 2, "coord": 4})
        return gen.join(r, gen.mutate(r, t) if r.random() < .6 else t)

    def work(self, tier, seed, w, nw, st):
        # the monitor must be able to see something
        with recording() as rec:
            open(os.devnull).close()
        st.cov["watched events seen by the probe"] += len(rec.events)
        self.k = 0
        saved = os.dup(1), os.dup(2)
        with tempfile.TemporaryFile() as f:
            os.dup2(f.fileno(), 1)
            os.dup2(f.fileno(), 2)
            try:
                self.base = settings()
                super().work(tier, seed, w, nw, st)
                size = os.fstat(f.fileno()).st_size
                f.seek(0)
                text = f.read(200)
            finally:
                os.dup2(saved[0], 1)
                os.dup2(saved[1], 2)
                os.close(saved[0])
                os.close(saved[1])
        if size and not st.viol:
            st.viol.append(({"text": ""}, "the workload wrote %d bytes to the standard output or error: %r" % (size, text)))

    def one(self, text, st):
        x = None
        full = not hasattr(self, "k") or self.k % 7 == 0 or len(text) > 600
        before = settings() if full else None
        calls = not hasattr(self, "k") or self.k % 2 == 0
        st.cov["parses with calls into C watched"] += calls
        with recording(calls) as rec:
            run = obs.observe(text)
            if not run.exc:
                run.ers.as_xml()
        if full:
            after = settings()
        self.k = getattr(self, "k", 0) + 1
        if run.exc:
            if "RecursionError" not in run.exc or len(lex.tokenize(text)) < 120:
                return run, x, ["parsing %s" % run.exc]
            st.cov["out of stack, see C01"] += 1
        st.cov["parses watched"] += 1
        st.cov["longest field"] = max(st.cov["longest field"], len(text.split()))
        ev = [e for e in rec.events if not e[0].startswith("signal.setitimer")]
        toks = [t + lex.classify(t[0]) for t in lex.tokenize(text)]
        x = Plain(toks)
        if ev:
            return run, x, ["parsing %r caused %s" % (text, ev[0])]
        for n, s in (("output", rec.out), ("error", rec.err)):
            if s.getvalue():
                return run, x, ["parsing %r wrote %r to the standard %s" % (text, s.getvalue()[:100], n)]
        if full:
            st.cov["settings compared"] += 1
            for k in before:
                if before[k] != after[k]:
                    return run, x, ["parsing %r changed the %s from %r to %r" % (text, k, before[k], after[k])]
            if getattr(self, "base", None):
                for k in after:
                    if self.base[k] != after[k]:
                        return run, x, ["parsing (up to %r) changed the %s from %r to %r" % (text, k, self.base[k], after[k])]
        return run, x, []


class Plain:
    """What FieldCheck.work needs of a model run."""
    trans = ()

    def __init__(self, toks):
        self.toks = toks


# ---- C34: the process environment does not matter -------------------------------------------------------------

def configs(r):
    e = {}
    out = [("hash seed 0", [], {"PYTHONHASHSEED": "0"}, {}), ("hash seed 1", [], {"PYTHONHASHSEED": "1"}, {}),
           ("hash seed %d" % r.randint(2, 4000000), None, None, {}), ("random hash seed", [], {"PYTHONHASHSEED": "random"}, {}),
           ("assertions off", ["-O"], e, {}), ("documentation and assertions off", ["-OO"], e, {}),
           ("C locale", [], {"LC_ALL": "C", "LANG": "C", "PYTHONCOERCECLOCALE": "0", "PYTHONUTF8": "0"}, {}),
           ("C.UTF-8 locale", [], {"LC_ALL": "C.UTF-8"}, {}), ("unknown locale", [], {"LC_ALL": "tr_TR.UTF-8", "LANGUAGE": "tr"}, {}),
           ("ASCII streams", [], {"PYTHONIOENCODING": "ascii", "PYTHONUTF8": "0"}, {}),
           ("time zone", [], {"TZ": "Asia/Kathmandu"}, {}), ("other working directory", [], e, {"cwd": "/"}),
           ("empty environment", [], None, {"bare": True}), ("development mode", ["-X", "dev"], e, {}), ("warnings are errors", ["-W", "error"], e, {}),
           ("bytes warnings", ["-bb"], e, {}), ("isolated", ["-I"], e, {}), ("recursion limit", [], e, {"recursion": 5000}),
           ("decimal context", [], e, {"decimal": 3}), ("no garbage collection", [], e, {"gc": 0}), ("constant garbage collection", [], e, {"gc": 1}),
           ("random state", [], e, {"random": 7}), ("other random state", [], e, {"random": 99991}),
           ("clock 1970", [], e, {"clock": 1000.0}), ("clock 2099", [], e, {"clock": 4094321234.5}), ("traced", [], e, {"trace": 1}),
           ("profiled", [], e, {"profile": 1}), ("no standard streams", [], e, {"streams": 1}), ("from another thread", [], e, {"thread": 1}),
           ("integer digits", [], {"PYTHONINTMAXSTRDIGITS": "640"}, {}), ("verbose modules loaded", [], e, {"imports": 1}),
           ("reversed order", [], e, {"reverse": 1}), ("program arguments", [], e, {"argv": 1}),
           ("terminal of 20 columns", [], {"COLUMNS": "20", "LINES": "5", "TERM": "xterm"}, {"tty": 20}), ("jumping clocks", [], e, {"jump": 100.0}),
           ("frozen clocks", [], e, {"jump": 0.0}), ("interactive session", [], e, {"interactive": 1}),
           ("other platform", [], e, {"platform": "win32"}), ("test tools loaded", [], e, {"tools": 1})]
    return [(n, a if a is not None else [], ({"PYTHONHASHSEED": n.split()[-1]} if v is None and "bare" not in o else v or {}), o) for n, a, v, o in out]


def moments():
    """Seconds since 1970 on every month's first and last day, every day of a week, every hour, around leap days and the change of years."""
    day = 86400
    out = [1767225600 + k * day + 43200 for k in range(0, 366, 15)]          # 2026
    out += [1709164800 + k * 43200 for k in (-1, 0, 1, 2, 3)]                # 29 February 2024
    out += [1798761600 - day // 2, 1798761600 - 1, 1798761600, 1861919999]   # end of 2026, end of 2028
    out += [1767225600 + k * day + (k * 4 % 24) * 3600 + 61 * k for k in range(7)]
    out += [1780272000 + h * 3600 + h * 97 for h in range(24)]
    month = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
    at = 1767225600
    for m in month:
        out += [at + 3600, at + m * day - 3600]
        at += m * day
    return out + [0.25, 951782400.5, 4102444800.0, 2147483648.0]


# functions a program asks about the world, with answers they may give
WORLD = {
    "posix.getpid": ("os.getpid", (1, 2, 100, 4194303)), "posix.getppid": ("os.getppid", (0, 1, 7)), "posix.getuid": ("os.getuid", (0, 1000, 65534)),
    "posix.geteuid": ("os.geteuid", (0, 1000, 65534)), "posix.getgid": ("os.getgid", (0, 1000)), "posix.cpu_count": ("os.cpu_count", (1, 2, 64, None)),
    "posix.getcwd": ("os.getcwd", ("/", "/home/user/flight plans", "C:\\")), "posix.getlogin": ("os.getlogin", ("root", "user")),
    "posix.isatty": ("os.isatty", (True, False)), "posix.getloadavg": ("os.getloadavg", ((0., 0., 0.), (99., 99., 99.))),
    "_socket.gethostname": ("socket.gethostname", ("localhost", "x", "prod-01")), "genericpath.exists": ("os.path.exists", (True, False)),
    "genericpath.isfile": ("os.path.isfile", (True, False)), "posix._path_isfile": ("os.path.isfile", (True, False)),
    "posix._path_exists": ("os.path.exists", (True, False)), "posix._path_isdir": ("os.path.isdir", (True, False)), "posix.access": ("os.access", (True, False)),
    "platform.node": ("platform.node", ("", "localhost", "prod-01")), "platform.system": ("platform.system", ("Windows", "Darwin", "Java")),
    "platform.python_version": ("platform.python_version", ("3.9.1", "3.13.0")), "platform.machine": ("platform.machine", ("arm64", "i386")),
    "getpass.getuser": ("getpass.getuser", ("root", "user")), "locale.getlocale": ("locale.getlocale", ((None, None), ("de_DE", "UTF-8"), ("tr_TR", "ISO8859-9"))),
    "locale.localeconv": ("locale.localeconv", ({"decimal_point": ",", "thousands_sep": "."},)), "_thread.get_ident": ("threading.get_ident", (1, 2, 140000000000000)),
    "threading.get_native_id": ("threading.get_native_id", (1, 99)), "threading.active_count": ("threading.active_count", (1, 2, 50)),
    "sys.getrecursionlimit": ("sys.getrecursionlimit", (50, 1000, 100000)), "sys.gettrace": ("sys.gettrace", (None,)), "gc.get_count": ("gc.get_count", ((0, 0, 0), (699, 9, 9))),
    "gc.isenabled": ("gc.isenabled", (True, False)), "random.random": ("random.random", (0.0, .25, .5, .75, .999999)),
    "resource.getrusage": None, "sys.getrefcount": ("sys.getrefcount", (1, 2, 3, 100)), "sys._getframe": None,
}
CLOCKS = ("time.", "datetime.", "_datetime.", "_strptime.", "calendar.")


class C34(Check):
    id = "C34"
    rule = ("one set of fields (contexts with each element kind, valid, mutated, soup and garbage fields, in several languages' characters) per worker, "
            "parsed, printed and exported in child processes under 39 process configurations (hash seeds, optimisation, locale, time zone, clocks, arguments, terminal, platform, ...), and with every environment variable the code was seen to read set to "
            "several values; digests compared field by field with those of the plain process; non-trivial: distinct (field, configuration) pairs")
    need = {"configurations": 39, "results compared": 30000}
    assumptions = ["only the configurations listed; other operating systems and Python versions are not observed"]

    def fields(self, tier, seed, w):
        r = self.rng(seed, w, "fields")
        out = []
        n = {"quick": 700, "thorough": 6000}[tier]
        ex = list(gen.exhaustive(1))
        for t in r.sample(ex, min(len(ex), 60 if tier == "quick" else 600)):
            out.append(t)
        while len(out) < n:
            if r.random() < .5:
                t = gen.valid_tokens(r, 16, {"break": 2, "stay": 2, "climb": 2, "coord": 4})
                out.append(gen.join(r, gen.mutate(r, t) if r.random() < .5 else t))
            else:
                out.append(gen.mixed(r)[1])
        return [t for t in out if not any(0xD800 <= ord(c) < 0xE000 for c in t)]

    def launch(self, fields, args, env, opts):
        e = {} if opts.get("bare") else {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LC_", "LANG", "TZ"))}
        e.update(env)
        p = subprocess.run([sys.executable, "-B"] + args + [os.path.join(HERE, "envrun.py")], env=e, cwd=opts.get("cwd", HERE),
                           input=json.dumps({"repo": os.path.abspath(obs.REPO), "opts": opts, "fields": fields}).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=400)
        try:
            return json.loads(p.stdout.decode().splitlines()[-1])
        except (ValueError, IndexError):
            return {"error": "exit status %s: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-400:])}

    def compare(self, fields, base, name, args, env, opts, st):
        got = self.launch(fields, args, env, opts)
        case = {"fields": fields, "name": name, "args": args, "env": env, "opts": opts}
        if "error" in got:
            st.viol.append((case, "configuration %r: the parses failed: %s" % (name, got["error"])))
            return None
        for f, a, b in zip(fields, base["digests"], got["digests"]):
            st.cov["results compared"] += 1
            if a != b:
                case["fields"] = [f]
                st.viol.append((case, "field %r gives another result under configuration %r: %s instead of %s" % (f, name, b[1], a[1])))
                return None
        st.cov["configurations"] += 1
        st.sets["configurations"].add(name)
        st.evals += len(fields)
        st.seen.update(h64((f, name)) for f in fields)
        return got

    def work(self, tier, seed, w, nw, st):
        fields = self.fields(tier, seed, w)
        base = self.launch(fields, [], {"PYTHONHASHSEED": "0"}, {"watch": 1})
        if "error" in base:
            st.viol.append(({"fields": fields[:20], "name": "plain", "args": [], "env": {}, "opts": {}}, "plain process: the parses failed: %s" % base["error"]))
            return
        r = self.rng(seed, w, "configs")
        all_ = configs(self.rng(seed, 0, "configs"))
        mine = [c for i, c in enumerate(all_) if tier == "thorough" or (i + seed) % nw in (w, (w + 3) % nw)]
        seen = set(base["env"])
        for name, args, env, opts in mine:
            got = self.compare(fields, base, name, args, env, opts, st)
            if got is None:
                return
            seen |= set(got["env"])
        st.sets["environment variables read by the code"].update(seen)
        for v in sorted(seen):
            for val in ("", "0", "1", "true", "no", "x"):
                if self.compare(fields, base, "%s=%s" % (v, val), [], {v: val}, {}, st) is None:
                    return
        # whatever the code asks the system about is answered in every way
        asked = set(base["asked"])
        st.sets["functions called by the code"].update(asked)
        more = []
        if any(a.startswith(CLOCKS) for a in asked):
            more += [("clock %s" % t, {"clock": float(t)}) for t in moments()] + [("jump %s" % t, {"jump": t}) for t in (1e-3, 1.0, 3600.0, 86400.0)]
        if any(a.split(".")[0] in ("random", "_random", "Random", "secrets", "uuid") for a in asked):
            more += [("random state %d" % k, {"random": k}) for k in range(8)]
        for a in sorted(asked):
            if WORLD.get(a):
                name, values = WORLD[a]
                more += [("%s -> %r" % (name, v), {"patch": {name: v}}) for v in values if not callable(v)]
        for name, opts in more:
            if self.compare(fields, base, name, [], {"PYTHONHASHSEED": "0"}, opts, st) is None:
                return
        st.sample({"fields": fields[:2], "configurations": [c[0] for c in mine][:6]})

    def replay(self, case):
        base = self.launch(case["fields"], [], {"PYTHONHASHSEED": "0"}, {})
        if "error" in base:
            return ["plain process: %s" % base["error"]]
        got = self.launch(case["fields"], case["args"], case["env"], case["opts"])
        if "error" in got:
            return ["configuration %r: the parses failed: %s" % (case["name"], got["error"])]
        return ["field %r gives another result under configuration %r: %s instead of %s" % (f, case["name"], b[1], a[1])
                for f, a, b in zip(case["fields"], base["digests"], got["digests"]) if a != b]


# ---- C37: nothing is retained ----------------------------------------------------------------------------------

class Null:
    def write(self, s):
        return len(s)

    def flush(self):
        pass


class C37(Check):
    id = "C37"
    rule = ("per worker, batches of fields (valid, mutated, soup, garbage, long; accepted and rejected) tokenized, parsed, read, exported and dropped in "
            "several passes with fresh and with shared parser objects; live objects of the code and traced memory after each pass; "
            "non-trivial: distinct fields")
    need = {"passes": 48, "objects created": 200000, "single fields repeated": 100, "dropped objects looked for": 10000}
    assumptions = ["growth is judged over repeated passes over the same fields, so a cache keyed by the texts is not growth"]
    PASSES = 6

    def fields(self, tier, r):
        n = {"quick": 160, "thorough": 500}[tier]
        out = [gen.mixed(r)[1] for _ in range(n)]
        out += [gen.join(r, gen.soup(r, r.randint(40, 90))) for _ in range(4)]
        out += [r.choice(gen.CONTEXTS) + " " + r.choice(gen.ALPHABET) for _ in range(n // 2)]
        return out

    @staticmethod
    def live():
        n = {}
        root = os.path.abspath(obs.REPO) + os.sep
        for o in gc.get_objects():
            t = type(o)
            m = getattr(t, "__module__", None)
            f = getattr(sys.modules.get(m), "__file__", None) if isinstance(m, str) else None
            if f and os.path.abspath(f).startswith(root):
                n[t.__name__] = n.get(t.__name__, 0) + 1
        return n

    @staticmethod
    def held(*roots):
        """Number of entries in all containers reachable from the modules, classes and given objects of the code."""
        root = os.path.abspath(obs.REPO) + os.sep
        todo = list(roots) + [m for m in list(sys.modules.values()) if os.path.abspath(getattr(m, "__file__", None) or "/").startswith(root)]
        seen, total = set(), 0
        while todo:
            o = todo.pop()
            if id(o) in seen:
                continue
            seen.add(id(o))
            if isinstance(o, (dict, list, set, frozenset, tuple, collections.deque)):
                total += len(o)
                todo += list(o.values()) if isinstance(o, dict) else list(o)
            elif isinstance(o, types.FunctionType):
                todo += [o.__dict__, o.__defaults__, o.__kwdefaults__] + [c.cell_contents for c in o.__closure__ or () if c != types.CellType()]
            elif isinstance(o, (staticmethod, classmethod)):
                todo.append(o.__func__)
            else:
                m = sys.modules.get(getattr(o if isinstance(o, type) else type(o), "__module__", None) or "")
                own = m is not None and os.path.abspath(getattr(m, "__file__", None) or "/").startswith(root)
                if own or isinstance(o, types.ModuleType) and os.path.abspath(getattr(o, "__file__", None) or "/").startswith(root):
                    todo += [dict(getattr(o, "__dict__", None) or {})] + [getattr(o, n, None) for n in getattr(type(o), "__slots__", ()) if isinstance(n, str)]
                    todo.append(type(o))
        return total

    def use(self, text, parser, quiet):
        """One use of the library as a caller would; returns the number of objects it made."""
        t = obs.Tokenize()
        t.set_string_to_tokenize(text)
        t.set_whitespace(obs.STD_WS)
        t.tokenize()
        toks = t.get_tokens()
        ers = obs.ExtractedRouteSequence()
        parser.parse_f15(ers, toks)
        ers.as_xml()
        old, sys.stdout = sys.stdout, quiet
        try:
            ers.print_ers()
        finally:
            sys.stdout = old
        if self.watch is not None:
            for o in (toks, ers, t, parser, *toks.get_tokens(), *ers.get_all_elements(), *ers.get_all_errors()):
                try:
                    self.watch.append((type(o).__name__, weakref.ref(o)))
                except TypeError:
                    pass
        return toks.get_number_of_tokens() + ers.get_number_of_elements() + ers.get_number_of_errors()

    watch = None

    def dropped(self, texts, shared, st):
        """Everything made for these texts, the parser included, must be gone once the caller has let go of it."""
        self.watch = []
        parser = obs.ParseF15()
        for t in texts:
            self.use(t, parser if shared else obs.ParseF15(), Null())
        del parser
        watch, self.watch = self.watch, None
        gc.collect()
        if st is not None:
            st.cov["dropped objects looked for"] += len(watch)
        alive = sorted({n for n, w in watch if w() is not None})
        if alive:
            return "after parsing %r and dropping everything, objects are still alive: %s" % (texts, ", ".join(alive))
        return None

    def round(self, fields, shared, st):
        """Growth over passes that also grows with the work done per pass and does not end: an allocator that settles
        or a cache of limited size that is still filling up is no leak."""
        m, grown = self.passes(fields, shared, st)
        if not m:
            return None
        more, grown3 = self.passes(fields * 3, shared, None)
        if not more or grown3 < 2 * grown:
            return None
        few = list(fields)
        while len(few) > 1:
            half = [h for h in (few[:len(few) // 2], few[len(few) // 2:]) if self.passes(h * 2, shared, None)[0]]
            if not half:
                break
            few = half[0]
        few = list(dict.fromkeys(few))
        copies = 600 // len(few) + 1
        last, grown = self.passes(few * copies, shared, None, warm=15)
        # what leaks leaves something behind for every one of the four times `copies` uses counted; the interpreter's own caches do not
        return m + "; from %r" % few[:3] if last and grown >= 3 * copies else None

    def passes(self, fields, shared, st, warm=0):
        """Object counts and traced memory after each pass: what grows with every pass, and by how much (in objects or pieces of 8 bytes)."""
        counts, memory, held = [], [], []
        parser = obs.ParseF15()
        quiet = Null()
        tracemalloc.start()
        try:
            t0 = time.process_time()
            while time.process_time() - t0 < warm:
                for t in fields:
                    self.use(t, parser if shared else obs.ParseF15(), quiet)
            for p in range(self.PASSES):
                for t in fields:
                    made = self.use(t, parser if shared else obs.ParseF15(), quiet)
                    if st is not None:
                        st.cov["objects created"] += made
                gc.collect()
                getattr(sys, "_clear_type_cache", int)()     # the interpreter's own cache keeps names of attributes
                counts.append(self.live())
                snap = tracemalloc.take_snapshot().filter_traces([tracemalloc.Filter(True, os.path.abspath(obs.REPO) + "/*")])
                memory.append(sum(t.size for t in snap.traces))
                del snap
                held.append(self.held(parser))
                if st is not None:
                    st.cov["passes"] += 1
        finally:
            tracemalloc.stop()
        # the first two passes may fill caches; afterwards nothing may keep growing
        for k in set().union(*counts):
            c = [n.get(k, 0) for n in counts]
            if all(b > a for a, b in zip(c[1:], c[2:])):
                return "%s objects alive after passes 1-%d over the same %d fields: %s" % (k, self.PASSES, len(fields), c), c[-1] - c[1]
        if all(b > a for a, b in zip(held[1:], held[2:])):
            return "entries held by the code's modules, classes and parser after passes 1-%d over the same %d fields: %s" % (
                self.PASSES, len(fields), held), held[-1] - held[1]
        d = [b - a for a, b in zip(memory[1:], memory[2:])]
        if st is not None:
            st.cov["largest number of entries held"] = max(st.cov["largest number of entries held"], held[-1])
            k = "smallest later growth in bytes"
            st.cov[k] = min(st.cov[k], min(d)) if k in st.cov else min(d)
            st.cov["largest later growth in bytes"] = max([st.cov["largest later growth in bytes"]] + d)
        if min(d) >= 0 and sum(d) > 300:
            return "memory in use grows with every pass over the same %d fields: %s bytes" % (len(fields), memory), sum(d) / 8
        return None, 0

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w, "fields")
        for k in range({"quick": 2, "thorough": 8}[tier]):
            fields = self.fields(tier, r)
            shared = (k + w) % 2 == 0
            m = self.round(fields, shared, st)
            if m:
                st.viol.append(({"fields": fields, "shared": shared, "dropped": False}, m))
                return
            st.evals += len(fields) * self.PASSES
            st.seen.update(h64(f) for f in fields)
            for i in range(0, len(fields), 2):
                m = self.dropped(fields[i:i + 2], shared, st)
                if m:
                    st.viol.append(({"fields": fields[i:i + 2], "shared": shared, "dropped": True}, m))
                    return
            st.sample({"field": fields[0][:120]})
        # the same field over and over: what one kind of field leaves behind, another kind may clear away
        for k in range({"quick": 16, "thorough": 200}[tier]):
            if k % 2:
                c = r.choice(gen.CONTEXTS) + " " + r.choice(gen.ALPHABET)
            else:
                c = gen.mixed(r)[1]
            fields = [c] * 12
            shared = r.random() < .5
            m = self.round(fields, shared, st)
            if m:
                st.viol.append(({"fields": fields, "shared": shared, "dropped": False}, m))
                return
            st.cov["single fields repeated"] += 1
            st.evals += len(fields) * self.PASSES
            st.seen.add(h64(c))

    def replay(self, case):
        m = (self.dropped if case["dropped"] else self.round)(case["fields"], case["shared"], None)
        return [m] if m else []


ENV_CHECKS = {c.id: c for c in (C33, C34, C37)}
