"""Runs one check: spreads its workload over processes, collects what the monitors observed, writes evidence."""
import collections, faulthandler, hashlib, json, multiprocessing, os, random, re, resource, signal, sys, tempfile, \
    time, traceback

import multiprocessing.connection

import lex
import model
import obs

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVID, "replays")
PROCS = 8
MAX_VIOL = 5          # per worker


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode("utf-8", "backslashreplace"), digest_size=8).digest(), "big")


def thin(it, w, n):
    for i, c in enumerate(it):
        if i % n == w:
            yield c


class Stats:
    def __init__(self):
        self.evals = 0
        self.cov = collections.Counter()
        self.seen = set()
        self.sets = collections.defaultdict(set)
        self.samples = []
        self.viol = []
        self.incon = []
        self.truncated = False

    def sample(self, s, cap=3):
        if len(self.samples) < cap:
            self.samples.append(s)

    def merge(self, o):
        self.evals += o.evals
        for k, v in o.cov.items():
            # maxima and minima are merged as such, counts are added up
            if k.startswith(("longest ", "largest ")):
                self.cov[k] = max(self.cov[k], v)
            elif k.startswith("smallest "):
                self.cov[k] = min(self.cov[k], v) if k in self.cov else v
            else:
                self.cov[k] += v
        self.seen |= o.seen
        for k, v in o.sets.items():
            self.sets[k] |= v
        self.samples += o.samples
        self.viol += o.viol
        self.incon += o.incon
        self.truncated |= o.truncated


class Check:
    """A monitor plus its workload.

    work(tier, seed, w, nw, st) drives cases and calls the oracle; violations go to st.viol as
    (case, message) where case is JSON-serialisable and replay(case) re-judges it.
    """
    id = None
    rule = ""
    need = {}
    assumptions = []

    def work(self, tier, seed, w, nw, st):
        raise NotImplementedError

    def replay(self, case):
        raise NotImplementedError

    def shrink(self, case):
        return case

    def rng(self, seed, w, tag=""):
        return random.Random("%s/%s/%s/%s" % (self.id, seed, w, tag))

    def extra(self, st):
        return {}

    def rule_end(self, tier):
        return ""

    def finish(self, st, tier, seed):
        """Runs in the parent after the workers; may add violations."""


class FieldCheck(Check):
    """A check whose cases are single fields: judge(run, x, st) -> list of messages."""
    n_random = {"quick": 24000, "thorough": 400000}
    n_focus = {"quick": 30000, "thorough": 400000}
    depth = {"quick": None, "thorough": None}
    n_large = {"quick": 240, "thorough": 4000}      # fields of 60 to 450 elements
    n_blocks = {"quick": 39304, "thorough": 240000}  # sequences of three (all) and four groups of elements
    wall = {"quick": 300, "thorough": 700}

    def rule_end(self, tier):
        import gen
        n = self.n_blocks[tier]
        return "; all sequences of three of %d groups of elements and %d random sequences of four" % (len(gen.BLOCKS), n - 39304) if n >= 39304 else ""

    def focus(self, r):
        """A field of the workload aimed at this property (or None)."""
        return None

    def cases(self, tier, seed, w, nw):
        """Systematic part."""
        return ()

    def nontrivial(self, run, x):
        return True

    def judge(self, run, x, st):
        raise NotImplementedError

    def stream(self, tier, seed, w, nw):
        import gen
        r = self.rng(seed, w, "focus")
        for t in thin(self.cases(tier, seed, w, nw), w, nw):
            yield "systematic", t
        if self.depth[tier] is not None:
            for t in thin(gen.exhaustive(self.depth[tier]), w, nw):
                yield "exhaustive", t
        n = self.n_blocks[tier]
        if n:
            r2 = self.rng(seed, w, "blocks")
            for t in gen.blocks(r2, w, nw) if n >= 39304 else gen.blocks(r2, w, nw, 3, n // nw):
                yield "blocks", t
            if n > 39304:
                for t in gen.blocks(r2, w, nw, 4, (n - 39304) // nw):
                    yield "blocks", t
        nf = self.n_focus[tier] // nw
        for _ in range(nf):
            t = self.focus(r)
            if t is None:
                break
            yield "focus", gen.clean(t)
        r = self.rng(seed, w, "large")
        for _ in range(self.n_large[tier] // nw):
            yield "large", gen.large(r)
        if self.n_large[tier]:
            for _ in range(1 if tier == "quick" else 8):
                for t in gen.late(r, w, nw):
                    yield "large", t
        r = self.rng(seed, w, "mixed")
        for _ in range(self.n_random[tier] // nw):
            yield gen.mixed(r)

    def one(self, text, st):
        run = obs.observe(text)
        if run.exc:
            return run, None, ["parsing %s" % run.exc]
        toks = [t + lex.classify(t[0]) for t in lex.tokenize(text)]
        x = model.run(text, toks)
        try:
            return run, x, self.judge(run, x, st)
        except (AttributeError, ImportError, MemoryError, obs.Inconclusive):
            raise
        except Exception as e:
            # the oracles are total on the results the interface promises (numbers are numbers, texts are texts)
            return run, x, ["field %r: the result has values of unexpected kind: %s: %s" % (text, type(e).__name__, e)]

    def work(self, tier, seed, w, nw, st):
        t0 = time.time()
        for g, text in self.stream(tier, seed, w, nw):
            if time.time() - t0 > self.wall[tier]:
                st.truncated = True
                break
            try:
                run, x, msgs = self.one(text, st)
            except obs.Inconclusive as e:
                st.incon.append("%r: %s" % (text[:80], e))
                continue
            st.evals += 1
            st.cov["cases:" + g] += 1
            if msgs:
                st.viol.append(({"text": text}, msgs[0]))
                if len(st.viol) >= MAX_VIOL:
                    break
                continue
            if self.nontrivial(run, x):
                st.seen.add(h64([t[3:] for t in x.toks] + [len(run.errs)]))
                if g not in ("exhaustive", "systematic", "blocks") and st.evals % 97 == w % 7:
                    st.sample({"field": text[:160], "records": len(run.recs), "errors": len(run.errs)})
            st.cov["records"] += len(run.recs)
            st.cov["errors"] += len(run.errs)
            st.cov["error-free fields"] += not run.errs
            st.sets["grammar transitions"].update(h64(t) for t in x.trans)

    def replay(self, case):
        return self.one(case["text"], Stats())[2]

    def shrink(self, case):
        """Drop elements while the oracle still objects."""
        toks = [t for t, _, _ in lex.tokenize(case["text"])]
        best = case
        trials = 0
        changed = True
        t0 = time.time()
        while changed and trials < 300 and time.time() - t0 < 25:
            changed = False
            for size in (8, 4, 2, 1):
                i = 0
                while i < len(toks) and trials < 300 and time.time() - t0 < 25:
                    cand = toks[:i] + toks[i + size:]
                    trials += 1
                    text = " ".join(cand)
                    try:
                        ok = bool(self.replay({"text": text}))
                    except Exception:
                        ok = False
                    if ok and len(cand) < len(toks):
                        toks, best, changed = cand, {"text": text}, True
                    else:
                        i += 1
        return best


def raised_by_code(e):
    """Whether an exception the oracle did not expect was raised inside the code under test."""
    tb = traceback.extract_tb(e.__traceback__)
    return isinstance(e, Exception) and tb and os.path.abspath(tb[-1].filename).startswith(os.path.abspath(obs.REPO) + os.sep)


# ---- blocked executions ---------------------------------------------------------------------------------
# A worker that stops using processor time, with everything it started, while it is inside the code under test
# waits for something that does not come (a lock that was never released, a queue nobody fills): the field it is
# working on never gets a result. Judged by the stacks of the worker, not by time alone.

IDLE = 60             # seconds without processor time
DUMP = signal.SIGUSR2


def descendants(pid):
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        out.append(p)
        try:
            for t in os.listdir("/proc/%d/task" % p):
                with open("/proc/%d/task/%s/children" % (p, t)) as f:
                    todo += [int(c) for c in f.read().split()]
        except OSError:
            pass
    return out


def used(pid):
    """Clock ticks used by a process and all it started."""
    n = 0
    for p in descendants(pid):
        try:
            with open("/proc/%d/stat" % p) as f:
                v = f.read().rpartition(")")[2].split()
            n += sum(int(x) for x in v[11:15])
        except (OSError, IndexError, ValueError):
            pass
    return n


class Watch:
    def __init__(self, pid, path):
        self.pid, self.path = pid, path
        self.last, self.since = -1, time.monotonic()

    def blocked(self):
        """None, or the stack in the code under test in which the worker waits."""
        n = used(self.pid)
        # under 2 % of one processor counts as idle: pollers wake up now and then
        if self.last < 0 or n - self.last > 2 * (time.monotonic() - self.since) + 20:
            self.last, self.since = n, time.monotonic()
            return None
        if time.monotonic() - self.since < IDLE:
            return None
        self.last = -1
        with open(self.path, "r+b") as f:
            f.truncate(0)
        for p in descendants(self.pid):
            try:
                with open("/proc/%d/status" % p) as f:
                    caught = int(re.search(r"SigCgt:\s*(\w+)", f.read()).group(1), 16)
                if caught >> (DUMP - 1) & 1:
                    os.kill(p, DUMP)
                    time.sleep(.5)
            except (OSError, AttributeError, ValueError):
                pass
        with open(self.path) as f:
            text = f.read()
        root = os.path.abspath(obs.REPO) + os.sep
        for stack in re.split(r"\n(?=Thread |Current thread )", text):
            files = re.findall(r'File "([^"]*)", line', stack)
            own = [f for f in files if f.startswith((root, obs.HARNESS))]
            if own and own[0].startswith(root):
                return stack
        return None


def _worker(check, tier, seed, w, nw, conn, dump=None):
    if dump is not None:
        dumpfile = open(dump, "a")
        faulthandler.register(DUMP, file=dumpfile, all_threads=True)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    st = Stats()
    err = None
    try:
        check.work(tier, seed, w, nw, st)
    except BaseException as e:
        err = traceback.format_exc()
        if raised_by_code(e):
            st.viol.append(({"traceback": err}, "the code under test raised %s: %s" % (type(e).__name__, e)))
    conn.send((st, err))
    conn.close()


def shrunk(check, case, msg):
    """A smaller case that still fails, searched for in a process of its own with a time limit."""
    def go(conn):
        try:
            small = check.shrink(case)
            m = check.replay(small)
            conn.send((small, m[0]) if m else None)
        except BaseException:
            conn.send(None)
    ctx = multiprocessing.get_context("fork")
    a, b = ctx.Pipe(False)
    p = ctx.Process(target=go, args=(b,))
    p.start()
    b.close()
    got = None
    try:
        if a.poll(75):
            got = a.recv()
    except Exception:
        pass
    for q in reversed(descendants(p.pid)):
        try:
            os.kill(q, signal.SIGKILL)
        except OSError:
            pass
    p.join()
    return got or (case, msg)


def execute(check, tier, seed):
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    procs = []
    for w in range(PROCS):
        a, b = ctx.Pipe(False)
        fd, dump = tempfile.mkstemp(prefix="verif-stacks-")
        os.close(fd)
        p = ctx.Process(target=_worker, args=(check, tier, seed, w, PROCS, b, dump))
        p.start()
        b.close()
        procs.append((p, a, Watch(p.pid, dump)))
    st = Stats()
    errors = []
    waiting = list(procs)
    try:
        while waiting:
            ready = multiprocessing.connection.wait([a for _, a, _ in waiting], 3)
            for item in list(waiting):
                p, a, watch = item
                if a in ready:
                    try:
                        s, e = a.recv()
                        st.merge(s)
                        if e:
                            errors.append(e)
                    except EOFError:
                        errors.append("worker ended without a report")
                    p.join()
                    waiting.remove(item)
                    continue
                stack = watch.blocked()
                if stack:
                    for q in reversed(descendants(p.pid)):
                        try:
                            os.kill(q, signal.SIGKILL)
                        except OSError:
                            pass
                    p.join()
                    waiting.remove(item)
                    errors.append("blocked worker")
                    st.viol.append(({"blocked": stack}, "the code under test never returns: it uses no processor "
                                    "time for %d s and waits in\n%s" % (IDLE, stack)))
    finally:
        for _, _, watch in procs:
            os.unlink(watch.path)
    if not errors:
        try:
            check.finish(st, tier, seed)
        except Exception as e:
            errors.append(traceback.format_exc())
            if raised_by_code(e):
                st.viol.append(({"traceback": errors[-1]}, "the code under test raised %s: %s" % (type(e).__name__, e)))
    short = {k: (st.cov[k], v) for k, v in check.need.items() if st.cov[k] < v}
    viol = []
    os.makedirs(REPLAYS, exist_ok=True)
    for f in os.listdir(REPLAYS):
        if f.startswith(check.id + "-"):
            os.unlink(os.path.join(REPLAYS, f))
    for i, (case, msg) in enumerate(st.viol[:8]):
        path = os.path.join(REPLAYS, "%s-%d.json" % (check.id, i))
        small = case
        if i < 2 and not ("blocked" in case or "traceback" in case):
            small, msg = shrunk(check, case, msg)
        with open(path, "w") as f:
            json.dump({"property": check.id, "tier": tier, "seed": seed, "case": small, "original": case,
                       "message": msg, "replay": "sh check.sh %s --replay %s" % (check.id, path)}, f, indent=1)
        viol.append((path, msg))
    cov = {"evaluations": st.evals, "distinct_nontrivial": len(st.seen), "rule": check.rule + check.rule_end(tier),
           "samples": st.samples[:12] or [{"none": True}],
           "observed": {k: v for k, v in sorted(st.cov.items())},
           "distinct": {k: len(v) for k, v in sorted(st.sets.items())},
           "stopped_by_wall_cap": st.truncated, "inconclusive_cases": st.incon[:10]}
    cov.update(check.extra(st))
    os.makedirs(EVID, exist_ok=True)
    ev = {"property": check.id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "violations": len(st.viol),
          "assumptions": list(check.assumptions)}
    tmp = os.path.join(EVID, check.id + ".json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(EVID, check.id + ".json"))
    for path, msg in viol:
        print("  %s" % (msg if len(msg) < 1500 else msg[:900] + " ... " + msg[-500:]))
        print("VIOLATION property=%s replay=%s" % (check.id, path))
    if st.viol:
        return 1
    if errors:
        print("ERROR in the check itself:\n" + "\n".join(errors))
        return 2
    if st.incon:
        print("INCONCLUSIVE: %d cases, e.g. %s" % (len(st.incon), st.incon[0]))
        return 2
    if short:
        print("INCONCLUSIVE: the monitor observed too little: " + ", ".join("%s=%d<%d" % (k, a, b) for k, (a, b) in short.items()))
        return 2
    print("%s held on %d executions (%d distinct non-trivial) in %.1f s" % (check.id, st.evals, len(st.seen), time.time() - t0))
    return 0
