"""Monitors for the printed and XML output, histories, containers, layout and concurrency."""
import ast, collections, contextlib, copy, io, json, math, multiprocessing, os, pickle, random, subprocess, sys, threading, time
import xml.etree.ElementTree as ET

import gen
import lex
import model
import obs
import runner
from runner import Check, FieldCheck, h64, thin

J = " ".join


def xml_legal(text):
    return all(c in "\t\n\r" or 0x20 <= ord(c) <= 0xD7FF or 0xE000 <= ord(c) <= 0xFFFD or ord(c) >= 0x10000 for c in text)


MARKUP = ["<", ">", "&", "\"", "'", "&amp;", "&lt;", "&#65;", "<a>", "</ers>", "<!--", "-->", "<![CDATA[", "]]>", "a&b", "\"x\"", "<ers_record", "&&", "é", "日本",
          "\u0085", "\u2028", "\ufffd", "😀", "A&B<C>\"D'", "%s", "{0}", "\\", "=", "><", "'&'"]


def spiced(r, t):
    for _ in range(r.randint(1, 4)):
        m = r.choice(MARKUP)
        i = r.randint(0, len(t))
        k = r.random()
        if k < .5 or not t:
            t.insert(i, m)
        elif t[i - 1] != "/":
            t[i - 1] = r.choice((t[i - 1] + m, m + t[i - 1], m * 9))
    return t


class C21(FieldCheck):
    id = "C21"
    rule = ("random valid, mutated and soup fields with markup and non-ASCII texts in elements, break texts and errors, plus all "
            "continuations of 41 contexts by 1 (quick) or 2 elements; XML read back with the standard parser; non-trivial: "
            "distinct sequence of element types and number of errors")
    depth = {"quick": 1, "thorough": 2}
    n_focus = {"quick": 40000, "thorough": 500000}
    need = {"documents": 20000, "entries compared": 100000, "markup in names": 3000, "markup in break text": 500, "documents without errors": 3000,
            "repeated error entries": 40}

    def focus(self, r):
        k = r.random()
        if k < .05:
            # several errors about one element, equal or not
            t = [gen.sa(r, 0), "DCT", gen.named(r), "C", "/", gen.named(r), "/", gen.saa(r, .8)] + gen.soup(r, 2)
            return gen.join(r, t)
        if k < .4:
            t = gen.valid_tokens(r, 14, {"break": 4, "sv": 2})
            # free text inside the break sections
            for i in range(len(t) - 1, 0, -1):
                if t[i] in ("VFR", "OAT", "IFPSTOP") or t[i].endswith("VFR"):
                    for _ in range(r.randint(0, 2)):
                        t.insert(i + 1, r.choice(MARKUP))
            return gen.join(r, t)
        if k < .8:
            return gen.join(r, spiced(r, gen.valid_tokens(r, 12, {"break": 2})))
        return gen.join(r, spiced(r, gen.soup(r)))

    FIELDS = [("start_index", "start", str), ("end_index", "end", str), ("base_type", None, None), ("sub_type", None, None),
              ("speed", "speed", str), ("speed_si", "speed_si", "%.2f"), ("altitude", "alt", str), ("altitude_si", "alt_si", "%.2f"),
              ("bearing", "bearing", "%.2f"), ("distance", "dist", "%.2f"), ("flight_rules", "rules", str), ("stay_time", "stay", str),
              ("altitude_cruise_to", "cr_to", str), ("altitude_cruise_to_si", "cr_si", "%.2f"), ("latitude", "lat", "%.2f"), ("longitude", "lon", "%.2f")]

    def entry(self, el, p, raw, text_attr, text):
        for name, slot, how in self.FIELDS:
            got = el.attrib.get(name)
            if slot is None:
                want = str(int(raw.get_base_type() if name == "base_type" else raw.get_sub_type()))
            else:
                v = getattr(p, slot)
                want = str(v) if how is str else how % v
            if got != want:
                return "attribute %s is %r, the record has %r" % (name, got, want)
        if el.attrib.get(text_attr, None) != text:
            return "attribute %s is %r, the record has %r" % (text_attr, el.attrib.get(text_attr), text)
        if (el.text or "") != p.name:
            return "text is %r, the record is named %r" % (el.text, p.name)
        if len(el):
            return "entry has children"
        return None

    def judge(self, run, x, st):
        if not xml_legal(run.text):
            st.cov["not XML text, skipped"] += 1
            return []
        try:
            doc = run.ers.as_xml()
        except Exception as e:
            return ["field %r: as_xml raised %s: %s" % (run.text, type(e).__name__, e)]
        st.cov["documents"] += 1
        try:
            root = ET.fromstring(doc)
        except ET.ParseError as e:
            return ["field %r: XML output not well formed: %s" % (run.text, e)]
        st.cov["documents without errors"] += not run.errs
        if root.tag != "ers":
            return ["field %r: root element %r" % (run.text, root.tag)]
        d = root.findall("derived_flight_rules")
        if len(d) != 1 or (d[0].text or "") != run.derived:
            return ["field %r: derived rules element %r, the result has %r" % (run.text, [e.text for e in d], run.derived)]
        recs = list(root.iter("ers_record"))
        errs = list(root.iter("error_record"))
        if len(recs) != len(run.recs) or len(errs) != len(run.errs):
            return ["field %r: %d record and %d error entries for %d records and %d errors" % (run.text, len(recs), len(errs), len(run.recs), len(run.errs))]
        raws = run.ers.get_all_elements()
        eraws = run.ers.get_all_errors()
        for el, p, raw in zip(recs, run.recs, raws):
            st.cov["entries compared"] += 1
            st.cov["markup in names"] += any(c in "<>&\"'" for c in p.name)
            st.cov["markup in break text"] += any(c in "<>&\"'" for c in p.brk)
            m = self.entry(el, p, raw, "break_text", p.brk)
            if m:
                return ["field %r: entry for record %s: %s" % (run.text, p.show(), m)]
        for el, p, raw in zip(errs, run.errs, eraws):
            st.cov["entries compared"] += 1
            st.cov["markup in names"] += any(c in "<>&\"'" for c in p.name)
            m = self.entry(el, p, raw, "error_text", p.err)
            if m:
                return ["field %r: entry for error %s: %s" % (run.text, p.show(), m)]
        st.cov["repeated error entries"] += any(a.start == b.start and a.err == b.err for a, b in zip(run.errs, run.errs[1:]))
        k = run.key()
        if obs.snap(run).key() != k:
            return ["field %r: exporting changed the result" % run.text]
        if run.ers.as_xml() != doc:
            return ["field %r: exporting twice gives different documents" % run.text]
        return []


class C22(FieldCheck):
    id = "C22"
    rule = ("random valid, mutated, soup, markup and long-name fields plus all continuations of 41 contexts by 1 (quick) or 2 "
            "elements, printed to a captured console; the shipped example run as a program; non-trivial: distinct sequence of "
            "element types and number of errors")
    depth = {"quick": 1, "thorough": 2}
    n_focus = {"quick": 30000, "thorough": 400000}
    n_random = {"quick": 30000, "thorough": 300000}
    need = {"printed results": 20000, "record lines": 60000, "error lines": 20000, "example runs": 1}

    def focus(self, r):
        k = r.random()
        if k < .5:
            t = gen.valid_tokens(r, 18, {"break": 2, "climb": 2, "stay": 2, "coord": 5})
            return gen.join(r, spiced(r, t) if r.random() < .3 else t)
        return gen.join(r, gen.mutate(r, gen.valid_tokens(r, 18)))

    @staticmethod
    def line_problem(line, p, text):
        if not line.startswith(p.name):
            return "does not start with the name"
        rest = line[len(p.name):]
        if text and text not in rest:
            return "does not contain the text %r" % text
        head = rest
        if text:
            head = rest[:rest.rindex(text)]
        # the values of all columns, whatever their widths
        sq = "".join(head.split())
        left = str(p.start) + str(p.end)
        right = "".join(("%s" * 4 + "%.2f" * 2 + "%s" * 4 + "%.2f" * 2) % (
            p.speed, p.speed_si, p.alt, p.alt_si, p.bearing, p.dist, p.rules, p.stay, p.cr_to, p.cr_si, p.lat, p.lon)).split()
        right = "".join(right)
        mid = sq[len(left):len(sq) - len(right)]
        if not sq.startswith(left) or not sq.endswith(right) or len(sq) <= len(left) + len(right) or not mid.isdigit():
            return "shows %r, expected %s, two types, %s" % (sq, left, right)
        if p.end > 9999:
            return None     # wider than the columns: they may run together
        w = head.split()
        if w[:2] != [str(p.start), str(p.end)]:
            return "shows indices %s" % w[:2]
        w = w[2:]
        # the values in column order; columns without a value are blank
        want = [str(v) for v in (p.speed, p.alt, p.rules) if v]
        it = iter(w)
        for v in want:
            if v not in it:
                return "does not show %r" % v
        # base type, sub type, speed, SI speed, level (the next columns may run together)
        cols = [None, None] + [str(v) for v in (p.speed, p.speed_si, p.alt) if v != ""]
        if len(w) >= len(cols):
            for a, b in zip(cols, w):
                if a is not None and a != b:
                    return "shows %r where %r belongs" % (b, a)
        return None

    def judge(self, run, x, st):
        out = io.StringIO()
        key = run.key()
        try:
            with contextlib.redirect_stdout(out):
                run.ers.print_ers()
        except Exception as e:
            return ["field %r: print_ers raised %s: %s" % (run.text, type(e).__name__, e)]
        st.cov["printed results"] += 1
        lines = out.getvalue().split("\n")

        def bad(m):
            return ["field %r: printed output %s" % (run.text, m)]
        heads = [(i, l) for i, l in enumerate(lines) if l.startswith("Total Number of Extracted Route Records: ")]
        eheads = [(i, l) for i, l in enumerate(lines) if l.startswith("Total Number of Errors: ")]
        if len(heads) != 1 or len(eheads) != 1:
            return bad("has %d record totals and %d error totals" % (len(heads), len(eheads)))
        if heads[0][1].split(": ")[1] != str(len(run.recs)) or eheads[0][1].split(": ")[1] != str(len(run.errs)):
            return bad("counts %s, %s for %d records and %d errors" % (heads[0][1], eheads[0][1], len(run.recs), len(run.errs)))
        body = [l for l in lines[heads[0][0] + 1:eheads[0][0]] if l.strip()][2:]
        ebody = [l for l in lines[eheads[0][0] + 1:] if l.strip()][2:]
        if len(body) != len(run.recs) or len(ebody) != len(run.errs):
            return bad("has %d record lines and %d error lines for %d records and %d errors" % (len(body), len(ebody), len(run.recs), len(run.errs)))
        for l, p in zip(body, run.recs):
            st.cov["record lines"] += 1
            m = self.line_problem(l, p, p.brk)
            if m:
                return bad("line %r for record %s %s" % (l, p.show(), m))
        for l, p in zip(ebody, run.errs):
            st.cov["error lines"] += 1
            m = self.line_problem(l, p, p.err)
            if m:
                return bad("line %r for error %s %s" % (l, p.show(), m))
        for raw, p, er in [(a, b, False) for a, b in zip(run.ers.get_all_elements(), run.recs)] + [(a, b, True) for a, b in zip(run.ers.get_all_errors(), run.errs)]:
            try:
                s = raw.to_string(er)
            except Exception as e:
                return ["field %r: to_string raised %s: %s" % (run.text, type(e).__name__, e)]
            m = self.line_problem(s, p, p.err if er else p.brk)
            if m:
                return ["field %r: to_string of %s %s" % (run.text, p.show(), m)]
        tout = io.StringIO()
        try:
            with contextlib.redirect_stdout(tout):
                run.tokens.print_tokens()
                run.ers.as_xml()
        except Exception as e:
            return ["field %r: printing tokens or exporting raised %s: %s" % (run.text, type(e).__name__, e)]
        tl = [l for l in tout.getvalue().split("\n") if l.strip(" ")]
        if not tl or tl[0].split(": ")[-1] != str(len(run.toks)):
            return ["field %r: token print-out counts %r for %d tokens" % (run.text, tl[:1], len(run.toks))]
        tl = tl[3:]
        if len(tl) != len(run.toks):
            return ["field %r: %d token lines for %d tokens" % (run.text, len(tl), len(run.toks))]
        for l, t in zip(tl, run.toks):
            l2 = l.lstrip(" ")
            w = l2[len(t[0]):].split()[:2]
            if not l2.startswith(t[0]) or (w != [str(t[1]), str(t[2])] if t[2] < 10000 else not "".join(w).startswith("%d%d" % t[1:3])):
                return ["field %r: token line %r for %r" % (run.text, l, t[:3])]
        if obs.snap(run).key() != key or obs.snap_tokens(run.tokens) != run.toks:
            return ["field %r: printing changed the result" % run.text]
        return []

    def example(self):
        env = {k: v for k, v in os.environ.items() if k != "PYTHONPATH"}
        env["PYTHONIOENCODING"] = "utf-8"
        try:
            p = subprocess.run([sys.executable, "-B", "main.py"], cwd=obs.REPO, capture_output=True, text=True, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            raise obs.Inconclusive("main.py still running after 120 s")
        if p.returncode:
            return "main.py ended with status %d: %s" % (p.returncode, p.stderr.strip().splitlines()[-1:])
        # which field did it analyse?  any string literal of it whose printed result is what main.py printed
        outs = []
        for node in ast.walk(ast.parse(open(os.path.join(obs.REPO, "main.py"), encoding="utf-8").read())):
            if isinstance(node, ast.Constant) and isinstance(node.value, str):
                run = obs.observe(node.value)
                if run.exc:
                    continue
                o = io.StringIO()
                with contextlib.redirect_stdout(o):
                    run.ers.print_ers()
                if len(run.recs) > 2 and o.getvalue() in p.stdout:
                    return None
                outs.append(node.value)
        return "main.py printed %r, not the result of any of its fields" % p.stdout[:300]

    def finish(self, st, tier, seed):
        st.cov["example runs"] += 1
        m = self.example()
        if m:
            st.viol.append(({"example": True}, m))
        o = io.StringIO()
        try:
            with contextlib.redirect_stdout(o):
                obs.F15TokenSyntaxDefinition().print_descriptions()
        except Exception as e:
            st.viol.append(({"descriptions": True}, "print_descriptions raised %s: %s" % (type(e).__name__, e)))

    def replay(self, case):
        if "example" in case:
            m = self.example()
            return [m] if m else []
        if "descriptions" in case:
            try:
                with contextlib.redirect_stdout(io.StringIO()):
                    obs.F15TokenSyntaxDefinition().print_descriptions()
            except Exception as e:
                return [repr(e)]
            return []
        return super().replay(case)

    def shrink(self, case):
        return super().shrink(case) if "text" in case else case


# ---- C23 ------------------------------------------------------------------------------------------------

NEVER = "never returns: all threads wait and none of them makes a step"


class Baton:
    """Runs thread bodies one at a time; at traced points of the code under test the seeded scheduler may
    hand over to another thread. The schedule is a function of the seed alone."""
    patience = 1.0

    def __init__(self, seed, p, opcodes):
        self.r = random.Random(seed)
        self.p = p
        self.opcodes = opcodes
        self.lock = threading.Condition()
        self.live = []
        self.turn = None
        self.switches = 0
        self.points = 0
        self.stolen = 0
        self.trace_hash = 0
        self.still = None
        self.prefix = os.path.abspath(obs.REPO) + os.sep

    def tracer(self, frame, event, arg):
        if not os.path.abspath(frame.f_code.co_filename).startswith(self.prefix):
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
        return self.local

    def wait_turn(self, me):
        """Called with the lock held. A thread that holds the turn but is blocked (on a lock of the code under
        test that a waiting thread owns, say) would stop everything: then the turn is given to another one."""
        while self.turn != me:
            p = self.points
            if not self.lock.wait(Baton.patience) and self.points == p and self.turn != me and len(self.live) > 1:
                self.turn = self.r.choice([t for t in self.live if t != self.turn])
                self.stolen += 1
                Baton.patience = 0.02
                if self.stolen > 10:
                    self.p /= 4
                self.lock.notify_all()

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line"):
            self.points += 1
            if self.stolen and self.turn != threading.get_ident():
                with self.lock:
                    self.wait_turn(threading.get_ident())
            if self.r.random() < self.p:
                self.hand_over(frame.f_lineno)
        return self.local

    def hand_over(self, where):
        me = threading.get_ident()
        with self.lock:
            others = [t for t in self.live if t != me]
            if not others:
                return
            self.turn = self.r.choice(others)
            self.switches += 1
            self.trace_hash = hash((self.trace_hash, self.live.index(self.turn), where))
            self.lock.notify_all()
            self.wait_turn(me)

    def run(self, bodies):
        res = [None] * len(bodies)
        ready = []

        def main(i):
            me = threading.get_ident()
            with self.lock:
                ready.append((i, me))
                self.lock.notify_all()
                while self.turn != me:
                    self.lock.wait()
            sys.settrace(self.tracer)
            try:
                res[i] = ("ok", bodies[i]())
            except BaseException as e:
                res[i] = ("exc", "%s: %s" % (type(e).__name__, e))
            finally:
                sys.settrace(None)
                with self.lock:
                    self.live.remove(me)
                    self.turn = self.r.choice(self.live) if self.live else None
                    self.lock.notify_all()
        ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(bodies))]
        for t in ths:
            t.start()
        with self.lock:
            while len(ready) < len(bodies):
                self.lock.wait()
            self.live = [ident for _, ident in sorted(ready)]
            self.turn = self.r.choice(self.live)
            self.lock.notify_all()
        for i, t in enumerate(ths):
            while t.is_alive():
                t.join(1)
                if t.is_alive() and self.deadlocked():
                    return [v or ("exc", NEVER) for v in res]
        return res

    def deadlocked(self):
        """No thread has executed a step for a while (the turn is handed on all the time) nor used the processor:
        they all wait, for each other or for something nobody will do."""
        now = (self.points, time.monotonic(), time.process_time())
        if self.still is None or self.still[0] != now[0] or now[2] - self.still[2] > .1 * (now[1] - self.still[1]) + .2:
            self.still = now
        return now[1] - self.still[1] > 30


class C23(Check):
    id = "C23"
    rule = ("2-4 threads, each tokenizing, parsing and exporting 1-2 fields with its own tokenizer, token list and result, sharing one parser or not, under a seeded "
            "scheduler that switches threads at source lines or single bytecodes of the code under test with probability 1/200 to 1/2; plus "
            "free-running threads with a 1 microsecond switch interval; the first parses of 400 processes raced under the scheduler; every result compared with the one obtained alone; "
            "non-trivial: distinct interleavings (sequence of switches) with at least 3 switches")
    need = {"first parses of a process raced": 300, "switches": 20000, "interleavings": 300, "free-running parses": 1500, "threads compared": 1000}
    FEATURES = ["N0450F350 ABC B9 DEF/N0460F360 12N034E 13N035E180060 STAY1/0130 C/GHI/N0470F370F390 OAT X Y GAT JKL",
                "N0450VFR FREE TEXT IFR ABC/N0300F100 DCT DEF", "K0830S1130 ABC VFR ONE TWO IFR DEF/M082F350 ABC1A", "M082F351 ?? ABC 91N034E ! B9 B9 STAR X",
                "N0450F350 SID ABC IFPSTOP A B IFPSTART DEF C/GHI/K0830S1130M0840 STAR", "", "N0450F350 ABC T"]

    def program(self, r):
        n = r.choice((2, 2, 2, 3, 4))
        progs = []
        for _ in range(n):
            fs = []
            for _ in range(r.choice((1, 1, 2))):
                k = r.random()
                if k < .3:
                    fs.append(r.choice(self.FEATURES))
                elif k < .6:
                    fs.append(gen.join(r, gen.valid_tokens(r, 12, {"break": 2, "climb": 2, "stay": 2})))
                else:
                    fs.append(gen.mixed(r)[1][:300])
            progs.append(fs)
        if r.random() < .3:
            progs[1] = list(progs[0])
        return progs

    @staticmethod
    def body(fields, parser, export):
        def go():
            out = []
            for f in fields:
                run = obs.parse_raw(f, parser)
                out.append(run.key() + (tuple(run.toks), run.ers.as_xml() if export else None))
            return out
        return go

    def reference(self, progs, export):
        return [self.body(fs, None, export)() for fs in progs]

    @staticmethod
    def child(fn):
        """The value of fn() in a process of its own."""
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(rd)
                with obs.cpu_guard(60):
                    v = ("ok", fn())
            except BaseException as e:
                v = ("exc", "%s: %s" % (type(e).__name__, e))
            try:
                with os.fdopen(wr, "wb") as f:
                    pickle.dump(v, f)
            finally:
                os._exit(0)
        os.close(wr)
        with os.fdopen(rd, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else ("exc", "the process died")

    def cold(self, case, st):
        """The first parses of a process, concurrent: whatever is set up on first use is set up under the scheduler."""
        progs = case["progs"]
        alone = [self.child(lambda: [repr(x) for x in self.body(fs, None, True)()]) for fs in progs]

        def go():
            b = Baton(case["seed"], case["p"], case["opcodes"])
            parser = obs.ParseF15() if case["shared"] else None
            res = b.run([self.body(fs, parser, True) for fs in progs])
            return [(k, [repr(x) for x in v] if k == "ok" else v) for k, v in res], b.switches, b.trace_hash
        how, got = self.child(go)
        st.cov["first parses of a process raced"] += 1
        if how == "exc":
            return "threads parsing %r as the first of a process: %s" % (progs, got)
        res, switches, trace = got
        st.cov["switches in first parses"] += switches
        if switches >= 3:
            st.seen.add(h64((trace, progs, "cold")))
        for i, (a, b) in enumerate(zip(res, alone)):
            st.cov["threads compared"] += 1
            if a != b:
                if "exc" in (a[0], b[0]):
                    return "thread %d of %r, first parses of a process: %.200r instead of %.200r" % (i, progs, a, b)
                j = next(j for j in range(len(b[1])) if a[1][j] != b[1][j])
                return "thread %d, first parse of a process: field %r parsed concurrently with %r gives %.300s instead of %.300s" % (
                    i, progs[i][j], [p for k, p in enumerate(progs) if k != i], a[1][j], b[1][j])
        return None

    def one(self, case, st):
        progs = case["progs"]
        if case["kind"] == "cold":
            return self.cold(case, st)
        try:
            ref = self.reference(progs, True)
        except Exception as e:
            return "field in %r alone raised %s: %s" % (progs, type(e).__name__, e)
        parser = obs.ParseF15() if case["shared"] else None
        if case["kind"] == "baton":
            b = Baton(case["seed"], case["p"], case["opcodes"])
            res = b.run([self.body(fs, parser, True) for fs in progs])
            st.cov["switches"] += b.switches
            st.cov["scheduling points"] += b.points
            st.cov["schedules"] += 1
            if b.switches >= 3:
                st.seen.add(h64((b.trace_hash, progs)))
        else:
            res = self.free(progs, parser, case["rounds"])
            st.cov["free-running parses"] += sum(len(p) for p in progs) * case["rounds"]
        for i, (a, b_) in enumerate(zip(res, ref)):
            st.cov["threads compared"] += 1
            if a[0] == "exc":
                return "thread %d of %r (%s) raised %s" % (i, progs, case, a[1])
            if a[1] != b_:
                return "thread %d: fields %r parsed concurrently with %r differ from parsing alone (%s)" % (
                    i, progs[i], [p for j, p in enumerate(progs) if j != i], self.where(a[1], b_))
        # and the objects are still good afterwards
        if self.reference(progs, True) != ref:
            return "after concurrent parses of %r the fields give other results alone" % (progs,)
        return None

    @staticmethod
    def where(a, b):
        for x, y in zip(a, b):
            for n, u, v in zip(("verdict", "derived rules", "records", "errors", "tokens", "XML"), x, y):
                if u != v:
                    return "%s: %.150r instead of %.150r" % (n, u, v)
        return "?"

    def free(self, progs, parser, rounds):
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        res = [None] * len(progs)
        gate = threading.Barrier(len(progs))

        def main(i):
            try:
                gate.wait()
                first = None
                for _ in range(rounds):
                    v = self.body(progs[i], parser, True)()
                    if first is None:
                        first = v
                    elif v != first:
                        res[i] = ("ok", v if v != first else first)
                        first = v
                        res[i] = ("exc", "different results for the same field while other threads ran")
                        return
                res[i] = ("ok", first)
            except BaseException as e:
                res[i] = ("exc", "%s: %s" % (type(e).__name__, e))
        try:
            ths = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(len(progs))]
            for t in ths:
                t.start()
            since, cpu = time.monotonic(), time.process_time()
            for t in ths:
                while t.is_alive():
                    t.join(1)
                    now, used = time.monotonic(), time.process_time()
                    if used - cpu > .1 * (now - since) + .2:
                        since, cpu = now, used
                    if now - since > 40:
                        return [v or ("exc", NEVER) for v in res]
        finally:
            sys.setswitchinterval(old)
        return res

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w)
        t0 = time.time()
        n = {"quick": 4000, "thorough": 60000}[tier] // nw
        rc = self.rng(seed, w, "cold")
        for i in range({"quick": 400, "thorough": 4000}[tier] // nw):        # before anything is parsed in this process
            progs = self.program(rc)[:3]
            if rc.random() < .4:
                progs = [[f[:60]] for p in progs for f in p[:1]]
            case = {"kind": "cold", "progs": progs, "shared": rc.random() < .7, "seed": rc.getrandbits(48),
                    "p": rc.choice((.003, .01, .05, .3)), "opcodes": rc.random() < .25}
            st.evals += 1
            bad = self.one(case, st)
            if bad:
                st.viol.append((case, bad))
                return
        for i in range(n):
            if time.time() - t0 > {"quick": 120, "thorough": 700}[tier]:
                st.truncated = True
                break
            progs = self.program(r)
            if r.random() < .12:
                case = {"kind": "free", "progs": progs, "shared": r.random() < .7, "rounds": 12}
            else:
                case = {"kind": "baton", "progs": progs, "shared": r.random() < .7, "seed": r.getrandbits(48),
                        "p": r.choice((.005, .02, .1, .5)), "opcodes": r.random() < .25}
                if case["opcodes"]:
                    case["p"] /= 4
            st.evals += 1
            bad = self.one(case, st)
            if i % 100 == 3:
                st.sample(case)
            if bad:
                st.viol.append((case, bad))
                if len(st.viol) >= 2 or NEVER in bad:
                    break
        st.cov["interleavings"] = len(st.seen)

    def replay(self, case):
        for _ in range(40 if case["kind"] == "free" else 1):
            b = self.one(case, runner.Stats())
            if b:
                return [b]
        return []

    def shrink(self, case):
        best = case
        for i in range(len(case["progs"])):
            if len(best["progs"]) > 2:
                c = dict(best, progs=[p for j, p in enumerate(best["progs"]) if j != i])
                if self.replay(c):
                    best = c
                    break
        return best


# ---- C24 ------------------------------------------------------------------------------------------------

FRESH = r"""
import json, sys
sys.path.insert(0, %r)
import obs, hashlib
for line in sys.stdin:
    f = json.loads(line)
    try:
        run = obs.parse_raw(f)
        k = repr(run.key() + (tuple(run.toks), run.ers.as_xml()))
    except Exception as e:
        k = "exc " + repr(e)
    print(hashlib.sha256(k.encode("utf-8", "backslashreplace")).hexdigest(), flush=True)
"""


class C24(Check):
    id = "C24"
    rule = ("histories of 20-80 operations (parse with fresh or shared parser, tokenizer and token list, re-parse of the same token list, "
            "export, failing fields, the same field again) over a pool of fields; after every history all results obtained earlier are "
            "compared with their snapshots; each field's result is compared with the one of a process that parsed nothing before; one "
            "history of thousands of parses per worker; non-trivial: distinct histories")
    need = {"parses": 20000, "earlier results re-checked": 20000, "compared with a fresh process": 4000, "re-parsed token lists": 2000,
            "parses screened for left-over state": 8000, "siblings compared with a fresh process": 1000}

    @staticmethod
    def digest(run):
        import hashlib
        k = repr(run.key() + (tuple(run.toks), run.ers.as_xml()))
        return hashlib.sha256(k.encode("utf-8", "backslashreplace")).hexdigest()

    def fresh_each(self, fields):
        """Digest of every field, each parsed in its own child of a process that has parsed nothing."""
        out = []
        for f in fields:
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    with obs.cpu_guard(60):
                        d = self.digest(obs.parse_raw(f))
                except BaseException as e:
                    d = "exc %r" % e
                os.write(wr, d.encode())
                os._exit(0)
            os.close(wr)
            data = b""
            while True:
                b = os.read(rd, 4096)
                if not b:
                    break
                data += b
            os.close(rd)
            os.waitpid(pid, 0)
            out.append(data.decode())
        return out

    def zygote(self):
        """A process that has parsed nothing yet and forks a new child for every field it is given -> digest of the field."""
        a, b = os.pipe()
        c, d = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(b)
            os.close(c)
            try:
                for line in os.fdopen(a, "r", encoding="utf-8"):
                    os.write(d, (self.fresh_each([json.loads(line)])[0].replace("\n", " ")[:500] + "\n").encode("utf-8", "replace"))
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        wr, rd = os.fdopen(b, "w", encoding="utf-8"), os.fdopen(c, "r", encoding="utf-8")

        def ask(field):
            wr.write(json.dumps(field) + "\n")
            wr.flush()
            return rd.readline().rstrip("\n")

        def stop():
            wr.close()
            rd.close()
            os.waitpid(pid, 0)
        return ask, stop

    @staticmethod
    def sibling(r, f):
        """The field with one element replaced by one that has much in common with it."""
        toks = lex.tokenize(f)
        cand = [t for t in toks if t[0] != "/"]
        if not cand:
            return f + " "
        t, s, e = max(r.sample(cand, min(2, len(cand))), key=lambda x: len(x[0]))
        k = r.randint(0, len(t))
        n = r.random()

        def fill(part):
            how = r.random()
            if how < .3:
                return "".join(r.choice("ABCNSEW") for _ in part)
            if how < .6:
                return "".join(r.choice("0123456789") for _ in part)
            return "".join(r.choice("0123456789") if c.isdigit() else r.choice("ABCFMNSEW") for c in part)
        if n < .45:
            v = t[:k] + fill(t[k:])
        elif n < .65:
            v = fill(t[:k]) + t[k:]
        elif n < .75:
            v = t[:k] + r.choice("A0?") + t[k:]
        elif n < .85:
            v = (t[:k] + t[k + 1:]) or "A"
        elif n < .92:
            v = t.swapcase()
        else:
            c = list(t)
            r.shuffle(c)
            v = "".join(c)
        return gen.clean(f[:s] + v + f[e:])

    def pool(self, r, n):
        fs = ["", " ", "N0450F350 ABC", "?? ABC", "N0450F350 ABC/N0460F360 DEF"]
        while len(fs) < n:
            k = r.random()
            if k < .35:
                fs.append(gen.join(r, gen.valid_tokens(r, 14, {"break": 2, "climb": 2})))
            elif k < .45:
                a = r.choice(fs)
                fs.append(a + r.choice((" ", "/", " XYZ", " T", "\n")))
            elif k < .55:
                # same element texts at other places
                t = [x for x, _, _ in lex.tokenize(r.choice(fs))]
                r.shuffle(t)
                fs.append(J(t))
            else:
                fs.append(gen.mixed(r)[1][:400])
        return fs

    def history(self, fields, refs, script, st):
        parser = obs.ParseF15()
        tk = obs.Tokenize()
        tk.set_whitespace(obs.STD_WS)
        held = []      # (what, run or tokens, snapshot)
        lists = []
        for step, (op, k) in enumerate(script):
            f, ref = fields[k], refs[k]
            try:
                if op == "fresh":
                    run = obs.parse_raw(f)
                elif op == "shared parser":
                    run = obs.parse_raw(f, parser)
                elif op in ("shared tokenizer", "shared all"):
                    tk.set_string_to_tokenize(f)
                    tk.tokenize()
                    run = obs.Run()
                    run.text, run.tokens, run.ers = f, tk.get_tokens(), obs.ExtractedRouteSequence()
                    run.verdict = (parser if op == "shared all" else obs.ParseF15()).parse_f15(run.ers, run.tokens)
                    run.toks = obs.snap_tokens(run.tokens)
                    obs.snap(run)
                    if tk.get_string_to_tokenize() != f or tk.get_whitespace() != obs.STD_WS:
                        return "step %d: the input text or whitespace set of the tokenizer changed" % step
                elif op == "again":
                    if not lists:
                        continue
                    k2, tokens, was = lists[-1 - (step % len(lists))]
                    k = k2
                    f, ref = fields[k], refs[k]
                    run = obs.Run()
                    run.text, run.tokens, run.ers = f, tokens, obs.ExtractedRouteSequence()
                    run.verdict = parser.parse_f15(run.ers, tokens)
                    run.toks = obs.snap_tokens(tokens)
                    st.cov["re-parsed token lists"] += 1
                    if run.toks != was:
                        return "step %d: parsing the token list of %r again changed it from %r to %r" % (step, f, was[:8], run.toks[:8])
                    obs.snap(run)
                elif op == "export":
                    if not held:
                        continue
                    h = held[step % len(held)]
                    h[1].ers.as_xml()
                    with contextlib.redirect_stdout(io.StringIO()):
                        h[1].ers.print_ers()
                    continue
            except Exception as e:
                if ref.startswith("exc"):
                    continue
                return "step %d (%s) on %r raised %s: %s" % (step, op, f, type(e).__name__, e)
            st.cov["parses"] += 1
            st.cov["compared with a fresh process"] += 1
            d = self.digest(run)
            if d != ref:
                return "step %d (%s): field %r gives another result than in a fresh process: %s" % (
                    step, op, f, [r_.show() for r_ in run.recs][:6] + [e.err for e in run.errs][:4])
            if [(t, s, e) for t, s, e, _, _ in run.toks] != lex.tokenize(f):
                return "step %d (%s): token list of %r is %r after parsing" % (step, op, f, run.toks[:8])
            lists.append((k, run.tokens, run.toks))
            held.append((f, run, run.key(), run.toks))
            if len(held) > 30:
                held.pop(0)
                lists = lists[-30:]
            if step % 7 == 0 or step == len(script) - 1:
                for f0, r0, key, toks in held:
                    st.cov["earlier results re-checked"] += 1
                    if obs.snap_tokens(r0.tokens) != toks:
                        return "step %d (%s): the token list of %r obtained earlier changed" % (step, op, f0)
                    if obs.snap(r0).key() != key:
                        return "step %d (%s) on %r: the result of %r obtained earlier changed" % (step, op, f, f0)
        return None

    # -- histories chosen by what they leave behind --------------------------------------------------------

    @staticmethod
    def state(objs):
        """Digest of every value reachable from the modules and classes of the code under test (and from objs), by place.

        Only used to choose histories worth following up, never to judge: code may keep what it likes."""
        import types
        out = {}
        todo = [("%s.%s" % (n, k), v) for n, m in list(sys.modules.items())
                if getattr(m, "__file__", None) and os.path.abspath(m.__file__).startswith(obs.REPO + os.sep)
                for k, v in list(vars(m).items()) if not k.startswith("__")] + list(objs)
        seen = set()
        while todo and len(seen) < 20000:
            n, v = todo.pop()
            if isinstance(v, (int, float, str, bytes, bool, type(None), tuple, frozenset)) or type(v).__module__ == "re":
                out[n] = hash(v) if not isinstance(v, tuple) else hash(repr(v))
                continue
            if id(v) in seen or isinstance(v, types.ModuleType):
                continue
            seen.add(id(v))
            if isinstance(v, dict):
                out[n + "{}"] = (len(v), hash(repr(list(v)[:400])))
                todo += [("%s[%.20r]" % (n, k), w) for k, w in list(v.items())[:400]]
            elif isinstance(v, (list, set)) or type(v).__name__ == "deque":
                out[n + "[]"] = len(v)
                todo += [("%s[%d]" % (n, k), w) for k, w in enumerate(list(v)[:400])]
            elif isinstance(v, type):
                if (v.__module__ or "") in sys.modules and os.path.abspath(getattr(sys.modules[v.__module__], "__file__", None) or "/").startswith(obs.REPO + os.sep):
                    todo += [("%s.%s" % (n, k), w) for k, w in list(vars(v).items()) if not k.startswith("__")]
            elif isinstance(v, (types.FunctionType, staticmethod, classmethod)):
                f = getattr(v, "__func__", v)
                todo += [("%s(%d)" % (n, k), w) for k, w in enumerate(getattr(f, "__defaults__", None) or ())]
                todo += [("%s<%d>" % (n, k), c.cell_contents) for k, c in enumerate(getattr(f, "__closure__", None) or ()) if c is not None]
                todo += [("%s.%s" % (n, k), w) for k, w in list(vars(f).items())]
                if hasattr(f, "cache_info"):
                    out[n + "()"] = hash(f.cache_info())
            elif hasattr(v, "cache_info"):
                out[n + "()"] = hash(v.cache_info())
            else:
                for k in getattr(type(v), "__slots__", None) or ():
                    if isinstance(k, str) and hasattr(v, k):
                        todo.append(("%s.%s" % (n, k), getattr(v, k)))
                try:
                    todo += [("%s.%s" % (n, k), w) for k, w in list(vars(v).items())]
                except TypeError:
                    pass
        return out

    def battery(self, r):
        """Few fields that between them draw every message and grammar transition the workload reaches."""
        got, out = set(), []
        for i in range(2500):
            f = gen.join(r, gen.mutate(r, gen.valid_tokens(r, 8))) if i % 3 else J(gen.soup(r, 4))
            f = gen.clean(f)
            x = model.run(f, [t + lex.classify(t[0]) for t in lex.tokenize(f)])
            new = {("m", e.msg) for e in x.errs} | {("k", t[3], t[4]) for t in x.toks} | {("t",) + tuple(map(str, t)) for t in x.trans}
            if not new <= got:
                got |= new
                out.append(f)
        return out[:400]

    def follow_up(self, tier, r, bat, refs, st, ask):
        """Parses many fields; whenever one leaves a place of the modules' state changed in a way seen rarely so far, the whole battery is
        parsed again and compared with the fresh process."""
        parser, tk = obs.ParseF15(), obs.Tokenize()
        tk.set_whitespace(obs.STD_WS)
        objs = [("parser", parser), ("tokenizer", tk)]
        times = collections.Counter()
        recent = []
        was = self.state([objs[0]])
        t0, spent, kin = time.time(), 0, 0
        limit = {"quick": 5, "thorough": 150}[tier]
        for i in range({"quick": 2500, "thorough": 60000}[tier]):
            f = gen.join(r, gen.mutate(r, gen.valid_tokens(r, 10))) if i % 4 else gen.mixed(r)[1][:300]
            f = gen.clean(f)
            try:
                run = obs.parse_raw(f, parser if i % 2 else None)
                run.ers.as_xml()
            except Exception as e:
                return [f], "field %r after others: raised %s: %s" % (f, type(e).__name__, e)
            recent = (recent + [f])[-40:]
            st.cov["parses screened for left-over state"] += 1
            now = self.state([objs[0]])
            st.sets["places of state watched"].update(list(now)[:5000] if i < 2 else ())
            diff = [k for k in now if was.get(k) != now[k]] + [k for k in was if k not in now]
            was = now
            if not diff:
                continue
            st.cov["parses that left something changed"] += 1
            if kin < 2 * limit:
                # what was left behind may be about this very field: fields that resemble it
                t1 = time.time()
                for _ in range(6):
                    g = self.sibling(r, f)
                    st.cov["siblings compared with a fresh process"] += 1
                    ref = ask(g)
                    try:
                        d = self.digest(obs.parse_raw(g, parser if i % 3 else None))
                    except Exception as e:
                        d = "exc %r" % e
                    if d != ref and not (d.startswith("exc") and ref.startswith("exc")):
                        return recent + [g], "field %r gives another result after %r than in a fresh process%s" % (g, f, ": " + d if d.startswith("exc") else "")
                    recent = (recent + [g])[-40:]
                was = self.state([objs[0]])
                kin += time.time() - t1
            sig = tuple(sorted({k.split("[")[0] for k in diff}))
            times[sig] += 1
            n = times[sig]
            if n > 20 and n & (n - 1) or time.time() - t0 > 3 * limit and n > 3:
                continue
            t1 = time.time()
            st.cov["follow-ups"] += 1
            for g, ref in zip(bat, refs):
                st.cov["compared with a fresh process"] += 1
                try:
                    d = self.digest(obs.parse_raw(g, parser if n % 2 else None))
                except Exception as e:
                    d = "exc %r" % e
                if d != ref:
                    return recent + [g], "field %r gives another result after %r than in a fresh process%s" % (g, f, ": " + d if d.startswith("exc") else "")
            was = self.state([objs[0]])
            spent += time.time() - t1
            if spent > limit and n > 3:
                times[sig] = 1 << 40
        return None, None

    OPS = ["fresh", "shared parser", "shared parser", "shared tokenizer", "shared all", "shared all", "again", "export"]

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w)
        ask, stop = self.zygote()
        fields = self.pool(r, {"quick": 150, "thorough": 700}[tier])
        refs = self.fresh_each(fields)          # this process has parsed nothing so far
        bat = self.battery(r)
        brefs = self.fresh_each(bat)
        st.sets["fields of the battery"].update(bat)
        for f, d in zip(fields, refs):
            if d.startswith("exc") or not d:
                st.viol.append(({"fields": [f], "script": []}, "field %r in a fresh process: %s" % (f, d)))
                return
        if w == 0:
            # a really new interpreter, everything in one process, in another order
            order = list(range(len(fields)))
            r.shuffle(order)
            p = subprocess.run([sys.executable, "-B", "-c", FRESH % os.path.dirname(os.path.abspath(__file__))], text=True, capture_output=True, timeout=600,
                               input="".join(json.dumps(fields[i]) + "\n" for i in order))
            got = p.stdout.split()
            st.cov["compared across interpreters"] += len(got)
            for i, d in zip(order, got):
                if d != refs[i]:
                    st.viol.append(({"fields": fields, "script": [["fresh", j] for j in order]}, "field %r gives another result in a new interpreter after other fields" % fields[i]))
                    return
            if len(got) != len(order):
                raise RuntimeError("subprocess: " + p.stderr[-500:])
        fs, bad = self.follow_up(tier, r, bat, brefs, st, ask)
        for f in fields if not bad else ():
            # once more without any sign of anything left behind
            g = self.sibling(r, f)
            st.cov["siblings compared with a fresh process"] += 1
            try:
                obs.parse_raw(f)
                d = self.digest(obs.parse_raw(g))
            except Exception as e:
                d = "exc %r" % e
            if d != ask(g):
                fs, bad = [f, g], "field %r gives another result after %r than in a fresh process%s" % (g, f, ": " + d if d.startswith("exc") else "")
                break
        stop()
        if bad:
            st.viol.append(({"fields": fs, "script": [["shared parser", k] for k in range(len(fs))]}, bad))
            return
        for i in range({"quick": 60, "thorough": 1500}[tier]):
            n = r.choice((20, 40, 80)) if i else {"quick": 2500, "thorough": 20000}[tier]
            local = r.sample(range(len(fields)), min(len(fields), r.choice((2, 5, 40)) if i else len(fields)))
            script = [[r.choice(self.OPS), r.choice(local)] for _ in range(n)]
            st.evals += 1
            bad = self.history(fields, refs, script, st)
            st.seen.add(h64(script))
            st.cov["longest history"] = max(st.cov["longest history"], n)
            if i % 20 == 1:
                st.sample({"fields": [fields[k] for k in local[:3]], "script": script[:10]})
            if bad:
                st.viol.append(({"fields": fields, "script": script}, bad))
                return

    def replay(self, case):
        fields, script = case["fields"], case["script"]
        refs = self.fresh_each(fields)
        if not script:
            return ["field %r: %s" % (f, d) for f, d in zip(fields, refs) if d.startswith("exc") or not d]
        # the history itself in a child, so that this process stays pristine
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                b = self.history(fields, refs, script, runner.Stats()) or ""
            except BaseException as e:
                b = "raised %r" % e
            os.write(wr, b.encode("utf-8", "backslashreplace")[:4000])
            os._exit(0)
        os.close(wr)
        data = b""
        while True:
            c = os.read(rd, 4096)
            if not c:
                break
            data += c
        os.close(rd)
        os.waitpid(pid, 0)
        return [data.decode("utf-8", "replace")] if data else []

    def shrink(self, case):
        fields, script = case["fields"], case["script"]
        if not script:
            return case
        used = sorted({k for _, k in script})
        fields = [fields[k] for k in used]
        script = [[o, used.index(k)] for o, k in script]
        size = max(1, len(script) // 2)
        trials = 0
        while size and trials < 60:
            i = 0
            while i < len(script) and trials < 60:
                t = script[:i] + script[i + size:]
                trials += 1
                if t and self.replay({"fields": fields, "script": t}):
                    script = t
                else:
                    i += size
            size //= 2
        used = sorted({k for _, k in script})
        return {"fields": [fields[k] for k in used], "script": [[o, used.index(k)] for o, k in script]}


# ---- C25 / C26: containers against list models -------------------------------------------------------------

class History(Check):
    """random and exhaustive operation sequences against a model; case = {"ops": [...]}"""
    lens = (1, 3, 8, 20, 60)

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w)
        for ops in thin(self.exhaustive(tier), w, nw):
            if not self.try_ops(ops, st):
                return
        for i in range({"quick": self.count, "thorough": self.count * 15}[tier] // nw):
            ops = [self.op(r) for _ in range(r.choice(self.lens))]
            if i % 1000 == 0:
                st.sample({"ops": ops[:12]})
            if not self.try_ops(ops, st):
                return

    def try_ops(self, ops, st):
        st.evals += 1
        bad = self.play(ops, st)
        st.seen.add(h64(ops))
        if bad:
            st.viol.append(({"ops": ops}, bad))
            return len(st.viol) < runner.MAX_VIOL
        return True

    def exhaustive(self, tier):
        return ()

    def play(self, ops, st):
        raise NotImplementedError

    def replay(self, case):
        b = self.play(case["ops"], runner.Stats())
        return [b] if b else []

    def shrink(self, case):
        ops = list(case["ops"])
        i = 0
        while i < len(ops):
            t = ops[:i] + ops[i + 1:]
            if self.play(t, runner.Stats()):
                ops = t
            else:
                i += 1
        return {"ops": ops}


class C25(History):
    id = "C25"
    count = 60000
    rule = ("every sequence of up to 5 (quick) or 6 (thorough) of 13 token-list operations and random sequences of up to 60 with "
            "all arguments, two lists used side by side, and tokens edited through their setters, against a list with an integer cursor, which is "
            "probed after each operation without moving it; non-trivial: distinct operation sequences")
    need = {"operations": 300000, "answers compared": 300000, "probes": 100000, "navigation outside the list": 20000, "probes of long lists": 300}
    BASIC = [["append"], ["append"], ["insert", 0], ["insert", 1], ["truncate", 0], ["truncate", 1], ["first"], ["last"], ["next"], ["previous"],
             ["peek+", 1], ["peek-", 1], ["current"]]

    def exhaustive(self, tier):
        import itertools
        for n in range(1, {"quick": 5, "thorough": 6}[tier]):
            for c in itertools.product(self.BASIC[1:], repeat=n):
                yield [list(o) for o in c]

    def op(self, r):
        k = r.random()
        if k < .25:
            return ["append"]
        if k < .28:
            return ["create"]
        if k < .2815:
            return ["bulk", r.choice((30, 70, 101, 130, 260, 300, 520))]
        if k < .31:
            return ["again", r.randint(0, 8)]
        if k < .4:
            return ["insert", r.choice((0, 1, 2, 5, r.randint(0, 300), 1000))]
        if k < .46:
            return ["truncate", r.choice((-1, 0, 1, 2, 5, 100, r.randint(0, 300)))]
        if k < .55:
            return ["edit", r.randint(0, 8), r.choice(("string", "start", "end", "base", "sub")), r.randint(0, 99)]
        if k < .6:
            return ["swap"]
        if k < .7:
            return [r.choice(("peek+", "peek-")), r.choice((0, 1, 1, 2, 3, 10, r.randint(0, 300)))]
        if k < .75:
            return ["at", r.choice((-3, -1, 0, 1, 2, 5, 1000, r.randint(0, 300)))]
        return [r.choice(("first", "last", "next", "next", "next", "previous", "previous", "current"))]

    def play(self, ops, st):
        sides = [(obs.Tokens(), [], [0]), (obs.Tokens(), [], [0])]
        real, mod, cur = sides[0]
        n = 0
        try:
            for step, op in enumerate(ops):
                st.cov["operations"] += 1
                k = op[0]

                def at(i):
                    if not 0 <= i < len(mod):
                        st.cov["navigation outside the list"] += 1
                        return None
                    return mod[i]
                got = want = None
                if k in ("append", "insert", "create"):
                    n += 1
                    vals = ["T%d" % n, n * 3, n * 3 + 2, obs.TokenBaseType.F15_UNKNOWN, obs.TokenSubType.F15_SB_UNKNOWN]
                    if k == "create":
                        real.create_append_token(vals[0], vals[1], vals[2])
                        obj = real.get_tokens()[-1]
                    else:
                        obj = obs.Token(vals[0], vals[1], vals[2])
                    if k == "append":
                        real.append_token(obj)
                    if k == "insert":
                        i = min(op[1], len(mod))
                        real.insert_token(obj, i)
                        mod.insert(i, [obj] + vals)
                    else:
                        mod.append([obj] + vals)
                elif k == "bulk":
                    for _ in range(op[1]):
                        n += 1
                        vals = ["T%d" % n, n * 3, n * 3 + 2, obs.TokenBaseType.F15_UNKNOWN, obs.TokenSubType.F15_SB_UNKNOWN]
                        obj = obs.Token(vals[0], vals[1], vals[2])
                        real.append_token(obj)
                        mod.append([obj] + vals)
                elif k == "again":
                    if not mod:
                        continue
                    m = mod[op[1] % len(mod)]
                    real.append_token(m[0])
                    mod.append(m)
                elif k == "truncate":
                    real.remove_tokens_from_end_of_list(op[1])
                    del mod[op[1] + 1:]
                elif k == "edit":
                    if not mod:
                        continue
                    m = mod[op[1] % len(mod)]
                    j = ("string", "start", "end", "base", "sub").index(op[2])
                    v = "E%d" % op[3] if j == 0 else list(obs.TokenBaseType)[op[3] % len(obs.TokenBaseType)] if j == 3 else \
                        list(obs.TokenSubType)[op[3] % len(obs.TokenSubType)] if j == 4 else op[3]
                    (m[0].set_token_string, m[0].set_token_start_index, m[0].set_token_end_index, m[0].set_token_base_type, m[0].set_token_sub_type)[j](v)
                    m[j + 1] = v
                elif k == "swap":
                    sides.reverse()
                    real, mod, cur = sides[0]
                elif k == "first":
                    cur[0] = 0
                    got, want = real.get_first_token(), at(0)
                elif k == "last":
                    cur[0] = len(mod) - 1
                    got, want = real.get_last_token(), at(cur[0])
                elif k == "next":
                    cur[0] += 1
                    got, want = real.get_next_token(), at(cur[0])
                elif k == "previous":
                    cur[0] -= 1
                    got, want = real.get_previous_token(), at(cur[0])
                elif k == "peek+":
                    got, want = real.peek_next_token(op[1]), at(cur[0] + op[1])
                    if op[1] == 1 and real.peek_next_token() is not got:
                        return "step %d of %r: peek_next_token() is not peek_next_token(1)" % (step, ops)
                elif k == "peek-":
                    got, want = real.peek_previous_token(op[1]), at(cur[0] - op[1])
                    if op[1] == 1 and real.peek_previous_token() is not got:
                        return "step %d of %r: peek_previous_token() is not peek_previous_token(1)" % (step, ops)
                elif k == "current":
                    got, want = real.get_current_token(), at(cur[0])
                elif k == "at":
                    got, want = real.get_token_at(op[1]), at(op[1])
                st.cov["answers compared"] += 1
                if got is not (want and want[0]):
                    return "step %d of %r: %s returned %s, expected %s" % (step, ops, op, got and got.get_token_string(), want and want[1])
                # probe without moving the cursor
                for real_, mod_, cur_ in sides:
                    st.cov["probes"] += 1
                    if real_.get_number_of_tokens() != len(mod_) or len(real_.get_tokens()) != len(mod_):
                        return "step %d of %r: %d tokens, expected %d" % (step, ops, real_.get_number_of_tokens(), len(mod_))
                    for i, m in enumerate(mod_):
                        o = real_.get_token_at(i)
                        if o is not m[0] or real_.get_tokens()[i] is not m[0]:
                            return "step %d of %r: token at %d is %s, expected %s" % (step, ops, i, o and o.get_token_string(), m[1])
                        v = [o.get_token_string(), o.get_token_start_index(), o.get_token_end_index(), o.get_token_base_type(), o.get_token_sub_type()]
                        if v != m[1:]:
                            return "step %d of %r: token at %d reads %r, expected %r" % (step, ops, i, v, m[1:])
                    big = len(mod_)
                    st.cov["probes of long lists"] += big > 100
                    # with a long list, also far from the cursor on both sides and just beyond both ends
                    for off in (-1, 0, 1, 2) if big < 30 else sorted({-1, 0, 1, 2, 127, 128, 129, 255, 256, 257, -128, -129, -255, -256, -257,
                                                                       big // 2, -(big // 2), big, -big, -cur_[0], -cur_[0] - 1, big - cur_[0] - 1, big - cur_[0]}):
                        i = cur_[0] + off
                        w = mod_[i][0] if 0 <= i < len(mod_) else None
                        o = real_.peek_next_token(off) if off > 0 else real_.get_current_token() if off == 0 else real_.peek_previous_token(-off)
                        if o is not w:
                            return "step %d of %r: relative to the cursor %+d is %s, expected %s" % (
                                step, ops, off, o and o.get_token_string(), w and w.get_token_string())
        except Exception as e:
            return "operations %r raised %s: %s" % (ops, type(e).__name__, e)
        return None


REC_FIELDS = [("name", "set_name", "get_name", "s"), ("start", "set_start_index", "get_start_index", "i"), ("end", "set_end_index", "get_end_index", "i"),
              ("base", "set_base_type", "get_base_type", "b"), ("sub", "set_sub_type", "get_sub_type", "u"), ("speed", "set_speed", "get_speed", "s"),
              ("speed_si", "set_speed_si", "get_speed_si", "f"), ("alt", "set_altitude", "get_altitude", "s"),
              ("alt_si", "set_altitude_si", "get_altitude_si", "f"), ("cr", "set_altitude_cruise_to", "get_altitude_cruise_to", "s"),
              ("cr_si", "set_altitude_cruise_to_si", "get_altitude_cruise_to_si", "f"), ("rules", "set_flight_rules", "get_flight_rules", "s"),
              ("brk", "set_break_text", "get_break_text", "s"), ("err", "set_error_text", "get_error_text", "s"), ("lat", "set_latitude", "get_latitude", "f"),
              ("lon", "set_longitude", "get_longitude", "f"), ("valid", "set_lat_long_valid", "is_lat_long_valid", "t"),
              ("bearing", "set_bearing", "get_bearing", "f"), ("dist", "set_distance", "get_distance", "f")]
DEFAULTS = {"speed": "", "speed_si": 0, "alt": "", "alt_si": 0, "cr": "", "cr_si": 0, "rules": "", "brk": "", "err": "", "lat": 0, "lon": 0, "valid": False,
            "bearing": 0, "dist": 0, "stay": 0}


class C26(History):
    id = "C26"
    count = 40000
    rule = ("every sequence of up to 4 (quick) or 5 (thorough) container operations and random sequences of up to 60 on two containers side by side: appends, created "
            "records, errors, derived rules, every record setter with arbitrary values, break and error texts, stay times; all "
            "accessors and all indices from -4 to beyond the end compared with plain lists after each; non-trivial: distinct operation sequences")
    need = {"operations": 200000, "index reads": 500000, "record fields read": 500000, "stay times set": 3000, "comparisons of long containers": 50}
    lens = (1, 3, 8, 20)

    def exhaustive(self, tier):
        import itertools
        B = [["append"], ["create"], ["error", "A!B", "x ! y !"], ["ades"], ["derived", "Y"], ["swap"], ["set", 0, "speed", "N0450"], ["break", 0, "X"],
             ["break", 1, "Y Z"], ["stay", 0, "0130"], ["new"], ["again", -1]]
        for n in range(1, {"quick": 4, "thorough": 5}[tier]):
            for c in itertools.product(B, repeat=n):
                yield [list(o) for o in c]

    def val(self, r, kind):
        if kind == "s":
            return r.choice(("", "A", "N0450", "F350", "!", "<x>", "two words", "é", "VFR"))
        if kind == "i":
            return r.choice((0, 1, -1, 7, 10 ** 6))
        if kind == "t":
            return r.random() < .5
        if kind == "f":
            return r.choice((0, 0.0, 1.5, -33.25, 10668, 359.999, 1e7))
        return r.randint(0, 60)

    def op(self, r):
        k = r.random()
        if k < .2:
            return ["append"]
        if k < .28:
            return ["create"]
        if k < .281:
            return [r.choice(("bulk", "bulk errors")), r.choice((30, 70, 101, 130, 260, 300))]
        if k < .31:
            return ["again", r.choice((-1, -1, r.randint(0, 9)))]
        if k < .4:
            return ["error", r.choice(("A", "A!B", "", "!", "N0450F350")), r.choice(("plain", "x ! y", "!", "! and !"))]
        if k < .43:
            return ["ades"]
        if k < .47:
            return ["derived", r.choice("IVYZ")]
        if k < .52:
            return ["swap"]
        if k < .54:
            return ["new"]
        if k < .6:
            return ["break", r.randint(0, 9), self.val(r, "s") or "X"]
        if k < .66:
            return ["errtext", r.randint(0, 9), self.val(r, "s") or "X"]
        if k < .74:
            return ["stay", r.randint(0, 9), "%02d%02d" % (r.randint(0, 23), r.randint(0, 59))]
        f = r.choice(REC_FIELDS)
        return ["set", r.randint(0, 9), f[0], self.val(r, f[3])]

    def fresh(self, name, s, e, b, u):
        m = dict(DEFAULTS, name=name, start=s, end=e, base=b, sub=u)
        return m

    def adopt(self):
        E = obs.ExtractedRouteSequence()
        first = E.get_all_elements()
        if len(first) != 1 or E.get_number_of_errors() != 0:
            raise AssertionError("a new container holds %d records and %d errors" % (len(first), E.get_number_of_errors()))
        m = self.fresh("ADEP", 0, 0, obs.TokenBaseType.F15_POINT, obs.TokenSubType.F15_SB_PRP_AERO)
        return [E, [(first[0], m)], [], ""]

    def play(self, ops, st):
        B, U = list(obs.TokenBaseType), list(obs.TokenSubType)
        try:
            sides = [self.adopt(), self.adopt()]
            olds = []
            n = 0
            for step, op in enumerate(ops):
                st.cov["operations"] += 1
                E, recs, errs, _ = sides[0]
                k = op[0]
                if k in ("append", "create"):
                    n += 1
                    a = ("R%d" % n, n, n + 2, B[n % len(B)], U[n % len(U)])
                    if k == "append":
                        o = obs.ExtractedRouteRecord(*a)
                        ret = E.append_element(o)
                        if ret is not o:
                            return "step %d of %r: append_element did not return the record" % (step, ops)
                    else:
                        o = E.create_append_element(*a)
                        if o is None or o is not E.get_all_elements()[-1]:
                            return "step %d of %r: create_append_element did not return the new record" % (step, ops)
                    recs.append((o, self.fresh(*a)))
                elif k == "bulk":
                    for _ in range(op[1]):
                        n += 1
                        a = ("R%d" % n, n, n + 2, B[n % len(B)], U[n % len(U)])
                        o = obs.ExtractedRouteRecord(*a)
                        E.append_element(o)
                        recs.append((o, self.fresh(*a)))
                elif k == "bulk errors":
                    for _ in range(op[1]):
                        n += 1
                        a = ("E%d" % n, n, n + 1, B[n % len(B)], U[n % len(U)])
                        E.add_error(*a, "x ! y")
                        m = self.fresh(*a)
                        m["err"] = "x E%d y" % n
                        errs.append((E.get_all_errors()[-1], m))
                elif k == "again":
                    o, m = recs[op[1] % len(recs)]
                    if E.append_element(o) is not o:
                        return "step %d of %r: append_element did not return the record" % (step, ops)
                    recs.append((o, m))
                elif k == "error":
                    n += 1
                    a = (op[1], n, n + 1, B[n % len(B)], U[n % len(U)])
                    E.add_error(*a, op[2])
                    o = E.get_all_errors()[-1]
                    m = self.fresh(*a)
                    m["err"] = op[2].replace("!", op[1])
                    errs.append((o, m))
                elif k == "ades":
                    o = E.add_dummy_ades()
                    recs.append((o, self.fresh("ADES", 0, 0, obs.TokenBaseType.F15_POINT, obs.TokenSubType.F15_SB_PRP_AERO)))
                elif k == "derived":
                    E.set_derived_flight_rules(op[1])
                    sides[0][3] = op[1]
                elif k == "swap":
                    sides.reverse()
                elif k == "new":
                    olds.append(sides[0])
                    sides[0] = self.adopt()
                elif k in ("break", "errtext", "stay", "set"):
                    allr = recs + errs
                    o, m = allr[op[1] % len(allr)]
                    if k == "break":
                        o.append_break_text(op[2])
                        m["brk"] = op[2] if m["brk"] == "" else m["brk"] + " " + op[2]
                    elif k == "errtext":
                        o.append_error_text(op[2])
                        m["err"] = op[2] if m["err"] == "" else m["err"] + " " + op[2]
                    elif k == "stay":
                        st.cov["stay times set"] += 1
                        o.set_stay_time(op[2])
                        m["stay"] = int(op[2][:2]) * 60 + int(op[2][2:])
                    else:
                        f = next(f for f in REC_FIELDS if f[0] == op[2])
                        v = op[3]
                        if f[3] == "b":
                            v = B[v % len(B)]
                        elif f[3] == "u":
                            v = U[v % len(U)]
                        getattr(o, f[1])(v)
                        m[f[0]] = v
                for side in sides + (olds if step == len(ops) - 1 else []):
                    bad = self.compare(side, st)
                    if bad:
                        return "step %d of %r: %s" % (step, ops, bad)
        except Exception as e:
            return "operations %r raised %s: %s" % (ops, type(e).__name__, e)
        return None

    def compare(self, side, st):
        E, recs, errs, derived = side
        n = len(recs)
        if E.get_number_of_elements() != n or len(E.get_all_elements()) != n:
            return "%r records, expected %d" % (E.get_number_of_elements(), n)
        if E.get_number_of_errors() != len(errs) or len(E.get_all_errors()) != len(errs):
            return "%r errors, expected %d" % (E.get_number_of_errors(), len(errs))
        if E.get_derived_flight_rules() != derived:
            return "derived rules %r, expected %r" % (E.get_derived_flight_rules(), derived)
        st.cov["comparisons of long containers"] += n > 100
        for i in range(-4 - (n if n > 30 else 0), n + 3 + (n if n > 30 else 0)):
            st.cov["index reads"] += 1
            w = recs[i][0] if 0 <= i < n else None
            if E.get_element_at(i) is not w:
                return "element at %d is %s, expected %s" % (i, E.get_element_at(i) and E.get_element_at(i).get_name(), w and w.get_name())
        if E.get_first_element() is not recs[0][0] or E.get_last_element() is not recs[-1][0]:
            return "first or last element wrong"
        if E.get_previous_to_last_element() is not (recs[-2][0] if n > 1 else None):
            return "last but one element is wrong"
        for lst, src in ((recs, E.get_all_elements()), (errs, E.get_all_errors())):
            for i, (o, m) in enumerate(lst):
                if src[i] is not o:
                    return "entry %d of the list is another object" % i
                for f in REC_FIELDS:
                    st.cov["record fields read"] += 1
                    v = getattr(o, f[2])()
                    if v != m[f[0]] or type(v) is bool and type(m[f[0]]) is not bool:
                        return "record %r: %s is %r, expected %r" % (m["name"], f[2], v, m[f[0]])
                if o.get_stay_time() != m["stay"]:
                    return "record %r: stay time %r, expected %r" % (m["name"], o.get_stay_time(), m["stay"])
        return None


# ---- C27 ------------------------------------------------------------------------------------------------

class C27(FieldCheck):
    id = "C27"
    rule = ("random fields and all continuations of 41 contexts by 1 (quick) or 2 elements, each compared with 3 re-laid-out versions "
            "(runs of blanks, tabs, CR, LF of 1-200 characters, around '/', at both ends, none around '/'); non-trivial: distinct "
            "sequence of element types and number of errors")
    depth = {"quick": 1, "thorough": 2}
    n_focus = {"quick": 12000, "thorough": 200000}
    n_random = {"quick": 16000, "thorough": 200000}
    need = {"pairs": 30000, "pairs with break text": 2000, "pairs with errors": 5000}

    def focus(self, r):
        return gen.join(r, gen.mutate(r, gen.valid_tokens(r, 20)) if r.random() < .5 else gen.valid_tokens(r, 20, {"break": 3}))

    @staticmethod
    def relay(toks, r):
        """-> text and start indices"""
        def ws():
            k = r.random()
            if k < .5:
                return r.choice(" \n\t\r")
            return "".join(r.choice(" \n\t\r") for _ in range(r.choice((2, 3, 5, 80) if k < .97 else (200,))))
        style = r.randrange(5)
        out, pos, starts = [], 0, []
        for i, t in enumerate(toks):
            slash = i and (t == "/" or toks[i - 1] == "/")
            if i == 0:
                g = "" if r.random() < .5 else ws()
            elif style == 0:
                g = "" if slash else " "
            elif style == 1:
                g = "\n" if not slash or r.random() < .5 else ""
            elif style == 2:
                g = "\t"
            else:
                g = "" if slash and r.random() < .5 else ws()
            out += [g, t]
            starts.append(pos + len(g))
            pos += len(g) + len(t)
        out.append("" if r.random() < .5 else ws())
        return "".join(out), starts

    def judge(self, run, x, st):
        toks = [t[0] for t in x.toks]
        r = random.Random(h64(run.text))
        for _ in range(3):
            text, starts = self.relay(toks, r)
            other = obs.observe(text)
            if other.exc:
                return ["field %r, laid out differently: %r: parsing %s" % (run.text, text, other.exc)]
            st.cov["pairs"] += 1
            st.cov["pairs with errors"] += bool(run.errs)
            st.cov["pairs with break text"] += any(p.brk for p in run.recs)
            m = {t[1]: s for t, s in zip(x.toks, starts)}

            def proj(p, shift):
                k = dict((n, getattr(p, n)) for n in p.__slots__)
                if shift and not (p.start == p.end == 0):
                    s = m.get(p.start)
                    k["end"] = None if s is None else s + p.end - p.start
                    k["start"] = s
                return {n: repr(v) for n, v in k.items()}
            if (run.verdict, run.derived, len(run.recs), len(run.errs)) != (other.verdict, other.derived, len(other.recs), len(other.errs)):
                return ["fields %r and %r differ only in layout: verdict, rules, records, errors %r and %r" % (
                    run.text, text, (run.verdict, run.derived, len(run.recs), len(run.errs)), (other.verdict, other.derived, len(other.recs), len(other.errs)))]
            for what, A, B in (("record", run.recs, other.recs), ("error", run.errs, other.errs)):
                for p, q in zip(A, B):
                    a, b = proj(p, True), proj(q, False)
                    if a != b:
                        d = [n for n in a if a[n] != b[n]]
                        return ["fields %r and %r differ only in layout, but %s %s differs in %s: %s and %s" % (
                            run.text, text, what, p.show(), d, [a[n] for n in d], [b[n] for n in d])]
        return []

    def shrink(self, case):
        return case


OUTPUT_CHECKS = {c.id: c for c in (C21, C22, C23, C24, C25, C26, C27)}
