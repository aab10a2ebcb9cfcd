"""Monitors for totality, tokenizing, classification, unit conversion and the helper functions."""
import itertools, json, math, os, re, sys, threading

import gen
import geo
import lex
import model
import obs
import runner
from runner import Check, FieldCheck, h64, thin

HERE = os.path.dirname(os.path.abspath(__file__))
KNOWN = os.path.join(os.path.dirname(HERE), "known_findings.txt")


# ---- C01 ------------------------------------------------------------------------------------------------

def known_recursions():
    """entries 'known: property=C01 RecursionError prefix=<json> unit=<json> repeat=<n>'"""
    out = []
    for line in open(KNOWN):
        m = re.match(r'known: property=C01 RecursionError prefix=("(?:[^"\\]|\\.)*") unit=("(?:[^"\\]|\\.)*") repeat=(\d+)', line)
        if m:
            out.append((json.loads(m[1]), json.loads(m[2]), int(m[3])))
    return out


def in_big_thread(fn, elements):
    """Runs fn with a recursion limit proportional to the field (see the known finding of C01)."""
    box = []

    def go():
        try:
            box.append(("ok", fn()))
        except BaseException as e:
            box.append(("exc", e))
    old = sys.getrecursionlimit()
    sys.setrecursionlimit(1000 + 40 * elements)
    threading.stack_size(512 << 20)
    try:
        t = threading.Thread(target=go)
        t.start()
        t.join()
    finally:
        sys.setrecursionlimit(old)
        threading.stack_size(0)
    kind, v = box[0]
    if kind == "exc":
        raise v
    return v


class C01(FieldCheck):
    id = "C01"
    rule = ("random Unicode garbage, separators only, valid, mutated and soup fields, all continuations of 41 contexts by 2 "
            "(quick) or 3 elements; every element kind repeated 100 times (default recursion limit) and 300/600 or 1000/2000 "
            "times with counted steps; very long elements; non-trivial: distinct sequence of element types and number of errors")
    depth = {"quick": 2, "thorough": 3}
    n_focus = {"quick": 40000, "thorough": 800000}
    n_random = {"quick": 30000, "thorough": 600000}
    need = {"step-counted fields": 40, "fields of 100 elements": 40, "long elements": 40}
    assumptions = ["fields of more than about 300 elements are run with a recursion limit raised in proportion to their "
                   "length: exceeding CPython's default limit there is the known finding listed in known_findings.txt"]
    UNITS = gen.ALPHABET + ["?", "A /", "ABC B9", "ABC DCT", "ABC/N0460F360", "ABC STAY1/0100", "ABC C/DEF/N0460F350F370", "ABC VFR X IFR DEF/N0450F350",
                            "ABC VFR IFR DEF/N0450VFR IFR GHI/N0100F100", "ABC OAT X GAT", "ABC IFPSTOP X IFPSTART", "12N034E180060 DCT",
                            "VFR IFR", "OAT GAT", "IFR ABC", "? IFR ABC", "C/", "STAY1/", "B9 C", "ABC SID", "ABC STAR", "DCT DCT", "<a>", "é"]
    PRES = ["", "N0450F350 ", "N0450F350 ABC ", "N0450F350 ABC VFR ", "N0450F350 ?? "]

    def focus(self, r):
        k = r.random()
        if k < .5:
            t = gen.garbage(r)
            if k < .06:
                # lone surrogates: what undecodable bytes become
                i = r.randint(0, len(t))
                t = t[:i] + "".join(chr(r.randint(0xD800, 0xDFFF)) for _ in range(r.randint(1, 3))) + t[i:]
            return t
        if k < .6:
            n = r.choice((50, 200, 1000, 5000))
            c = r.choice(("A", "9", "é", "<", "N", "F0", "A1", "\x00", "AB9", "X9X", "ABCDEF1", "12N", "😀"))
            return r.choice(("", "N0450F350 ", "N0450F350 ABC ")) + c * (n // len(c)) + r.choice(("", " ABC", "!", "/"))
        return gen.join(r, gen.soup(r, r.randint(1, 30)))

    def judge(self, run, x, st):
        out = []
        if not isinstance(run.verdict, bool):
            out.append("field %r: parse returned %r" % (run.text[:200], run.verdict))
        st.cov["long elements"] += any(len(t[0]) > 100 for t in x.toks)
        return out

    def work(self, tier, seed, w, nw, st):
        # lengths in elements
        for i, (pre, u) in enumerate(itertools.product(self.PRES, self.UNITS)):
            if i % nw != w:
                continue
            k = len(lex.tokenize(u))
            for n in (99, 100, 120):
                m = self.repeated(pre, u, n // k)
                st.evals += 1
                st.cov["fields of 100 elements"] += 1
                if m:
                    st.viol.append(({"pre": pre, "unit": u, "n": n // k, "kind": "plain"}, m))
            if i % (1 if tier == "thorough" else 2) == 0 or pre == "N0450F350 ABC ":
                n = {"quick": 150, "thorough": 1000}[tier] // k
                m = self.linear(pre, u, n, st)
                if m:
                    st.viol.append(({"pre": pre, "unit": u, "n": n, "kind": "linear"}, m))
            if len(st.viol) >= runner.MAX_VIOL:
                return
        r = self.rng(seed, w, "long")
        for _ in range({"quick": 6, "thorough": 60}[tier]):
            s = r.getrandbits(64)
            n = r.choice((400, 1500, 4000) if tier == "thorough" else (400, 1500))
            m = self.long_mix(s, n)
            st.evals += 1
            st.cov["random fields of over 400 elements"] += 1
            if m:
                st.viol.append(({"seed": s, "n": n, "kind": "mix"}, m))
        if len(st.viol) < runner.MAX_VIOL:
            super().work(tier, seed, w, nw, st)

    def repeated(self, pre, u, n):
        run = obs.observe(pre + " ".join([u] * n), deep=False)
        return run.exc and "field %r followed by %d times %r: %s" % (pre, n, u, run.exc)

    def linear(self, pre, u, n, st):
        steps = []
        try:
            with obs.cpu_guard(120):
                obs.observe(pre + u + " " + u)      # fills caches (compiled patterns) before anything is counted
                for m in (1, n, 2 * n):
                    text = pre + " ".join([u] * m)
                    steps.append(in_big_thread(lambda: obs.count_steps(lambda: obs.parse_raw(text), 40 * obs.step_budget(text)), 2 * n * 3))
        except obs._Alarm:
            return "field %r followed by %d times %r: over 120 s of CPU time" % (pre, m, u)
        except BaseException as e:
            return "field %r followed by %d times %r: raised %s: %s" % (pre, m, u, type(e).__name__, str(e)[:100])
        st.evals += 1
        st.cov["step-counted fields"] += 1
        st.cov["steps counted"] += steps[2]
        if steps[2] - steps[1] > 1.1 * (steps[1] - steps[0]) * n / max(1, n - 1) + 4000:
            return "field %r followed by %r: %d steps for %d repetitions, %d for %d: more than proportional" % (pre, u, steps[1], n, steps[2], 2 * n)
        return None

    def long_mix(self, s, n):
        import random
        r = random.Random(s)
        t = []
        while len(t) < n:
            t += gen.mutate(r, gen.valid_tokens(r, 30)) if r.random() < .5 else gen.soup(r, 10)
        text = gen.join(r, t)
        try:
            with obs.cpu_guard(120):
                in_big_thread(lambda: obs.parse_raw(text), len(t))
        except obs._Alarm:
            return "random field of %d elements: over 120 s of CPU time" % len(t)
        except BaseException as e:
            return "random field of %d elements: raised %s: %s" % (len(t), type(e).__name__, str(e)[:100])

    def replay(self, case):
        k = case.get("kind")
        if k == "plain":
            m = self.repeated(case["pre"], case["unit"], case["n"])
        elif k == "linear":
            self.repeated(case["pre"], case["unit"], 2)
            m = self.linear(case["pre"], case["unit"], case["n"], runner.Stats())
        elif k == "mix":
            m = self.long_mix(case["seed"], case["n"])
        elif k == "known":
            m = self.known(case["pre"], case["unit"], case["n"])[1]
        else:
            return super().replay(case)
        return [m] if m else []

    def shrink(self, case):
        return super().shrink(case) if "text" in case else case

    def known(self, pre, u, n):
        """(known finding still there, violation message)"""
        try:
            with obs.cpu_guard(60):
                obs.parse_raw(pre + u * n)
        except RecursionError:
            return True, None
        except BaseException as e:
            return False, "field %r followed by %d times %r: raised %s: %s" % (pre, n, u, type(e).__name__, str(e)[:100])
        return False, None

    def finish(self, st, tier, seed):
        for pre, u, n in known_recursions():
            hit, bad = self.known(pre, u, n)
            st.cov["known findings re-run"] += 1
            if hit:
                print("KNOWN-FINDING: property=C01 RecursionError for the field %r followed by %d times %r" % (pre, n, u))
            if bad:
                st.viol.append(({"pre": pre, "unit": u, "n": n, "kind": "known"}, bad))


# ---- C03 ------------------------------------------------------------------------------------------------

class C03(Check):
    id = "C03"
    rule = ("random texts over small and full Unicode alphabets x random whitespace sets (empty, default, standard, with and "
            "without '/', multi-character Unicode) x random histories of tokenizer calls; exhaustive texts up to 7 characters over "
            "4 symbols for 8 whitespace sets; texts of up to 131000 characters; non-trivial: distinct (text, whitespace set) with at least one token")
    need = {"longest text": 131000, "tokens": 50000, "held lists re-checked": 2000, "texts ending inside a token": 1000}
    WS = [" \n\t\r/", " \n\t\r", "/", "", " ", "A", "/A", " /B\n"]

    def oracle(self, text, ws, tk):
        """tk: the Tokenize object after tokenize()"""
        got = [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in tk.get_tokens().get_tokens()]
        want = lex.tokenize(text, ws)
        if got != want:
            return "text %r whitespace %r: tokens %r, expected %r" % (text, ws, got[:20], want[:20])
        if tk.get_tokens().get_number_of_tokens() != len(want):
            return "text %r whitespace %r: number of tokens %r" % (text, ws, tk.get_tokens().get_number_of_tokens())
        if tk.get_string_to_tokenize() != text or tk.get_whitespace() != ws:
            return "text %r whitespace %r read back as %r, %r" % (text, ws, tk.get_string_to_tokenize(), tk.get_whitespace())
        # restated without the reference lexer: partition of the non-whitespace characters
        pos = 0
        for s, a, b in got:
            if not (pos <= a < b <= len(text) and text[a:b] == s and all(c in ws for c in text[pos:a].replace("/", ""))):
                return "text %r whitespace %r: token %r at %d:%d" % (text, ws, s, a, b)
            pos = b
        return None

    def rand_ws(self, r):
        k = r.random()
        if k < .4:
            return r.choice(self.WS)
        return "".join(r.choice(" \n\t\r/AB,;\u00a0\u2003\u3000é😀|.-\x0b]^\\[*") for _ in range(r.randint(0, 6)))

    ODD = "\ufeff\ufffe\u200b\u200d\u00ad\x00\x0b\x0c\x1a\x1c\x1f\x7f\x85\u00a0\u2028\u2029\u3000\ufffd\ud800\U0001f600\u0301;:,.\"'\\"

    def rand_text(self, r, ws):
        t = self.some_text(r, ws)
        if r.random() < .15:
            # something unusual at the very start, the very end or around a separator
            c = r.choice(self.ODD) * r.choice((1, 1, 1, 2, 3))
            i = r.choice((0, 0, len(t), len(t), r.randint(0, len(t))))
            t = t[:i] + c + t[i:]
        return t

    def some_text(self, r, ws):
        k = r.random()
        n = r.choice((0, 1, 2, 5, 12, 40, 200))
        if k < .4:
            al = " \n\t/AB9" + (ws or "x")
            return "".join(r.choice(al) for _ in range(n))
        if k < .6:
            return gen.mixed(r)[1]
        if k < .8:
            return "".join(r.choice("/ /A" + ws[:1]) for _ in range(n))
        return gen.garbage(r)

    def long_text(self, r):
        """Around and beyond the sizes at which buffers, counters and caches tend to end."""
        n = r.choice((1 << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 10000, 50000, 100000)) + r.randint(-3, 3)
        k = r.random()
        if k < .25:
            part = r.choice(("A", "AB ", " ", "/", "A/", "\t", "ABC DCT ", "é ", "\U0001f600 "))
            t = part * (n // len(part) + 1)
        else:
            words = [gen.element(r) for _ in range(60)]
            t = "".join(r.choice(words) + r.choice((" ", " ", "/", "\n", "  ")) for _ in range(n // 5 + 1))
            while len(t) < n:
                t += t
        return t[:n - 9] + "N0450F350"

    def script(self, r):
        """a history: list of calls"""
        out = []
        for _ in range(r.randint(1, 6)):
            ws = self.rand_ws(r)
            k = r.random()
            if k < .45:
                out.append(["text", self.rand_text(r, ws)])
            elif k < .7:
                out.append(["ws", ws])
            elif k < .8:
                out.append(["new"])
            elif k < .9:
                out.append(["hold"])
            out.append(["go"])
        return out

    def run_script(self, script, st=None):
        st = st or runner.Stats()
        tk = obs.Tokenize()
        text, ws = "", " \n\t\r"
        held = []

        def dump(ts):
            return [(t.get_token_string(), t.get_token_start_index(), t.get_token_end_index()) for t in ts.get_tokens()]
        try:
            for op in script:
                if op[0] == "new":
                    tk, text, ws = obs.Tokenize(), "", " \n\t\r"
                elif op[0] == "text":
                    text = op[1]
                    tk.set_string_to_tokenize(text)
                elif op[0] == "ws":
                    ws = op[1]
                    tk.set_whitespace(ws)
                elif op[0] == "hold":
                    held.append((tk.get_tokens(), dump(tk.get_tokens())))
                else:
                    tk.tokenize()
                    bad = self.oracle(text, ws, tk)
                    n = tk.get_tokens().get_number_of_tokens()
                    st.cov["tokens"] += n
                    st.cov["texts ending inside a token"] += bool(text) and text[-1] not in ws
                    if n:
                        st.seen.add(h64((text, ws)))
                    st.cov["whitespace sets without '/'"] += "/" not in ws
                    if bad:
                        return bad
                    held.append((tk.get_tokens(), dump(tk.get_tokens())))
                for obj, was in held:
                    st.cov["held lists re-checked"] += 1
                    if dump(obj) != was:
                        return "history %r: a token list obtained earlier changed from %r to %r" % (script, was[:10], dump(obj)[:10])
        except Exception as e:
            return "history %r: raised %s: %s" % (script, type(e).__name__, e)
        return None

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w)
        n = {"quick": 6, "thorough": 8}[tier]
        for text in thin(("".join(c) for k in range(n + 1) for c in itertools.product(" /AB", repeat=k)), w, nw):
            for ws in self.WS:
                st.evals += 1
                s = [["ws", ws], ["text", text], ["go"]]
                bad = self.run_script(s, st)
                if bad:
                    st.viol.append(({"script": s}, bad))
                    if len(st.viol) >= runner.MAX_VIOL:
                        return
        rl = self.rng(seed, w, "long")
        for i in range({"quick": 40000, "thorough": 800000}[tier] // nw):
            s = self.script(r)
            if i % 160 == 7:
                s = [["ws", self.rand_ws(rl) if rl.random() < .3 else " \n\t\r/"], ["text", self.long_text(rl)], ["go"]]
                st.cov["longest text"] = max(st.cov["longest text"], len(s[1][1]))
            st.evals += 1
            bad = self.run_script(s, st)
            if i % 500 == 0:
                st.sample({"history": s})
            if bad:
                st.viol.append(({"script": s}, bad))
                if len(st.viol) >= runner.MAX_VIOL:
                    return

    def replay(self, case):
        b = self.run_script(case["script"])
        return [b] if b else []

    def shrink(self, case):
        s = list(case["script"])
        i = 0
        while i < len(s):
            t = s[:i] + s[i + 1:]
            if self.run_script(t):
                s = t
            else:
                i += 1
        return {"script": s}


# ---- C04 ------------------------------------------------------------------------------------------------

class C04(Check):
    id = "C04"
    rule = ("element texts: every letter/digit shape up to 9 characters, every keyword with edits, every value of each speed, "
            "level, time, coordinate, bearing and route number form one component at a time, all unit combinations, all texts of "
            "length 1-3 (quick) or 4 over representative characters, single-character near misses, Unicode look-alikes, lengths "
            "around 25; each classified in a parsed field (and by the table for texts of at most 25 characters); non-trivial: distinct texts")
    need = {"texts": 300000, "types seen": 60}
    assumptions = ["texts of the shape x999xx are skipped: the repository's table and its comment disagree about them"]

    def texts(self, tier, seed, w, nw):
        r = self.rng(seed, w)
        yield from thin(self.fixed(tier), w, nw)
        full = tier == "thorough"
        for _ in range({"quick": 250000, "thorough": 4000000}[tier] // nw):
            k = r.random()
            if k < .3:
                yield gen.anything(r)
            elif k < .75:
                t = gen.corrupt(r, gen.anything(r))
                if r.random() < .3:
                    t = gen.corrupt(r, t) if t else t
                yield t
            elif k < .85:
                yield gen.from_shape(r, "".join(r.choice("x9") for _ in range(r.randint(1, 12))))
            elif k < .9:
                t = gen.anything(r)
                i = r.randrange(len(t))
                yield t[:i] + r.choice("abcdefnsewklmvfrpu０１９ＡＮ٣५²①İıſK") + t[i + 1:]
            elif k < .95:
                yield gen.letters(r, r.randint(1, 12))
            else:
                t = gen.anything(r) + gen.anything(r)
                yield t if r.random() < .5 else (t * 9)[:r.choice((24, 25, 26, 27, r.randint(20, 60)))]

    def fixed(self, tier):
        rep = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        # all shapes, several letters and digits each
        for n in range(1, 10):
            for s in itertools.product("x9", repeat=n):
                for k in range(3):
                    yield "".join((rep[(i * 7 + k * 11 + n) % 26] if c == "x" else "0123456789"[(i * 3 + k * 4 + n) % 10]) for i, c in enumerate(s))
        # all texts of 1-3 letters; all one-letter variations in each shape
        for n in range(1, 4):
            for c in itertools.product(rep, repeat=n):
                yield "".join(c)
        if tier == "thorough":
            for c in itertools.product(rep, repeat=4):
                yield "".join(c)
        al = "ACDNSEWTFKMRVP0159/?a"
        for n in range(1, {"quick": 4, "thorough": 5}[tier]):
            for c in itertools.product(al, repeat=n):
                yield "".join(c)
        for s in list(lex.SHAPES) + ["x999xx"]:
            for i, c in enumerate(s):
                for ch in rep if c == "x" else "0123456789":
                    base = ["Q" if d == "x" else "4" for d in s]
                    base[i] = ch
                    yield "".join(base)
                    base = ["W" if d == "x" else "0" for d in s]
                    base[i] = ch
                    yield "".join(base)
        # every documented form with the same letter and the same digit throughout
        for s in list(lex.SHAPES) + ["xxxxxx", "xxxxxxx"]:
            for a in rep:
                for b in "0123456789" if "9" in s else "0":
                    yield s.replace("x", a).replace("9", b)
        for b in "0123456789":
            for h1 in "NS":
                for h2 in "EW":
                    for n in (2, 4):
                        yield b * n + h1 + b * (n + 1) + h2
                        yield b * n + h1 + b * (n + 1) + h2 + b * 6
            for u in "NKM":
                for v in "FASM":
                    sp, lv = u + b * lex.SPEED_DIGITS[u], v + b * lex.LEVEL_DIGITS[v]
                    yield from (sp + lv, sp + lv + lv, sp + lv + "PLUS", sp + "VFR")
        for k in list(lex.KEYWORDS) + ["STAY%d" % d for d in range(10)] + ["NAT" + c for c in rep] + ["PTS" + c for c in rep + "0123456789"] + \
                ["NAT%s%d" % (c, d) for c in rep for d in range(10)]:
            yield k
            yield k.lower()
            for i in range(len(k) + 1):
                yield k[:i] + "X" + k[i:]
                yield k[:i] + "0" + k[i:]
                yield k[:i] + k[i + 1:]
        # an example of every form, each character replaced by characters that are similar to it
        forms = list(lex.KEYWORDS) + ["STAY1", "0130", "2359", "NATA", "NATA1", "PTSA", "PTS1", "ABC", "EGLL", "KINGS", "ABC180060", "12N034E", "1200N03400E",
                                      "12S034W180060", "1200S03400W180060"] + [x.replace("x", "K").replace("9", "1") for x in lex.SHAPES]
        for sp in ("N0450", "K0830", "M082"):
            forms.append(sp + "VFR")
            for lv in ("F350", "A045", "S1130", "M0840"):
                forms += [sp + lv, sp + lv + "PLUS"] + [sp + lv + l2 for l2 in ("F390", "A055", "S1190", "M0900")]
        for f in forms:
            for i, c in enumerate(f):
                for d in ("\u0663\uff11\u00b2\u2460\u0967" if c.isdigit() else c.lower() + chr(ord(c) + 0xfee0) + {"K": "\u212a", "S": "\u017f", "I": "\u0131\u0130"}.get(c, "\u0391")):
                    yield f[:i] + d + f[i + 1:]
            yield f.translate({ord("0") + k: 0x660 + k for k in range(10)})
        # every value, one component at a time
        for v in range(10000):
            yield "%04d" % v
            yield "N%04dF350" % v
            yield "K%04dS1130" % v
            yield "N%04dVFR" % v
            yield "K%04dVFR" % v
            yield "N0450S%04d" % v
            yield "K0830M%04d" % v
            yield "M082S%04dPLUS" % v
            yield "N0450M%04dF350" % v
            yield "%04dN03000E" % v
            yield "%04dS17959W" % v
        for v in range(1000):
            yield "M%03dF350" % v
            yield "M%03dVFR" % v
            yield "N0450F%03d" % v
            yield "K0830A%03d" % v
            yield "N0450F%03dPLUS" % v
            yield "M082A%03dF390" % v
            yield "12N%03dE" % v
            yield "12S%03dW" % v
            yield "AB%03d060" % v
            yield "ABCDE180%03d" % v
            yield "12N034E%03d060" % v
            yield "1200N03400W180%03d" % v
            for p in ("A%03d", "UB%03d", "UB%03dX", "ABC%03d", "A%03dZ", "A%03dZZ"):
                yield p % v
        for v in range(100):
            for p in ("%02dN034E", "%02dS034W", "A%02d", "UB%02d", "A%02dZ", "UB%02dZ", "ABC%02d", "ABCD%02d", "ABCDE%02d", "ABC%02dA", "ABCDE%02dA"):
                yield p % v
        for v in range(0, 100000, 7 if tier == "quick" else 1):
            yield "0000N%05dE" % v
            yield "4530S%05dW" % v
        for sp in ("N0450", "K0830", "M082", "N450", "K08300", "M0820", "N", "S0450"):
            lv = ("F350", "A100", "S1130", "M0840", "F35", "A0100", "S113", "M08400", "VFR", "PLUS", "F3500", "f350", "B350")
            yield sp
            for a in lv:
                yield sp + a
                for b in lv:
                    yield sp + a + b
                    for c in ("F390", "PLUS", "VFR", "X", "0"):
                        yield sp + a + b + c
        for h1 in "NSEWX":
            for h2 in "NSEWX":
                for a in ("12", "1234", "123", "1", "12345"):
                    for b in ("012", "01234", "01", "0123", "012345"):
                        for t in ("", "180060", "18006", "1800600", "180", "18006A", "ABC180", "/", "."):
                            yield a + h1 + b + h2 + t
        for n in range(1, 60):
            yield "A" * n
            yield "9" * n
            yield "A9" * n
            yield "é" * n
            yield "?" * n
        for t in ("N0450F350", "12N034E180060", "DCT", "N0450S1130S1130"):
            for n in range(10, 45):
                yield (t + "A" * 60)[:n]
                yield (t * 6)[:n]

    def fields(self, items):
        return "N0450F350 " + " ".join(items)

    def judge_batch(self, items, st, prefix):
        text = prefix + " ".join(items)
        run = obs.observe(text)
        if run.exc:
            return ["parsing %r %s" % (text, run.exc)]
        n0 = len(prefix.split())
        if len(run.toks) != n0 + len(items):
            return ["field %r has %d tokens, expected %d" % (text, len(run.toks), n0 + len(items))]
        for (t, s, e, b, u), want in zip(run.toks[n0:], items):
            c = lex.classify(want)
            if t != want or (b, u) != c:
                return ["element %r (in field %r) classified %s/%s, expected %s/%s" % (want, prefix + "…", b, u, c[0], c[1])]
            st.sets["types"].add("/".join(c))
        return []

    def judge_direct(self, t, d):
        if len(t) > lex.MAX_LEN:
            return None
        try:
            r = d.get_token_type(t)
            got = (obs.bname(r[obs.F15TokenSyntaxDefinition.TOKEN_BASE_IDENTIFIER_IDX]), obs.sname(r[obs.F15TokenSyntaxDefinition.TOKEN_SUBTYPE_IDENTIFIER_IDX]))
        except Exception as e:
            return "classifying %r raised %s: %s" % (t, type(e).__name__, e)
        if got != lex.classify(t):
            return "text %r classified %s/%s, expected %s/%s" % ((t,) + got + lex.classify(t))
        return None

    PREFIXES = ["N0450F350 ", "", "N0450F350 ABC VFR ", "?? ", "N0450F350 12N034E B9 DEF "]

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w, "pre")
        batch = []
        d = obs.F15TokenSyntaxDefinition()
        for t in itertools.chain(self.texts(tier, seed, w, nw), [None]):
            if t is not None:
                if t == "" or lex.is_ambiguous(t) or any(c in " \n\t\r" for c in t) or ("/" in t and t != "/"):
                    continue
                h = h64(t)
                if h in st.seen:
                    continue
                st.seen.add(h)
                batch.append(t)
                st.cov["texts"] += 1
                st.cov["texts:" + lex.classify(t)[0]] += 1
                if st.cov["texts"] % 20011 == 7:
                    st.sample({"text": t, "type": "/".join(lex.classify(t))})
                if st.cov["texts"] % 5 == 0:
                    for v in (t, t + "\n", "\n" + t, t + " "):
                        bad = self.judge_direct(v, d)
                        if bad:
                            st.viol.append(({"direct": v}, bad))
            if len(batch) == 20 or (t is None and batch):
                pre = r.choice(self.PREFIXES)
                st.evals += 1
                bad = self.judge_batch(batch, st, pre)
                if bad:
                    st.viol.append(({"items": batch, "prefix": pre}, bad[0]))
                batch = []
            if len(st.viol) >= runner.MAX_VIOL:
                return

    def finish(self, st, tier, seed):
        st.cov["types seen"] = len(st.sets["types"])

    def replay(self, case):
        if "direct" in case:
            b = self.judge_direct(case["direct"], obs.F15TokenSyntaxDefinition())
            return [b] if b else []
        return self.judge_batch(case["items"], runner.Stats(), case["prefix"])

    def shrink(self, case):
        if "direct" in case:
            return case
        for t in case["items"]:
            c = {"items": [t], "prefix": case["prefix"]}
            if self.replay(c):
                return c
        return case


# ---- C11 ------------------------------------------------------------------------------------------------

class C11(Check):
    id = "C11"
    rule = ("every value of every speed and level unit, every level as climb target in both places, Mach x level grid, default "
            "VFR level, 40 per parsed field in 6 syntactic forms; non-trivial: distinct speed/level texts")
    need = {"values": 60000, "level errors": 800, "mach values": 10000}

    def items(self, tier, r):
        for v in range(10000):
            yield "N%04d" % v + gen.level(r, bad=0)
            yield "K%04d" % v + gen.level(r, bad=0)
            yield "N0450S%04d" % v
            yield "K0800M%04d" % v
            yield "M%03dS%04d" % (r.choice((82, 1, 999, r.randint(0, 999))), v)
            yield "M%03dM%04d" % (r.choice((82, 1, 999, r.randint(0, 999))), v)
        for v in range(1000):
            yield "N0450F%03d" % v
            yield "N0450A%03d" % v
            yield "M%03dF350" % v
            yield "M%03dF000" % v
            yield "M%03dA%03d" % (v, r.randint(0, 999))
            yield "M%03dF%03d" % (v, r.randrange(0, 200) * 5)
            yield "M%03dS%04d" % (v, r.choice((0, 1, 1099, 1100, 1101, r.randint(0, 9999))))
            yield "M085F%03d" % v
            yield "M700A%03d" % v
        for _ in range({"quick": 60000, "thorough": 1500000}[tier]):
            yield gen.speed(r) + gen.level(r, r.choice("FASM"), .3)

    FORMS = ["%s", "climb1", "climb2", "plus", "vfr", "first"]

    def build(self, form, items):
        """field text, list of (index of record, speed text, level text, climb text)"""
        out, want = [], []
        if form == "first":
            sp, lv = model.Model.parts(items[0])
            return items[0] + " ABC", [("ADEP", sp, lv, ""), ("A", sp, lv, "")]
        out += ["N0450F350", "ZZ"]
        for i, it in enumerate(items):
            sp, lv = model.Model.parts(it)
            nm = "P" + chr(65 + i // 26) + chr(65 + i % 26)
            if form == "%s":
                out += [nm, "/", it]
                want.append((nm, sp, lv, ""))
            elif form == "climb1":
                out += ["C", "/", nm, "/", it + "F390"]
                want.append((nm, sp, lv, "F390"))
            elif form == "climb2":
                out += ["C", "/", nm, "/", sp + "F200" + lv]
                want.append((nm, sp, "F200", lv))
            elif form == "plus":
                out += ["C", "/", nm, "/", it + "PLUS"]
                want.append((nm, sp, lv, "PLUS"))
            else:
                out += [nm, "/", sp + "VFR", "IFR", "QQ", "/", "N0100F100"]
                want.append((nm, sp, "F050", ""))
        return " ".join(out), want

    def judge(self, form, items, st):
        text, want = self.build(form, items)
        run = obs.observe(text)
        if run.exc:
            return "parsing %r %s" % (text, run.exc)
        by = {}
        for r in run.recs:
            by.setdefault(r.name, r)
        msgs = sorted(e.err for e in run.errs)
        exp = []
        for it in want:
            nm, sp, lv, cr = it
            p = by.get(nm if nm != "A" else "ABC")
            if p is None:
                return "field %r: record %s missing" % (text, nm)
            asi = model.level_si(lv)
            ssi = model.speed_exact(sp, asi)
            st.cov["values"] += 1
            st.cov["mach values"] += sp[0] == "M"
            st.seen.add(h64((sp, lv, cr)))
            st.sets["units"].add(sp[0] + lv[0] + (cr[:1] or "-"))
            if (p.speed, p.alt, p.cr_to) != (sp, lv, cr):
                return "field %r: record %s has %r, expected %r" % (text, nm, (p.speed, p.alt, p.cr_to), (sp, lv, cr))
            if p.alt_si != asi:
                return "level %s converted to %r m, expected %r (field %r)" % (lv, p.alt_si, asi, text[:120])
            if p.speed_si != round(p.speed_si) or abs(p.speed_si - ssi) > 0.506:
                return "speed %s at level %s converted to %r m/s, exactly it is %.3f (field %r)" % (sp, lv, p.speed_si, ssi, text[:120])
            csi = model.level_si(cr) if cr and cr != "PLUS" else 0
            if p.cr_si != csi:
                return "climb target %s converted to %r m, expected %r (field %r)" % (cr, p.cr_si, csi, text[:120])
            prev = st.__dict__.setdefault("_mono", {})
            for k, v, si in ((lv[0], lv, p.alt_si), (sp[0] + (lv if sp[0] == "M" else ""), sp, p.speed_si)):
                d = prev.setdefault(k, {})
                d[v] = si
        x = model.run(text)
        exp = sorted(e.err for e in x.errs)
        st.cov["level errors"] += len(exp)
        if msgs != exp:
            return "field %r: errors %s, expected %s" % (text, msgs[:4], exp[:4])
        return None

    def work(self, tier, seed, w, nw, st):
        r = self.rng(seed, w)
        all_r = self.rng(seed, 0, "items")
        batch = []
        k = 0
        for it in thin(self.items(tier, all_r), w, nw):
            batch.append(it)
            if len(batch) == 30:
                k += 1
                forms = ["%s"] if k % 2 else [r.choice(self.FORMS[1:5])]
                for form in forms:
                    st.evals += 1
                    bad = self.judge(form, batch, st)
                    if bad:
                        st.viol.append(({"form": form, "items": batch}, bad))
                st.evals += 1
                bad = self.judge("first", batch[:1], st)
                if bad:
                    st.viol.append(({"form": "first", "items": batch[:1]}, bad))
                if k % 200 == 1:
                    st.sample({"form": forms[0], "items": batch[:3]})
                batch = []
            if len(st.viol) >= runner.MAX_VIOL:
                return
        # every level in every place once more, split over the workers
        lv = ["F%03d" % v for v in range(1000)] + ["A%03d" % v for v in range(1000)] + \
             ["%s%04d" % (u, v) for u in "SM" for v in range(10000)]
        mine = lv[w::nw]
        for form in ("%s", "climb1", "climb2", "plus"):
            for i in range(0, len(mine), 40):
                b = [gen.speed(r) + v for v in mine[i:i + 40]]
                st.evals += 1
                bad = self.judge(form, b, st)
                if bad:
                    st.viol.append(({"form": form, "items": b}, bad))
                    if len(st.viol) >= runner.MAX_VIOL:
                        return
        # monotone in the written value, on what was observed
        for k, d in st.__dict__.get("_mono", {}).items():
            last = None
            for v in sorted(d):
                st.cov["monotone comparisons"] += 1
                if last is not None and d[v] < d[last]:
                    st.viol.append(({"form": "%s", "items": []}, "%s converts to %r but %s to %r" % (last, d[last], v, d[v])))
                    return
                last = v
        st.__dict__.pop("_mono", None)

    def replay(self, case):
        b = self.judge(case["form"], case["items"], runner.Stats())
        return [b] if b else []

    def shrink(self, case):
        for t in case["items"]:
            c = {"form": case["form"], "items": [t]}
            if self.replay(c):
                return c
        return case


# ---- C28 ------------------------------------------------------------------------------------------------

class C28(Check):
    id = "C28"
    rule = ("every digit string of the field widths for the angle checks with several maxima, every metre of height 0-12000 and "
            "a grid to 100 km, every Mach value, random and special geodesics there and back; non-trivial: distinct calls")
    need = {"angle checks": 100000, "heights": 12000, "geodesics": 3000}

    def work(self, tier, seed, w, nw, st):
        for case in self.gen_cases(tier, seed, w, nw):
            st.evals += 1
            bad = self.judge(case, st)
            if st.evals % 9973 == 1:
                st.sample(case)
            if bad:
                st.viol.append((case, bad))
                if len(st.viol) >= runner.MAX_VIOL:
                    return

    def gen_cases(self, tier, seed, w, nw):
        r = self.rng(seed, w)
        for width in (1, 2, 3, 4):
            for v in range(w, 10 ** width, nw):
                for mx in (90, 180, 360, 0, r.randint(0, 999)):
                    yield {"k": "deg", "s": str(v).zfill(width), "max": mx}
        for v in range(w, 10000, nw):
            for mx in (90, 180, r.randint(0, 99)):
                yield {"k": "dm", "s": "%04d" % v, "max": mx, "split": 2}
        for v in range(w, 100000, nw):
            yield {"k": "dm", "s": "%05d" % v, "max": 180, "split": 3}
            if v % 10 == 0 or tier == "thorough":
                yield {"k": "dm", "s": "%05d" % v, "max": r.choice((90, 360, r.randint(0, 999))), "split": 3}
        for h in itertools.chain(range(w, 12001, nw), range(12000 + w * 10, 100000, 10 * nw)):
            yield {"k": "sound", "h": h}
        for m in range(w, 1000, nw):
            for h in (0, 1, 15, 305, 5000, 10668, 10999, 11000, 11001, 20000, 99990, r.randint(1, 11000)):
                yield {"k": "mach", "m": m, "h": h}
        for i in range({"quick": 12000, "thorough": 400000}[tier] // nw):
            k = r.random()
            la = r.choice((0.0, 90.0, -90.0, 45.0, 89.999, r.uniform(-90, 90), r.uniform(-90, 90), r.uniform(-90, 90)))
            lo = r.choice((0.0, 180.0, -180.0, 179.999, r.uniform(-180, 180), r.uniform(-180, 180)))
            if abs(la) > 89.99:
                lo = r.uniform(-180, 180)
            az = r.choice((0.0, 90.0, 180.0, 270.0, 360.0, 359.0, r.uniform(0, 360), r.uniform(0, 360), float(r.randint(0, 360))))
            d = r.choice((0.0, 1852.0, 999 * 1852.0, r.uniform(1, 999 * 1852.0), r.randint(0, 999) * 1852.0, r.uniform(1, 1.5e7)))
            yield {"k": "geo", "la": la, "lo": lo, "az": az, "d": d}

    def judge(self, c, st):
        U = obs_utils()
        u = U()
        k = c["k"]
        st.seen.add(h64(sorted(c.items())))
        try:
            if k == "deg":
                st.cov["angle checks"] += 1
                got = U.is_degree_semantics(c["s"], c["max"])
                want = int(c["s"]) <= c["max"]
                if got is not want:
                    return "is_degree_semantics(%r, %d) is %r" % (c["s"], c["max"], got)
            elif k == "dm":
                st.cov["angle checks"] += 1
                got = U.is_degree_minute_semantics(c["s"], c["max"], c["split"])
                d, m = int(c["s"][:c["split"]]), int(c["s"][c["split"]:])
                want = m <= 59 and d * 60 + m <= c["max"] * 60
                if got is not want:
                    return "is_degree_minute_semantics(%r, %d, %d) is %r" % (c["s"], c["max"], c["split"], got)
            elif k == "sound":
                st.cov["heights"] += 1
                h = c["h"]
                a, b = U.speed_of_sound_at_altitude(h), U.speed_of_sound_at_altitude(h + 1)
                if h < 11000 and not b < a:
                    return "speed of sound does not fall from %d m (%r) to %d m (%r)" % (h, a, h + 1, b)
                if h >= 11000 and not b == a == U.speed_of_sound_at_altitude(11000):
                    return "speed of sound is not constant above 11000 m: %r at %d, %r at %d" % (a, h, b, h + 1)
                if abs(a - model.sound(h)) > 1e-6:
                    return "speed of sound at %d m is %r, the documented formula gives %r" % (h, a, model.sound(h))
            elif k == "mach":
                st.cov["mach values"] += 1
                a = U.mach_to_ms_speed(c["m"], c["h"])
                s = 343.0 if c["h"] == 0 else U.speed_of_sound_at_altitude(c["h"])
                if abs(a - c["m"] / 100 * s) > 1e-6 * (1 + abs(a)):
                    return "Mach %d/100 at %d m is %r m/s, the speed of sound there %r" % (c["m"], c["h"], a, s)
                if abs(U.mach_to_ms_speed(2 * c["m"], c["h"]) - 2 * a) > 1e-6 * (1 + a):
                    return "Mach speeds at %d m are not proportional at %d" % (c["h"], c["m"])
            else:
                st.cov["geodesics"] += 1
                p = u.get_bearing_distance_projected_point(c["la"], c["lo"], c["az"], c["d"])
                if len(p) != 2:
                    return "projected point %r" % (p,)
                want = geo.direct(c["la"], c["lo"], c["az"], c["d"])
                off = geo.chord((p[0], p[1]), want)
                if not off < 1.0:
                    return "point %r bearing %r distance %r projected to %r, %.1f m off" % ((c["la"], c["lo"]), c["az"], c["d"], p, off)
                b = u.get_bearing_distance_between_points(c["la"], c["lo"], p[0], p[1])
                if len(b) != 2 or abs(b[1] - c["d"]) > 1e-3:
                    return "from %r to %r: measured %r, projected over %r" % ((c["la"], c["lo"]), p, b, c["d"])
                if c["d"] > 100 and abs(c["la"]) < 89.99:
                    dz = (b[0] - c["az"] + 540) % 360 - 180
                    if abs(dz) > 1e-4:
                        return "from %r to %r: measured azimuth %r, projected along %r" % ((c["la"], c["lo"]), p, b[0], c["az"])
                back = u.get_bearing_distance_between_points(p[0], p[1], c["la"], c["lo"])
                if abs(back[1] - c["d"]) > 1e-3:
                    return "distance from %r to %r is %r one way and %r back" % ((c["la"], c["lo"]), p, b[1], back[1])
        except Exception as e:
            return "%r raised %s: %s" % (c, type(e).__name__, e)
        return None

    def replay(self, case):
        b = self.judge(case, runner.Stats())
        return [b] if b else []


def obs_utils():
    from Utilities.Utils import Utils
    return Utils


VALUE_CHECKS = {c.id: c for c in (C01, C03, C04, C11, C28)}
