"""Dictionary for the workload: texts and numbers that occur as constants in the code under test.

Only a source of inputs (a fuzzer's dictionary), never of expectations. Constants not listed in mined_base.json (the tree
these checks were written for) are tried more often.
"""
import ast, json, os, re

import lex
import obs

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "mined_base.json")


def folded(n):
    """The value of an expression of two number literals, as 24 * 60."""
    op = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//"}.get(type(n.op))
    if op and isinstance(n.left.value, (int, float)) and isinstance(n.right.value, (int, float)):
        try:
            return eval("%r %s %r" % (n.left.value, op, n.right.value))
        except ArithmeticError:
            pass
    return None


def constants(root):
    words, nums = set(), set()
    for d, _, files in sorted(os.walk(root)):
        if "/." in d[len(root):] or "UnitTests" in d or "__pycache__" in d:
            continue
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(d, f), encoding="utf-8").read())
            except (SyntaxError, UnicodeDecodeError):
                continue
            docs = {id(n.value) for n in ast.walk(tree) if isinstance(n, ast.Expr)}
            for n in ast.walk(tree):
                if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                    v = folded(n)
                elif isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                else:
                    continue
                if isinstance(v, bool):
                    continue
                if isinstance(v, (int, float)) and v == v and 2 <= abs(v) <= 99999:
                    nums.add(int(abs(v)))
                elif isinstance(v, str):
                    words.update(w for w in re.findall("[A-Z][A-Z0-9]*", v) if len(w) <= 30)
                    nums.update(int(w) for w in re.findall("(?<![0-9])[0-9]{2,5}(?![0-9])", v))
                    if 0 < len(v) <= 40 and not re.search(r"\s|/", v):
                        words.add(v.strip("^$"))
    return sorted(w for w in words if w), sorted(nums)


def load():
    words, nums = constants(obs.REPO)
    try:
        base = json.load(open(BASE))
    except OSError:
        base = {"words": [], "nums": []}
    bw, bn = set(base["words"]), set(base["nums"])
    return words, nums, [w for w in words if w not in bw], [n for n in nums if n not in bn]


WORDS, NUMS, NEW_WORDS, NEW_NUMS = load()
P_OLD, P_NEW = .015, .06


def word(r):
    """A constant of the code, or something made from one; mostly None."""
    k = r.random()
    if k < P_OLD:
        t = r.choice(WORDS) if WORDS else None
    elif NEW_WORDS and k < P_OLD + P_NEW:
        t = r.choice(NEW_WORDS)
    else:
        return None
    if not t:
        return None
    if r.random() < .35:
        up = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
        t = r.choice((lambda: t + r.choice(up), lambda: r.choice(up) + t, lambda: t + r.choice(up) + r.choice(up),
                      lambda: t[:-1] + r.choice(up), lambda: t + r.choice("0123456789"), lambda: t[::-1]))()
    return t if t and not any(c in " /\n\t\r" for c in t) and not lex.is_ambiguous(t) else None


def number(r, top):
    """A number occurring in the code, or a neighbour, up to top; mostly None."""
    k = r.random()
    if k < P_OLD:
        s = NUMS
    elif NEW_NUMS and k < P_OLD + P_NEW:
        s = NEW_NUMS
    else:
        return None
    if not s:
        return None
    v = r.choice(s) + r.choice((0, 0, 0, 1, -1))
    return v if 0 <= v <= top else None


if __name__ == "__main__":
    w, n = constants(obs.REPO)
    json.dump({"words": w, "nums": n}, open(BASE, "w"), indent=0)
    print(len(w), "words", len(n), "numbers")
