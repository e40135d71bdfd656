"""U01..U03: gearley-utils' parsers against spec/UtilsTrace.tla."""
import itertools
import re
import gram
from p_forest import visible_root
from p_gram import N, ext_terms, words_of
from vlib import *


def answer(r):
    """An error is known by its text only; told apart by form, not by wording."""
    if "ok" in r:
        return dict(kind="yes" if r["ok"] else "no", tokens=[], at=-1, word="")
    m = re.fullmatch(r"(?s).*: \[(.*)\]@(\d+)", r["err"])
    if m:
        return dict(kind="syntax", tokens=[int(x) for x in re.findall(r"\d+", m.group(1))], at=int(m.group(2)), word="")
    if ": " in r["err"]:
        return dict(kind="unknown", tokens=[], at=-1, word=r["err"].split(": ", 1)[1])
    return dict(kind="unfinished", tokens=[], at=-1, word="")


def check(c, sessions):
    recs = c.drive(build("drv-full"), sessions)
    kinds = {}
    for q in recs:
        last = q["ops"][-1]
        if last["op"] == "panic":
            raise Violation("the parser panicked: " + last["msg"][:200], {"session": q, "event": last})
        for e in q["ops"]:
            e["res"] = answer(e["res"])
            kinds[e["res"]["kind"]] = kinds.get(e["res"]["kind"], 0) + 1
    c.extra["answers"] = kinds
    for q in recs[:3]:
        c.sample({"rules": q["cfg"]["rules"], "ops": q["ops"][:2]})
    c.validate("UtilsTrace", cfg("TSpec", {}, [], deadlock=True, view="TView"), recs)


def deep(rng, n):
    """Grammars with words longer than what a byte counts."""
    R = lambda l, r, k: dict(lhs=l, rhs=r, hidden=False, id=k)
    for _ in range(n):
        g = rng.choice([[(0, [1, 0]), (0, [2])], [(0, [1, 3, 0]), (0, [2]), (3, []), (3, [2, 1])]])
        g = dict(syms=4, rules=[R(l, r, k) for k, (l, r) in enumerate(g)], root=0, events=[])
        k = rng.randrange(256, N(290, 700))
        yield g, [[1] * k + [2], [1] * k, [1] * k + [2, 2]]


def some(c, n, **kw):
    """Grammars with words; some of either are large."""
    for i in range(n + N(6, 40)):
        if i < n:
            g = gram.external(c.rng, **kw)
            yield g, words_of(c.rng, g, N(5, 10), N(7, 10) if i % 6 else 30)
        else:
            g = gram.external_huge(c.rng)
            yield g, words_of(c.rng, g, 4, 9)


def u01(c):
    ss = []
    for g, ws in itertools.chain(some(c, N(600, 8000), waste=0.5), deep(c.rng, N(2, 10))):
        ops = [{"op": "parse", "word": w} for w in ws]
        for o in ops:
            if c.rng.random() < 0.3:
                o["before"] = [list(c.rng.choice(ws)) for _ in range(c.rng.choice([1, 1, 2]))]
        forest = c.rng.choice(["simple", "compact", "null"])
        for o in ops if forest != "null" else []:
            if len(o["word"]) > 100 or visible_root(g) and gram.count_trees_bounded(gram.plain_ext(g), [{t} for t in o["word"]], 200) <= 200:
                o["leaves"] = []
        ss.append({"kind": "utils", "cfg": g, "forest": forest, "classes": [], "codes": [], "ops": ops})
    check(c, ss)


NAMES = ["plus", "num", "x", "Expr", "a b", "(", "start", "λ", "if", "y", "zz", "w1", "w2", "w3", "[0]@1"]


def u02(c):
    ss = []
    for g, ws in some(c, N(500, 8000), waste=0.5):
        names = c.rng.sample(NAMES + ["n%d" % i for i in range(max(0, g["syms"] - len(NAMES)))], g["syms"])
        g["names"] = names
        terms = ext_terms(gram.plain_ext(g))
        ops = []
        for w in ws:
            ws = [names[t] for t in w]
            k = c.rng.random()
            if k < 0.25:
                ws.insert(c.rng.randrange(len(ws) + 1), c.rng.choice(["nope", "", "Plus", " x"]))
                if k < 0.1:
                    ws.insert(c.rng.randrange(len(ws) + 1), "neither")
            ops.append({"op": "words", "list": ws})
        ss.append({"kind": "utils", "cfg": g, "forest": "null", "classes": [], "codes": [], "ops": ops})
    check(c, ss)


ALPHABET = "abcdefghABCDEFGH09+λΛ\n \t\r\0é日\uffff\U0001f600"


def u03(c):
    ss = []
    for g, ws in some(c, N(500, 8000), waste=0.4):
        p = gram.plain_ext(g)
        terms = ext_terms(p)
        if not terms:
            continue
        classes = []
        for t in terms:
            for _ in range(c.rng.choice([1, 1, 1, 2, 0])):
                a = c.rng.choice(ALPHABET)
                b = c.rng.choice([a, a, chr(ord(a) + c.rng.randrange(5))])
                classes.append([a, b, t])
        classes = classes or [["a", "a", terms[0]]]
        ops = []
        for w in ws:
            text = ""
            for t in w:
                mine = [(a, b) for a, b, s in classes if s == t]
                if mine and c.rng.random() < 0.97:
                    a, b = c.rng.choice(mine)
                    text += chr(c.rng.randrange(ord(a), ord(b) + 1))
                else:
                    text += c.rng.choice(ALPHABET)
            if c.rng.random() < 0.1:
                text = "".join(x.swapcase()[:1] if c.rng.random() < 0.5 else x for x in text)
            ops.append({"op": "chars", "text": text, "codes": [ord(x) for x in text]})
        ss.append({"kind": "utils", "cfg": g, "forest": "null", "classes": classes,
                   "codes": [[ord(a), ord(b), s] for a, b, s in classes], "ops": ops})
    check(c, ss)


CHECKS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "u" and k[1:].isdigit()}
