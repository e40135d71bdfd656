"""G01..G08: gearley-default-grammar against spec/GrammarTrace.tla."""
import copy
import gram
from vlib import *

N = lambda quick, thorough: thorough if THOROUGH else quick


def ext_terms(p):
    return [x for x in range(p.syms) if x not in p.by]


def words_of(rng, c, n, maxlen, cap=None):
    p = gram.plain_ext(c)
    terms = ext_terms(p) or [0]
    ws = gram.words(rng, p, terms, n, maxlen)
    ws = [[]] + [w for k, w in enumerate(ws) if w not in ws[:k] and w]
    if cap is not None:
        ws = [w for w in ws if gram.count_trees_bounded(p, [{t} for t in w], cap) <= cap]
    return ws


def grammar_check(c, sessions, aspects):
    exe = build("drv-rec")
    recs = c.drive(exe, sessions)
    for s, r in zip(sessions, recs):
        r.setdefault("ops", [])
        r.setdefault("words", [])
        if "panic" in r:
            raise Violation("compiling the grammar panicked", {"session": r})
        if r["ops"] and r["ops"][-1].get("op") == "panic":
            raise Violation("the recognizer panicked", {"session": r})
    c.extra["grammars_compiled"] = c.extra.get("grammars_compiled", 0) + len(recs)
    c.extra["grammars_with_nullable_symbols"] = sum(1 for s in sessions if gram.plain_ext(s["cfg"]).nullable())
    c.extra["grammars_with_hidden_rules"] = sum(1 for s in sessions if any(r["hidden"] for r in s["cfg"]["rules"]))
    c.extra["words"] = c.extra.get("words", 0) + sum(len(s.get("words", [])) for s in sessions)
    c.sample({"grammar": recs[0]["cfg"]["rules"], "words": recs[0]["words"][:3], "compiled_lhs": recs[0]["tables"]["lhs"],
              "compiled_rhs1": recs[0]["tables"]["rhs1"]})
    return recs


def judge(c, recs, aspects):
    c.validate("GrammarTrace", cfg("TSpec", dict(Aspects=set(aspects)), [], deadlock=True, view="TView"), recs)


def run(c, sessions, aspects):
    judge(c, grammar_check(c, sessions, aspects), aspects)


def external(c, n, huge=(6, 40), **kw):
    """Random grammars, a few of them with hundreds of symbols and rules."""
    return [gram.external(c.rng, **kw) for _ in range(n)] + [gram.external_huge(c.rng) for _ in range(N(*huge))]


def g01(c):
    run(c, [{"cfg": g, "words": words_of(c.rng, g, N(10, 30), N(6, 9))}
            for g in external(c, N(700, 8000))], ["lang"])


def g02(c):
    run(c, [{"cfg": g} for g in external(c, N(1000, 15000))], ["tables"])


def g03(c):
    run(c, [{"cfg": g} for g in external(c, N(1000, 15000))], ["look"])


def g04(c):
    run(c, [{"cfg": g} for g in external(c, N(1000, 15000), waste=0.7)], ["maps"])


def with_events(rng, g):
    g["events"] = [[k, p, rng.randrange(1, 40), rng.randrange(9)] for k, r in enumerate(g["rules"])
                   for p in range(len(r["rhs"]) + 1) if rng.random() < 0.5]
    return g


def g05(c):
    ss = [{"cfg": g, "words": words_of(c.rng, g, N(6, 12), N(5, 8), 25)}
          for g in external(c, N(300, 3000))]
    run(c, ss, ["trees"])
    ss = [{"cfg": with_events(c.rng, gram.external(c.rng, nullable=False))} for _ in range(N(500, 6000))]
    run(c, ss, ["events"])


def g06(c):
    run(c, [{"cfg": g} for g in external(c, N(1200, 20000))], ["order"])


def parse_ext(g, w):
    ops = [{"op": "finished"}, {"op": "begin"}, {"op": "scan", "sof": True, "value": 0}, {"op": "end"}]
    for i, t in enumerate(w):
        ops += [{"op": "begin"}, {"op": "scan", "ext": t, "value": i}, {"op": "end"}]
    return ops


def g07(c):
    ss = []
    for g in external(c, N(350, 4000), (2, 10)):
        if c.rng.random() < 0.3:
            g = with_events(c.rng, gram.external(c.rng, nullable=False))
        w = words_of(c.rng, g, 2, 6)[-1]
        ss.append({"cfg": g, "forest": "rec", "more": True, "ops": parse_ext(g, w)})
    ways = ["clone", "miniserde", "serde"]
    todo = [dict(s, through=h) if h else s for s in ss for h in [None] + ways]
    recs = grammar_check(c, todo, [])
    out = []
    for k in range(len(ss)):
        a = recs[4 * k]
        for j in (1, 2, 3):
            r = dict(a, copy={"tables": recs[4 * k + j]["tables"], "ops": recs[4 * k + j]["ops"]}, way=ways[j - 1])
            out.append(r)
    judge(c, out, ["copies"])


def g08(c):
    ss = [{"cfg": g, "forest": "rec",
           "ops": [{"op": "finished"}] + c.rng.choice([[], [{"op": "reset"}, {"op": "finished"}]])} for g in external(c, N(1000, 15000))]
    run(c, ss, ["null"])


CHECKS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "g" and k[1:].isdigit()}
