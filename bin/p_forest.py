"""F01..F06: the two bocages against spec/ParseTrace.tla (whole parses) and
spec/ForestTrace.tla (forests told by hand what to hold)."""
import gram
from p_gram import N, ext_terms, words_of
from vlib import *

CAP = 25            # parse trees per input


def trees(g, w):
    return gram.count_trees_bounded(gram.plain_ext(g), [{t} for t in w], CAP + 40)


def visible_root(g):
    return not any(r["hidden"] for r in g["rules"] if r["lhs"] == g["root"])


def grammar(rng, **kw):
    while True:
        g = gram.external(rng, **kw)
        if visible_root(g):
            return g


# Grammars that random ones seldom hit: ambiguity above, below and beside
# ambiguity, under rules that are not visible, next to omitted empty symbols.
def fixed():
    def g(syms, root, *rules):
        out, k = [], 0
        for l, r, *hid in rules:
            out.append(dict(lhs=l, rhs=r, hidden=bool(hid), id=-1 if hid else k))
            k += not hid
        return dict(syms=syms, rules=out, root=root, events=[])
    E, a, L, n, m = 0, 1, 2, 3, 4
    gs = [
        g(2, E, (E, [E, E]), (E, [a])),
        g(2, E, (E, [E, E, E]), (E, [E, E]), (E, [a])),
        g(3, E, (E, [E, L, E]), (E, [a]), (L, [a]), (L, [a, a])),
        g(3, E, (E, [L]), (L, [a], 1), (L, [L, a], 1)),
        g(4, E, (E, [L]), (L, [n], 1), (L, [L, n], 1), (n, [a]), (n, [a, a])),
        g(4, E, (E, [L, L]), (L, [n], 1), (L, [L, n], 1), (n, [a]), (n, [a, a])),
        g(4, E, (E, [L, n]), (E, [n, L]), (L, [a]), (L, []), (n, [a]), (n, [a, a])),
        g(5, E, (E, [n, E, m, L]), (E, [a]), (L, [a]), (n, []), (n, [a]), (m, []), (m, [a])),
        g(5, E, (E, [n, n, L, m]), (L, [a]), (L, [L, a]), (n, []), (m, [n, n]), (n, [a])),
        g(4, E, (E, [L]), (E, [n]), (L, [n]), (n, [a]), (n, [n, n])),
        g(5, E, (E, [L]), (L, [n, m, n]), (n, []), (n, [a]), (m, [n, n])),
    ]
    assert not any(gram.plain_ext(x).cyclic() for x in gs)
    return gs


def session(rng, g, w, forest, whole=True, hint=None, repeat=False):
    s = {"kind": "parse", "cfg": g, "word": w, "forest": forest}
    if rng.random() < 0.4:
        s["values"] = [str(rng.choice([0, 1, 5, 255, 256, 65535, 65536, 2**24 - 1, 2**24, 2**32 - 1,
                                       rng.randrange(2**32)])) for _ in w]
    if rng.random() < 0.3:
        s["capacity"] = rng.choice([0, 1, 7, 5000])
    if rng.random() < 0.3 if hint is None else hint:
        s["hint"] = True
    last = len(w) + 1
    if not repeat:
        s["order"] = [last] if whole else list(range(last + 1))
    else:
        locs = list(range(last + 1))
        s["order"] = [rng.choice(locs + [last] * 3) for _ in range(rng.randrange(2, 9))] + [last, last]
    return s


def check(c, sessions, what):
    exe = build("drv-full")
    recs = c.drive(exe, sessions)
    for r in recs:
        if r["ops"] and r["ops"][-1]["op"] == "panic":
            raise Violation("parsing or evaluating panicked: " + r["ops"][-1]["msg"][:200],
                            {"session": r, "event": r["ops"][-1], "step": len(r["ops"])})
    ev = [e for r in recs for e in r["ops"] if e["op"] == "eval"]
    c.extra.update(evaluations=len(ev), values=sum(len(e["values"]) for e in ev),
                   most_values=max((len(e["values"]) for e in ev), default=0), inputs=len(recs), kind=what)
    for r in recs[:3]:
        c.sample({"rules": r["cfg"]["rules"], "word": r["word"], "ops": r["ops"][:2]})
    c.validate("ParseTrace", cfg("TSpec", {}, [], deadlock=True, view="TView"), recs)


def pick(c, n, want, forest, **kw):
    """n sessions whose grammar and word satisfy `want(number of trees)`."""
    out = []
    pool = [gram.external_huge(c.rng) for _ in range(N(4, 30))] + (fixed() if want(2) else [])
    while len(out) < n:
        g = pool.pop() if pool else grammar(c.rng, small=c.rng.random() < 0.5)
        ws = words_of(c.rng, g, N(6, 12), N(7, 9))
        k = 0
        for w in ws:
            if k >= N(2, 3):
                break
            if want(trees(g, w)):
                out.append(session(c.rng, g, w, forest() if callable(forest) else forest, **kw))
                k += 1
    return out


def f01(c):
    check(c, pick(c, N(700, 9000), lambda t: t == 1, "simple"), "one parse tree")


def f02(c):
    check(c, pick(c, N(500, 5000), lambda t: 2 <= t <= CAP, "simple"), "several parse trees")


def f03(c):
    check(c, pick(c, N(350, 4000), lambda t: t == 1, "compact")
          + pick(c, N(350, 4000), lambda t: 2 <= t <= CAP, "compact"), "one or several parse trees")


def f05(c):
    forest = lambda: c.rng.choice(["simple", "compact"])
    check(c, [s for s in pick(c, N(400, 4000), lambda t: 1 <= t <= 12, forest, repeat=True)
              if all(trees(s["cfg"], s["word"][:k]) <= CAP for k in range(len(s["word"]) + 1))], "repeated")


def f06(c):
    ss = []
    for k in range(N(600, 9000)):
        g = grammar(c.rng, nullable=True, small=c.rng.random() < 0.5)
        w = [] if c.rng.random() < 0.7 else words_of(c.rng, g, 1, 3)[-1]
        s = session(c.rng, g, w, c.rng.choice(["simple", "compact"]))
        s["order"] = c.rng.choice([[0, 1], [1, 0], [0], [1], [1, 1, 0, 1]])
        ss.append(s)
    check(c, ss, "nothing read")


# ---- F04 ----
EDGES = [0, 1, 2, 254, 255, 256, 257, 65534, 65535, 65536, 65537, 2**24 - 2, 2**24 - 1, 2**24, 2**24 + 1,
         2**31 - 1, 2**31, 2**32 - 2]


def f04_history(rng, forest, rules, fills):
    """A random forest, wrapped as a finished parse, evaluated along the way."""
    big = lambda: str(rng.choice(EDGES + [2**32 - 1]) if rng.random() < 0.6 else rng.randrange(2**32))
    bigsym = lambda: str(rng.choice(EDGES) if rng.random() < 0.6 else rng.randrange(2**32 - 1))
    sof = rng.choice([5, 255, 256, 65536])
    used = sorted({rng.choice([1, 2, 3, 255, 256, 257, 65535, 65536, 65537, rng.randrange(rules)]) % rules for _ in range(7)})
    # below 2^32 - 1, which means "not visible"
    vis = [d for d in used if rng.random() < 0.6]
    ids = rng.sample(EDGES, len(vis)) if len(vis) <= len(EDGES) else []
    nulled, nulls = [], [2, 3, 4]
    for d in used:
        if rng.random() < 0.4:
            nulled.append([d, rng.choice(nulls), rng.random() < 0.5])
    info = {"rules": rules, "eval": [[d, str(i)] for d, i in zip(vis, ids)], "nulled": nulled,
            "middle": [[4, 2, 3]] if rng.random() < 0.5 else [], "sof": sof, "eof": 0, "start": rng.choice([1, 2, 3, 4, 300, 70000])}
    ops, kind, count = [], [None], [0]

    def add(op, k, n):
        ops.append(op)
        kind.append(k)
        count.append(n)
        return len(kind) - 1
    unit = lambda: [i for i in range(1, len(kind)) if kind[i] in "lsv"]
    for _ in range(2):
        add({"op": "leaf", "sym": bigsym(), "value": big()}, "l", 1)
    fills = list(fills)
    for _ in range(rng.randrange(4, 14)):
        if fills and rng.random() < 0.5:
            ops.append({"op": "fill", "n": fills.pop()})
        r = rng.random()
        if r < 0.25:
            add({"op": "leaf", "sym": bigsym(), "value": big()}, "l", 1)
        elif r < 0.3:
            add({"op": "nulling", "sym": rng.choice(nulls)}, "0", 1)
        elif r < 0.6:
            us = unit()
            a, b = rng.choice(us), rng.choice(us[-4:])
            if count[a] * count[b] <= 12:
                add({"op": "product", "l": a, "r": b}, "p", count[a] * count[b])
        else:
            cands = [i for i in range(1, len(kind)) if kind[i] in "lsvp"][-6:]
            items = [[rng.choice(used), rng.choice(cands)] for _ in range(rng.choice([1, 1, 2, 2, 3, 5]))]
            t = sum(count[i] for _, i in items)
            if t <= 14:
                add({"op": "sum", "sym": rng.randrange(9), "items": items},
                    "v" if all(d in vis for d, _ in items) and ids else "s", t)
        if rng.random() < 0.25:
            wrap(rng, info, ops, add, kind, count)
    for f in fills:
        ops.append({"op": "fill", "n": f})
        wrap(rng, info, ops, add, kind, count)
    wrap(rng, info, ops, add, kind, count)
    return {"kind": "forest", "forest": forest, "info": info, "ops": ops}


def f04_wide(rng, forest, n):
    """A sum of `n` alternatives, some of which are sums themselves."""
    used = [1, 2, 255, 257]
    info = {"rules": 300, "eval": [[d, str(i)] for d, i in zip(used, rng.sample(EDGES, 4))],
            "nulled": [[2, 3, True]] if rng.random() < 0.5 else [], "middle": [], "sof": 5, "eof": 0, "start": 4}
    ops, kind, count = [], [None], [0]

    def add(op, k, m):
        ops.append(op)
        kind.append(k)
        count.append(m)
        return len(kind) - 1
    for _ in range(6):
        add({"op": "leaf", "sym": str(rng.choice(EDGES)), "value": str(rng.randrange(2**32))}, "l", 1)
    add({"op": "sum", "sym": 6, "items": [[1, 1], [2, 2]]}, "v", 2)
    add({"op": "sum", "sym": 6, "items": [[257, 7]]}, "v", 2)
    add({"op": "product", "l": 7, "r": 3}, "p", 2)
    add({"op": "product", "l": 4, "r": 8}, "p", 2)
    items = [[rng.choice(used), rng.randrange(1, 7)] for _ in range(n)]
    for k in range(7, 11):
        items[rng.choice([0, n - 1, rng.randrange(n)])] = [rng.choice(used), k]
    x = add({"op": "sum", "sym": 7, "items": items}, "v", 0)
    if n <= 300:                            # products of many alternatives, on either side
        a, b = add({"op": "product", "l": x, "r": 7}, "p", 0), add({"op": "product", "l": 7, "r": x}, "p", 0)
        x = add({"op": "sum", "sym": 7, "items": [[1, a], [255, b]]}, "v", 0)
    s = add({"op": "leaf", "sym": "5", "value": "0"}, "sof", 1)
    ops.append({"op": "eval", "at": add({"op": "sum", "sym": 7, "items": [[0, add({"op": "product", "l": s, "r": x}, "root", 0)]]}, "root", 0)})
    return {"kind": "forest", "forest": forest, "info": info, "ops": ops}


def wrap(rng, info, ops, add, kind, count):
    """A root above one of the newest nodes; a rule without omitted symbols."""
    cands = [i for i in range(1, len(kind)) if kind[i] in "lv" and count[i] <= 14][-3:]
    x = rng.choice(cands)
    s = add({"op": "leaf", "sym": str(info["sof"]), "value": "0"}, "sof", 1)
    p = add({"op": "product", "l": s, "r": x}, "root", count[x])
    r = add({"op": "sum", "sym": 7, "items": [[0, p]]}, "root", count[x])
    ops.append({"op": "eval", "at": r})


def f04(c):
    exe = build("drv-full")
    # 1. every small forest, from the specification, on both implementations
    r = c.tlc_ok("ForestTrace", cfg("GSpec", dict(MaxNodes=N(4, 5)), ["Emit", "Counted"]), timeout=800)
    ss = []
    gen = r.gen()
    for x in gen:
        ops = []
        for n in x["nodes"]:
            ops.append({"leaf": lambda: {"op": "leaf", "sym": n["sym"], "value": n["value"]},
                        "prod": lambda: {"op": "product", "l": n["l"], "r": n["r"]},
                        "sum": lambda: {"op": "sum", "sym": 7, "items": n["items"]}}[n["n"]]())
        k = len(ops)
        ops += [{"op": "leaf", "sym": "5", "value": "0"}, {"op": "product", "l": k + 1, "r": k},
                {"op": "sum", "sym": 7, "items": [[0, k + 2]]}, {"op": "eval", "at": k + 3}]
        for f in ("simple", "compact"):
            ss.append({"kind": "forest", "forest": f, "info": x["info"], "ops": ops, "meaning": x["meaning"]})
    recs = c.drive(exe, ss)
    for q in recs:
        last = q["ops"][-1]
        if last["op"] == "panic" or sorted(last["values"]) != sorted(q["meaning"]):
            raise Violation("a forest made by the specification evaluates differently",
                            {"session": q, "event": last, "how": "expected " + str(sorted(q["meaning"]))})
    c.traces += len(recs)
    c.extra["forests_from_spec"] = len(gen)
    # 2. histories past the size boundaries of the encoding
    ss = []
    for _ in range(N(500, 6000)):
        f = c.rng.choice(["compact", "compact", "simple"])
        fills = c.rng.choice([[], [20], [20], [60, 20], [30000], [30000, 100]])
        ss.append(f04_history(c.rng, f, c.rng.choice([10, 300, 70000 if c.rng.random() < 0.1 else 10]), fills))
    for _ in range(N(4, 40)):
        ss.append(f04_history(c.rng, "compact", 300, [2**24 // 4, 10]))
    widths = [60, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 4097] + N([65535, 65536, 65537], [65535, 65536, 65537, 131073, 200000])
    ss += [f04_wide(c.rng, f, n) for n in widths for f in ("simple", "compact")]
    recs = c.drive(exe, ss, timeout=500)
    for q in recs:
        if q["ops"][-1]["op"] == "panic":
            raise Violation("a forest panicked: " + q["ops"][-1]["msg"][:200], {"session": q, "event": q["ops"][-1]})
    c.extra["alternatives_of_one_sum"] = widths
    c.extra["forests_beyond_2_24_bytes"] = N(4, 40)
    c.extra["evaluations"] = sum(1 for q in recs for e in q["ops"] if e["op"] == "eval")
    c.sample({"ops": recs[0]["ops"][:8]})
    c.validate("ForestTrace", cfg("TSpec", dict(MaxNodes=0), [], deadlock=True, view="TView"), recs)


CHECKS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "f" and k[1:].isdigit()}
