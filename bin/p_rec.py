"""R01..R14: gearley-recognizer against spec/Earley.tla, spec/CFG.tla."""
import itertools
import gram, p_model
from vlib import *


def step_ops(rng, g, terms, tokens, nxt, hinting, values, how=None, late=False):
    """One location: begin, hint, scans, end."""
    ops = [{"op": "begin"}]

    def hint():
        if hinting == "next":
            ops.append({"op": "hint", "sym": nxt})
        elif hinting == "mixed":
            k = rng.random()
            if k < 0.45:
                ops.append({"op": "hint", "sym": nxt})
            elif k < 0.6:
                ops.append({"op": "hint", "sym": rng.choice(terms + [g["eof"]])})
            elif k < 0.75:
                ops.append({"op": "unhint"})
            if rng.random() < 0.1:
                ops.append({"op": "hint", "sym": rng.choice(terms)})
                if rng.random() < 0.5:
                    ops.append({"op": "unhint"})
                else:
                    ops.append({"op": "hint", "sym": nxt})
    if not late:
        hint()
    same = next(values) if rng.random() < 0.3 else None     # all tokens of one text
    for t in tokens:
        ops.append({"op": "scan", "sym": t, "value": next(values) if same is None else same})
    if late:
        hint()
    if how is None:
        ops.append({"op": "end"})
    else:
        ops += [dict({"op": "groups"}, **how), {"op": "advance"}]
    return ops


def parse_ops(rng, g, w, hinting=None, how=lambda i: None, late=False):
    """Reads the lattice w (list of lists of distinct terminals)."""
    values = iter(range(rng.randrange(1000), 10 ** 9))
    terms = gram.terminals_of(g)
    ops = []
    all_ = [[g["sof"]]] + w
    if rng.random() < 0.3:
        ops.append({"op": "finished"})
    for i, tokens in enumerate(all_):
        nxt = rng.choice(all_[i + 1]) if i + 1 < len(all_) else g["eof"]
        ops += step_ops(rng, g, terms, tokens, nxt, hinting, values, how(i), late)
        if rng.random() < 0.05:
            ops.append({"op": "finished"})
    return ops


def lattice(rng, terms, w):
    out = []
    for t in w:
        s = [t]
        while rng.random() < 0.35 and len(s) < len(terms):
            s = list({*s, rng.choice(terms)})
            rng.shuffle(s)
        out.append(s)
    return out


def small_enough(g, w, cap=40, parts=None):
    """Not too many trees, and no part of the input has too many either."""
    p = gram.plain_of(g)
    return gram.count_trees_bounded(p, w, cap) <= cap and (
        parts is None or gram.count_trees_bounded(p, w, parts, parts=True) <= parts)


def inputs(rng, n, maxlen, lat=0.0, words=2, small=False):
    """n pairs (grammar, lattice), some of them with very many symbols."""
    while n > 0:
        wide = rng.random() < 0.06
        g = gram.internal(rng, small, wide)
        p, terms = gram.plain_of(g), gram.terminals_of(g)
        for w in gram.words(rng, p, terms, min(words, n), maxlen + 6 * wide):
            w = lattice(rng, terms, w) if rng.random() < lat else [[t] for t in w]
            if small_enough(g, [set(s) for s in w]):
                n -= 1
                yield g, w


def size_of_sets(g, w):
    """About how many items an input makes, and how many ways there are to put
    them together (which weighs less; to keep TLC small)."""
    p = gram.plain_of(g)
    f = gram.spans_of(p, w)
    ways = sum(len(f[r[1]][k]) for _, r in p.rules if len(r) == 2 for i in range(len(w)) for k in f[r[0]][i])
    return max(sum(len(e) for x in f for e in f[x]), ways // 4)


def long_inputs(rng, n, length, limit=6000):
    """n pairs (grammar, lattice) with inputs that are long, few trees or many."""
    while n > 0:
        g = gram.internal(rng, rng.random() < 0.5, rng.random() < 0.1, pad=0.15, shaped=0.5)
        p, terms = gram.plain_of(g), gram.terminals_of(g)
        w = p.sentence(rng, length)
        if w is None or not length // 2 <= len(w) <= 2 * length:
            continue
        if rng.random() < 0.2:
            w[-1 - rng.randrange(min(9, len(w)))] = rng.choice(terms)
        w = [[t] for t in w]
        if size_of_sets(g, [set(s) for s in w]) <= limit:
            n -= 1
            yield g, w


def dense_inputs(rng, n, length, limit=6000):
    """n pairs with very many trees: many completions wait at every location."""
    while n > 0:
        g = gram.internal(rng, True, pad=0.15, shaped=0.3)
        p, terms = gram.plain_of(g), gram.terminals_of(g)
        w = p.sentence(rng, length)
        if w is None or not length // 2 <= len(w) <= 2 * length:
            continue
        w = lattice(rng, terms, w)
        l = [set(s) for s in w]
        if not small_enough(g, l, 300) and size_of_sets(g, l) <= limit:
            n -= 1
            yield g, w


def huge_inputs(rng, n, length=9):
    """n pairs with hundreds of symbols and rules."""
    kinds = itertools.cycle(["twins", None, "crowd", None, None])
    while n > 0:
        g = gram.huge(rng, kind=next(kinds))
        p, terms = gram.plain_of(g), gram.terminals_of(g)
        for w in gram.words(rng, p, terms, min(2, n), length):
            w = lattice(rng, terms, w) if rng.random() < 0.5 else [[t] for t in w]
            n -= 1
            yield g, w


def deep_inputs(rng, n, length):
    """n pairs with inputs longer than what a byte counts."""
    for i in range(n):
        g, w = gram.deep(rng, length, [0, 1, None, 6][i % 4])
        yield g, [[t] for t in w]


def big(c, make, without=("cfg",), count=(6, 60)):
    """Sessions of larger scale; what grows too fast with the size is not compared."""
    k = N(*count)
    ss = []
    for g, w in itertools.chain(long_inputs(c.rng, k, 60), long_inputs(c.rng, k // 3, N(150, 400), N(8000, 40000)),
                                dense_inputs(c.rng, k, 14), huge_inputs(c.rng, 2 * k),
                                deep_inputs(c.rng, k // 2 + 1, N(290, 700))):
        s = make(g, w)
        s["without"] = list(without)
        s["light"] = True
        ss.append(s)
    return ss


def recognizer_check(c, sessions, aspects, samples=True):
    exe = build("drv-rec")
    recs = c.drive(exe, sessions)
    c.extra["random_histories_validated"] = c.extra.get("random_histories_validated", 0) + len(recs)
    if samples:
        c.sample({"grammar": recs[0]["g"]["rules"], "recorded": recs[0]["ops"][-2:]})
    finished = sum(1 for r in recs if any(e.get("obs", {}).get("finished") for e in r["ops"]))
    c.extra["accepting_histories"] = c.extra.get("accepting_histories", 0) + finished
    for r in recs:
        r["ops"] = [slim(e, aspects) for e in r["ops"]]
        if "events" not in aspects:
            r["g"].pop("events", None), r["g"].pop("trace", None)
    c.validate("RecTrace", cfg("TSpec", dict(Aspects=set(aspects)), ["Contract"], deadlock=True, view="TView"), recs)


def slim(e, aspects):
    if "forest" not in aspects:
        e.pop("log", None)
        if "obs" in e:
            e["obs"].pop("nodes", None)
    return e


N = lambda quick, thorough: thorough if THOROUGH else quick


def model(c, make, n, maxlen, maxalt=1, hints=False, reset=False, long=False):
    """Checks the algorithm (Recognizer.tla) against the contract on small grammars,
    and returns sessions that take the code through every transition of the model."""
    gs = p_model.some(c.rng, N(n, 12 * n))
    p_model.explore(c, gs, N(maxlen, maxlen + 1), maxalt, hints, reset, long)
    gs = p_model.some(c.rng, N(n, 8 * n))
    h = p_model.histories(c, gs, N(maxlen, maxlen + 1), maxalt, hints, reset, long)
    h = c.rng.sample(h, min(len(h), N(500, 20000)))
    return [make(g, ops) for g, ops in h]


def plain(forest="null", **more):
    return lambda g, ops: dict({"g": g, "forest": forest, "ops": ops}, **more)


def by_hand(c, skip, reject):
    """The same histories, with the completion loop in the caller's hands."""
    def make(g, ops):
        how, out, n = manual(c.rng, g, skip, c.rng.random() < 0.5 if reject is None else reject), [], 0
        for o in ops:
            if o["op"] == "end":
                out += [dict({"op": "groups"}, **how(n)), {"op": "advance"}]
                n += 1
            else:
                out.append(o)
        return {"g": g, "forest": "rec", "ops": out}
    return make


def r01(c):
    make = lambda g, w: {"g": g, "forest": "null", "ops": parse_ops(c.rng, g, w)}
    ss = [make(g, w) for g, w in inputs(c.rng, N(700, 6000), N(7, 10))] + big(c, make)
    ss += model(c, plain(), 40, 4)
    recognizer_check(c, ss, ["accept", "fail", "cfg"])


def r02(c):
    make = lambda g, w: {"g": g, "forest": "rec", "ops": parse_ops(c.rng, g, w, c.rng.choice(["next", "mixed"]), late=c.rng.random() < 0.3)}
    ss = [make(g, w) for g, w in inputs(c.rng, N(400, 3000), N(7, 9), 0.15)] + big(c, make)
    ss += model(c, plain("rec"), 10, 3, hints=True)
    recognizer_check(c, ss, ["accept", "fail", "cfg", "items", "pred", "forest", "hint"])


def r03(c):
    make = lambda g, w: {"g": g, "forest": "null", "ops": parse_ops(c.rng, g, w, c.rng.choice([None, None, "next"]))}
    ss = [make(g, w) for g, w in inputs(c.rng, N(700, 6000), N(8, 11))] + big(c, make)
    ss += model(c, plain(), 40, 4)
    recognizer_check(c, ss, ["fail", "cfg"])


def r04(c):
    make = lambda g, w: {"g": g, "forest": "null", "ops": parse_ops(c.rng, g, w)}
    ss = [make(g, w) for g, w in inputs(c.rng, N(700, 6000), N(10, 20), 0.2)] + big(c, make)
    ss += model(c, plain(), 16, 4, maxalt=2)
    recognizer_check(c, ss, ["pred"])


def r05(c):
    make = lambda g, w: {"g": g, "forest": "rec", "ops": parse_ops(c.rng, g, w)}
    ss = [make(g, w) for g, w in inputs(c.rng, N(700, 6000), N(10, 20), 0.2)] + big(c, make)
    ss += model(c, plain("rec"), 16, 4, maxalt=2)
    recognizer_check(c, ss, ["items"])


ALL = ["accept", "fail", "cfg", "items", "pred", "retain", "forest", "hint"]


def r06(c):
    """Several inputs through one recognizer, reset at any point in between."""
    ss = []
    some = inputs(c.rng, N(200, 2000), N(5, 8), 0.1)
    # many retained locations before the reset
    long = itertools.chain(long_inputs(c.rng, N(24, 200), 20), long_inputs(c.rng, N(24, 200), 60))
    for big_, (g, w) in itertools.chain(((False, x) for x in some), ((True, x) for x in long)):
        ops, terms = [], gram.terminals_of(g)
        for i in range(c.rng.choice([2, 2, 3])):
            if i:
                if c.rng.random() < 0.5:      # leave in the middle of something
                    keep = c.rng.randrange(len(part) + 1)
                    ops = ops[:len(ops) - len(part) + keep]
                ops.append({"op": "reset"})
                w = [[t] for t in gram.words(c.rng, gram.plain_of(g), terms, 1, 30 if big_ else N(5, 8))[0]]
                if not small_enough(g, [set(x) for x in w], 10 ** 9 if big_ else 40):
                    break
            part = parse_ops(c.rng, g, w, c.rng.choice([None, None, "next", "mixed"]))
            ops += part
        ss.append({"g": g, "forest": "rec", "ops": ops, "past_failure": False,
                   "policy": c.rng.choice(["default", "default", "default", "tiny", "nolook"])})
        if big_:
            ss[-1].update(without=["cfg"], light=True)
    ss += model(c, lambda g, ops: {"g": g, "forest": "rec", "ops": ops, "past_failure": False,
                                   "policy": c.rng.choice(["default", "tiny", "nolook"])}, 8, 3, hints=True, reset=True)
    recognizer_check(c, ss, ALL)


def r07(c):
    make = lambda g, w: {"g": g, "forest": "rec", "ops": parse_ops(c.rng, g, w)}
    ss = [make(g, w) for g, w in inputs(c.rng, N(250, 3000), N(6, 9), 1.0)]
    ss += big(c, lambda g, w: make(g, lattice(c.rng, gram.terminals_of(g), [x[0] for x in w])))
    ss += model(c, plain("rec"), 12, 3, maxalt=2)
    p_model.trees(c, p_model.some(c.rng, N(12, 200)), N(3, 4), 2)
    recognizer_check(c, ss, ALL)


def r08(c):
    make = lambda g, w: {"g": g, "forest": "rec", "ops": parse_ops(c.rng, g, w)}
    ss = [make(g, w) for g, w in inputs(c.rng, N(500, 5000), N(8, 10), 0.15)]
    # long inputs that have few trees, and inputs with many
    ss += [make(g, w) for g, w in itertools.islice(((g, w) for g, w in long_inputs(c.rng, 10 ** 6, 30, 2500)
                                                    if small_enough(g, [set(x) for x in w], 4, 100)), N(12, 150))]
    ss += [make(g, w) for g, w in itertools.islice(((g, w) for g, w in dense_inputs(c.rng, 10 ** 6, 7, 1500)
                                                    if small_enough(g, [set(x) for x in w], 800, 800)), N(12, 150))]
    ss += big(c, make)
    ss += model(c, plain("rec"), 24, 5)
    p_model.trees(c, p_model.some(c.rng, N(60, 2000)), N(5, 6))
    p_model.trees(c, p_model.some(c.rng, N(16, 200)), 4, hints=True)
    recognizer_check(c, ss, ["accept", "forest"])


def manual(rng, g, skip, reject):
    def how(i):
        k = rng.random()
        if i == 0 or k < 0.2:
            return {"how": rng.choice(["entire", "each", "all"]), "skip": [], "reject": []}
        sk = [[rng.choice([x[0] for x in g["rules"]]), rng.randrange(0, 4)] for _ in range(rng.choice([0, 1, 1, 2]))]
        rj = rng.sample(range(len(g["rules"])), min(len(g["rules"]), rng.choice([0, 1, 1, 2])))
        return {"how": "each" if reject else rng.choice(["entire", "each"]),
                "skip": sk if skip else [], "reject": rj if reject else []}

    def plain_how(i):
        return {"how": rng.choice(["entire", "each", "all"]), "skip": [], "reject": []}
    return how if skip or reject else plain_how


def r09(c):
    make = lambda g, w: {"g": g, "forest": "rec", "ops": parse_ops(c.rng, g, w, how=manual(c.rng, g, True, c.rng.random() < 0.5))}
    ss = [make(g, w) for g, w in inputs(c.rng, N(400, 3500), N(6, 9), 0.15)] + big(c, make)
    ss += model(c, by_hand(c, True, None), 12, 3, maxalt=2)
    recognizer_check(c, ss, ["groups", "accept", "fail", "items", "pred", "forest"])


def r10(c):
    make = lambda g, w: {"g": g, "forest": "rec", "ops": parse_ops(c.rng, g, w)}
    ss = [make(g, w) for g, w in inputs(c.rng, N(400, 3000), N(25, 60), 0.1)] + big(c, make)
    ss += model(c, plain("rec"), 24, 6)
    recognizer_check(c, ss, ["retain"])


def r11(c):
    ss = []
    some = inputs(c.rng, N(140, 1000), N(6, 9), 0.15)
    long = itertools.chain(long_inputs(c.rng, N(8, 60), 60), dense_inputs(c.rng, N(5, 40), 14))
    for big_, (g, w) in itertools.chain(((False, x) for x in some), ((True, x) for x in long)):
        hint = c.rng.choice([None, "next"])
        ops = parse_ops(c.rng, g, w, hint)
        for pol in ("default", "tiny", "nolook", "sized"):
            s = {"g": g, "forest": "rec", "ops": ops, "policy": pol}
            if pol == "sized":
                s.update(memory=c.rng.choice([0, 1, 100, 8192]), tokens=c.rng.choice([1, 2, 1000]),
                         nsyms=c.rng.choice([1, g["nsyms"]]))
            if big_:
                s.update(without=["cfg"], light=True)
            ss.append(s)
    for s in model(c, plain("rec"), 6, 3, hints=True):
        ss += [dict(s, policy=pol) for pol in ("default", "tiny", "nolook")]
    recognizer_check(c, ss, ALL)


def r12(c):
    make = lambda g, w: {"g": g, "forest": "rec", "ops": parse_ops(c.rng, g, w), "more": True}
    ss = [make(g, w) for g, w in inputs(c.rng, N(600, 4000), N(8, 12), 0.15)] + big(c, make)
    ss += model(c, plain("rec", more=True), 24, 4)
    recognizer_check(c, ss, ["events"])


def stretched(rng, p, n):
    """A sentence laid over locations 1..n with tokens of any length: (token, from, to)."""
    for _ in range(5):
        v = p.sentence(rng, rng.randrange(1, n + 1))
        if v and len(v) <= n:
            cuts = [0] + sorted(rng.sample(range(1, n), len(v) - 1)) + [n]
            return [(t, cuts[i], cuts[i + 1]) for i, t in enumerate(v)]
    return []


def with_long_tokens(rng, g, w, wide=0):
    """The calls of a parse with tokens that span several locations."""
    p, terms = gram.plain_of(g), gram.terminals_of(g)
    spans = set()
    if not wide:
        for _ in range(rng.choice([0, 1, 1, 2])):
            spans |= {e for e in stretched(rng, p, len(w)) if e[2] - e[1] > 1}
    for _ in range(rng.choice([0, 0, 1, 2, 4]) + wide):
        i = rng.randrange(len(w))
        j = rng.randrange(i + 1, len(w) + 1)
        if wide and rng.random() < 0.6:
            i, j = min(i, len(w) - j), max(j, len(w) - i)
        if j - i > 1:
            # in place of the token that stands at one of its ends, or of another one
            spans.add((rng.choice([w[i][0], w[j - 1][0], rng.choice(terms)]), i, j))
    ops, k = [], -1
    for o in parse_ops(rng, g, w):
        if o["op"] == "begin":
            k += 1
            late = [{"op": "span", "sym": t, "back": j - i - 1} for t, i, j in spans if j == k and j > i + 1]
            rng.shuffle(late)
            early = late[:len(late) // 2]
            late = late[len(late) // 2:]
            ops += [o] + early
        elif o["op"] in ("end", "groups"):
            ops += late + [o]
        else:
            ops.append(o)
    s = {"g": g, "forest": rng.choice(["rec", "null"]), "ops": ops}
    if s["forest"] == "null":
        s["without"] = ["forest"]
    return s


def r13(c):
    ss = [with_long_tokens(c.rng, g, w) for g, w in inputs(c.rng, N(500, 4000), N(7, 10), 0.2) if w]
    ss += [s for s in big(c, lambda g, w: with_long_tokens(c.rng, g, w, c.rng.choice([2, 6, 20])), ["cfg", "forest"], (3, 30))]
    ss += model(c, plain("rec"), 14, 4, long=True)
    p_model.trees(c, p_model.some(c.rng, N(8, 100)), 3, long=True)
    c.extra["sessions_with_long_tokens"] = sum(1 for s in ss if any(o["op"] == "span" for o in s["ops"]))
    c.extra["longest_token"] = max(o["back"] + 1 for s in ss for o in s["ops"] if o["op"] == "span")
    recognizer_check(c, ss, ["accept", "fail", "cfg", "items", "pred", "forest"])


def r14(c):
    make = lambda g, w: {"g": g, "forest": "rec", "ops": parse_ops(c.rng, g, w, how=manual(c.rng, g, False, False))}
    ss = [make(g, w) for g, w in inputs(c.rng, N(300, 3000), N(6, 9), 0.15)] + big(c, make)
    ss += model(c, by_hand(c, False, False), 12, 3, maxalt=2)
    recognizer_check(c, ss, ALL + ["groups"])


CHECKS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == "r" and k[1:].isdigit()}
