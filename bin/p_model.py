"""Model checking of spec/Recognizer.tla and replay of its histories."""
import itertools, json
import gram
from vlib import *

N = lambda quick, thorough: thorough if THOROUGH else quick
INV = ["Assumed", "Refines", "GroupsOnce", "GroupsAll", "KeptEnough", "Agrees", "Corners"]
HINT = ["HintSafe", "HintEnd", "HintFail"]


def small_grammars(rng, n):
    out = []
    while len(out) < n:
        g = gram.internal(rng, True, pad=0, shaped=0.3)
        if g["nsyms"] <= 9 and len(g["rules"]) <= 14:
            out.append(g)
    return out


def enumerated(rng):
    """Every reduced grammar with at most two nonterminals S and A, terminals a and b,
    at most three rules, right-hand sides of one or two symbols (three if there is
    only S), up to renaming the terminals; symbols are numbered at random."""
    s, a, t, u = ("N", 0), ("N", 1), ("T", 0), ("T", 1)
    lone = [(s, list(r)) for n in (1, 2, 3) for r in itertools.product([s, t, u], repeat=n) if list(r) != [s]]
    two = [(s, list(r)) for n in (1, 2) for r in itertools.product([s, a, t, u], repeat=n) if list(r) != [s]]
    two += [(a, list(r)) for n in (1, 2) for r in itertools.product([s, a, t, u], repeat=n) if len(r) > 1 or r[0] in (t, u)]
    seen = set()
    for pool, k, nn in ((lone, 1, 1), (lone, 2, 1), (two, 2, 2), (two, 3, 2)):
        for rules in itertools.combinations(pool, k):
            swap = {t: u, u: t}
            key = lambda rs: tuple(sorted((l, tuple(r)) for l, r in rs))
            other = key([(l, [swap.get(x, x) for x in r]) for l, r in rules])
            if key(rules) in seen or other in seen:
                continue
            seen.add(key(rules))
            if {l for l, _ in rules} != {("N", i) for i in range(nn)}:
                continue
            g = gram.numbered(rng, list(rules), nn, 2)
            if g is not None:
                yield g


def write(c, grammars):
    f = c.path("grammars.ndjson")
    with open(f, "w") as h:
        for g in grammars:
            h.write(json.dumps({k: v for k, v in g.items() if k not in ("events", "trace")}) + "\n")
    return {"GRAMMARS": f}


def explore(c, grammars, maxlen, maxalt=1, hints=False, reset=False, long=False):
    """Every input and schedule within bounds, for every grammar."""
    m = cfg("RSpec", dict(MaxLen=maxlen, MaxAlt=maxalt, WithHints=hints, WithReset=reset, WithLong=long, Emitting=False),
            INV + (HINT if hints else []), view="RView")
    r = c.tlc_ok("Recognizer", m, env=write(c, grammars), timeout=N(300, 3000))
    k = "Recognizer: %d grammars, %d locations, %d tokens each%s%s%s" % (
        len(grammars), maxlen, maxalt, ", announced tokens" if hints else "", ", reset" if reset else "", ", longer tokens" if long else "")
    c.extra.setdefault("model_states", {})[k] = r.distinct


def trees(c, grammars, maxlen, maxalt=1, hints=False, long=False):
    """The same with the alternatives every item carries."""
    m = cfg("FSpec", dict(MaxLen=maxlen, MaxAlt=maxalt, WithHints=hints, WithReset=False, WithLong=long, Emitting=False),
            ["Carried", "ItemTrees", "AllTrees"], view="RView")
    r = c.tlc_ok("RecForest", m, env=write(c, grammars), timeout=N(300, 3000))
    k = "RecForest: %d grammars, %d locations, %d tokens each%s%s" % (
        len(grammars), maxlen, maxalt, ", announced tokens" if hints else "", ", longer tokens" if long else "")
    c.extra.setdefault("model_states", {})[k] = r.distinct


def histories(c, grammars, maxlen, maxalt=1, hints=False, reset=False, long=False):
    """The calls of a path to every transition of the model (prefixes left out)."""
    m = cfg("RSpec", dict(MaxLen=maxlen, MaxAlt=maxalt, WithHints=hints, WithReset=reset, WithLong=long, Emitting=True),
            [], action_constraint=["Emit"], view="GenView")
    r = c.tlc_ok("Recognizer", m, env=write(c, grammars), timeout=N(300, 3000), workers=1)
    paths = {}
    for x in r.gen():
        paths[(x["gi"], json.dumps(x["ops"])[:-1])] = x
    keys, out = sorted(paths), []
    for i, k in enumerate(keys):
        longer = keys[i + 1] if i + 1 < len(keys) else (0, "")
        if longer[0] == k[0] and longer[1].startswith(k[1]):
            continue
        values = iter(range(c.rng.randrange(1000), 10 ** 9))
        ops = [dict(o, value=next(values)) if o["op"] == "scan" else o for o in paths[k]["ops"]]
        out.append((grammars[k[0] - 1], ops))
    c.extra["generated_histories"] = c.extra.get("generated_histories", 0) + len(out)
    return out


_all = {}


def some(rng, n):
    """Enumerated grammars (all of them in the thorough tier) and random ones."""
    if "e" not in _all:
        _all["e"] = list(enumerated(rng))
    e = _all["e"]
    return rng.sample(e, min(len(e), n)) + small_grammars(rng, n // 2)
