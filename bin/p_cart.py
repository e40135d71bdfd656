"""C01, C02: the cartesian product of gearley-utils against spec/Cartesian.tla."""
from vlib import *

GROUPS = {
    # one product built at once, then enumerated
    "C01": dict(ops=["push", "extend", "clear", "advance"], pool=[1, 2, 3], maxf=3, hist=30, window=0),
    # any way of building it, rebuilding it and advancing in between
    "C02": dict(ops=["push", "extend", "clear", "new", "advance"], pool=[1, 2, 3], maxf=3, hist=7, window=1),
}


KINDS = ["pair", "u8", "string", "wide"]


def random_session(rng, prop, huge=False):
    big = rng.random() < 0.2
    lens = [rng.choice([1, 1, 2, 2, 3, 4] + ([9, 17] if big else [])) for _ in range(rng.randrange(1, 7))]
    if huge:
        lens += [rng.choice([100, 255, 256, 257, 300, 600])]
    facs, at = [], 1
    for n in lens:
        facs.append([at, n])
        # next to it, with a gap, or overlapping
        at += rng.choice([n, n, n + rng.randrange(1, 4), rng.randrange(1, n + 1)])
    size = max(f + n for f, n in facs)
    limit = 1000 if huge else 150
    ops, cur = [], []

    def total():
        t = 1
        for f in cur:
            t *= f[1]
        return t
    for _ in range(2 if huge else rng.randrange(3, 10)):
        if prop == "C01":
            ops.append({"op": "clear"})
            cur = []
            many = rng.random() < 0.1
            # more combinations than any counter holds: a part of the round
            limit = 10 ** 30 if rng.random() < 0.1 else 1000 if huge else 150
            few = limit > 1000
            # many factors that add nothing, and others late
            late = rng.randrange(10, 90) if rng.random() < 0.1 + 0.3 * huge else 0
            one = [x for x in facs if x[1] == 1] or [[facs[0][0], 1]]
            for i in range(rng.randrange(late, 5 + late + 6 * many + 40 * (many and huge) + 70 * few)):
                f = rng.choice(facs) if i >= late or rng.random() < 0.05 else rng.choice(one)
                if huge and total() < 100 and rng.random() < 0.3:
                    f = facs[-1]
                if total() * f[1] > limit:
                    f = min(facs, key=lambda x: x[1])
                    if total() * f[1] > limit:
                        break
                cur.append(f)
                if rng.random() < 0.4:
                    ops.append({"op": "extend", "fs": [f], "lazy": rng.random() < 0.5})
                else:
                    ops.append({"op": "push", "f": f})
            for _ in range(min(total() * rng.choice([1, 1, 2]) + rng.randrange(3), 60 if few else 10 ** 9)):
                ops.append({"op": "advance"})
        else:
            k = rng.choice(["push", "push", "extend", "extend", "clear", "new", "advance", "advance"])
            if k == "push":
                f = rng.choice(facs)
                cur.append(f)
                ops.append({"op": "push", "f": f})
            elif k == "extend":
                fs = [rng.choice(facs) for _ in range(rng.choice([0, 1, 2, 3, 12] + [40, 300] * huge))]
                cur += fs
                ops.append({"op": "extend", "fs": fs, "lazy": rng.random() < 0.5})
            elif k in ("clear", "new"):
                cur = []
                ops.append({"op": k})
            else:
                for _ in range(min(40, total() + rng.randrange(3))):
                    ops.append({"op": "advance"})
    return {"size": size, "kind": rng.choice(KINDS), "ops": ops}


def long_session(rng, prop):
    """Factors that are much longer than what a session goes through step by step."""
    top = 2000000 if THOROUGH else 150000
    lens = [rng.choice([1, 2, 3, 1000, 4096, 32768, 65535, 65536, 65537, 70000, 131072, rng.randrange(1, top)]) for _ in range(3)]
    facs, at = [], 1
    for n in lens:
        facs.append([at, n])
        at += rng.randrange(1, n + 2)
    ops, cur, steps = [], [], 0
    while steps < 5 * top:
        k = rng.random()
        if k < 0.1 and prop == "C02" or k < 0.05:
            ops.append({"op": "clear"})
            cur = []
        total = 1
        for f in cur:
            total *= f[1]
        if k < 0.5 or not cur:
            fs = [f for f in rng.sample(facs, rng.choice([1, 1, 2]))]
            for f in fs:
                total *= f[1]
            if total > 10 ** 9 and cur:
                ops.append({"op": "clear"})
                cur = []
                continue
            if total > 10 ** 9:
                continue
            cur += fs
            ops.append({"op": "extend", "fs": fs, "lazy": rng.random() < 0.5} if len(fs) > 1 else {"op": "push", "f": fs[0]})
        n = rng.choice([1, cur[0][1] - 1, cur[0][1], min(total, top), min(total, top) - 1, rng.randrange(top), rng.randrange(1000)])
        if total < top and rng.random() < 0.5:
            n = total * rng.choice([1, 1, 2]) + rng.choice([-1, 0, 1, rng.randrange(total)])
        steps += n + 1000
        ops.append({"op": "advances", "n": n})
        ops.append({"op": "advance"})
    return {"size": max(f + n for f, n in facs), "kind": rng.choice(["pair", "u8"]), "ops": ops}


def check(prop):
    g = GROUPS[prop]

    def run(c):
        exe = build("drv-cartesian")
        pool = g["pool"] + ([4] if THOROUGH else [])
        facs = {(sum(pool[:i]) + 1, n) for i, n in enumerate(pool)}
        if prop == "C02":
            facs.add((2, 2))      # overlaps two of the others
        base = dict(Pool=facs, OpNames=set(g["ops"]), MaxFactors=g["maxf"], MaxHist=g["hist"],
                    MaxRound=0, Window=g["window"])
        # design: every full round visits each combination exactly once
        c.tlc_ok("CartTrace", cfg("GSpec", dict(base, MaxHist=80), ["InRange", "AdvancesAreSteps"], ["ExactlyOnceG"],
                                  ["GBound"], view="FullView"))
        r = c.tlc_ok("CartTrace", cfg("GSpec", base, ["InRange"], [], ["GBound"], ["Emit"], view="GView"))
        gen = r.gen()
        if len(gen) < 100:
            raise ToolError("the generator printed only %d histories" % len(gen))
        sessions = [{"size": sum(pool), "kind": KINDS[k % 4], "ops": x["ops"], "last_only": True} for k, x in enumerate(gen)]
        for x, rec in zip(gen, c.drive(exe, sessions)):
            last = rec["ops"][-1]
            if last["op"] == "panic" or last["reply"] != x["reply"] or last["tuple"] != x["tuple"]:
                raise Violation("a generated history shows something else than Cartesian.tla says",
                                {"ops": x["ops"],
                                 "expected": {"reply": x["reply"], "tuple": x["tuple"]}, "got": last})
        c.traces += len(gen)
        c.extra["generated_histories_replayed"] = len(gen)
        rnd = [random_session(c.rng, prop) for _ in range(4000 if THOROUGH else 400)]
        rnd += [random_session(c.rng, prop, True) for _ in range(200 if THOROUGH else 20)]
        rnd += [long_session(c.rng, prop) for _ in range(60 if THOROUGH else 12)]
        recs = c.drive(exe, rnd)
        c.extra["random_histories_validated"] = len(recs)
        c.sample({"generated": gen[len(gen) // 2]})
        c.sample({"recorded": recs[0]["ops"][-3:]})
        c.validate("CartTrace", cfg("TSpec", base, deadlock=True), recs)
        c.assumptions = ["factors are not empty and elements are not zero-sized"]
    return run


CHECKS = {p: check(p) for p in GROUPS}
