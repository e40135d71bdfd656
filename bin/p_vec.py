"""V01..V04: gearley-vec2d against spec/Vec2d.tla."""
from vlib import *

GROUPS = {
    "V01": dict(slots=["A"], ops=["push", "pop", "next", "set", "extend", "sort", "poke"], items=3, closed=3),
    "V02": dict(slots=["A"], ops=["push", "next", "set", "truncate", "chart", "pop"], items=3, closed=3),
    "V03": dict(slots=["A"], ops=["push", "next", "set", "extend", "clear", "new", "collect", "truncate"], items=3, closed=2),
    "V04": dict(slots=["A", "B"], ops=["push", "next", "pop", "truncate", "clone", "assign", "miniserde", "serde"], items=2, closed=1),
}


SINGLE = ["push", "push", "push", "fill", "fill", "pop", "next", "next", "set", "extend", "truncate", "truncate", "chart", "sort",
          "poke", "clear", "new", "collect"]
COPIES = ["clone", "assign", "miniserde", "serde"]
KINDS = ["i64"] * 6 + ["string", "i8", "wide", "unit"]


def suits(kind, op):
    return not (op == "truncate" and kind == "string" or op in ("miniserde", "serde") and kind in ("wide", "unit"))


def random_session(rng, slots, ops, length, scale=0):
    """A history that respects the callers' preconditions (tracked here only to
    choose arguments; TLC judges the outcome)."""
    st = {s: ([], []) for s in slots}
    out = []
    kind = rng.choice(KINDS)
    some = lambda: 0 if kind == "unit" else rng.randrange(-9, 100)
    big = rng.random() < 0.1
    calm = rng.random() < 0.5     # few operations that throw the object away
    if big and not scale:
        length = 12
    for _ in range(length):
        s = rng.choice(slots)
        closed, cur = st[s]
        start = sum(map(len, closed))
        op = rng.choice(ops)
        if not suits(kind, op):
            continue
        if calm and op in ("clear", "new", "collect") and rng.random() < 0.8:
            continue
        e = {"op": op, "s": s}
        if rng.random() < 0.3:
            e["lazy"] = True    # an iterator that does not know its length
        sizes = [0, 1, 1, 2, 3, 5] + [17, 40, 70] * big
        if scale:
            sizes = [0, 1, scale - rng.randrange(9), scale + rng.randrange(scale)]
        lst = lambda: [some() for _ in range(rng.choice(sizes))]
        if op == "push":
            e["x"] = some()
            cur = cur + [e["x"]]
        elif op == "pop":
            if not cur and start:
                continue
            cur = cur[:-1]
        elif op == "next":
            closed, cur = closed + [cur], []
        elif op == "fill":
            e["l"] = lst()
            cur = cur + e["l"]
        elif op == "set":
            e["l"] = lst()
            closed, cur = closed + [cur + e["l"]], []
        elif op in ("extend", "collect"):
            e["ss"] = [lst() for _ in range(rng.choice([0, 1, 2, 3] + [9, 33] * big + [70, 300] * (0 < scale < 200)))]
            if op == "collect":
                closed, cur = [], []
            for x in e["ss"]:
                closed, cur = closed + [cur + x], []
        elif op == "truncate":
            e["n"] = rng.choice([0, len(closed), len(closed), rng.randrange(len(closed) + 1), max(0, len(closed) - 1)])
            closed = closed[:e["n"]]
        elif op == "chart":
            e["n"] = start + rng.randrange(len(cur) + 2)
            cur = cur[:e["n"] - start]
        elif op == "poke":
            if not cur:
                continue
            e["i"], e["x"] = rng.randrange(len(cur)) + 1, some()
            cur = list(cur)
            cur[e["i"] - 1] = e["x"]
        elif op == "sort":
            cur = sorted(cur)
        elif op in ("clear", "new"):
            if op == "new":
                e["n"] = rng.choice([0, 1, 2, 9])
                e["chart"], e["sets"] = rng.choice([0, 1, 7, 300]), rng.choice([0, 1, 5])
            closed, cur = [], []
        else:
            e["t"] = rng.choice([x for x in slots if x != s])
            st[e["t"]] = (closed, cur)
        st[s] = (closed, cur)
        out.append(e)
    return {"slots": slots, "kind": kind, "ops": out}


def many_sets(rng, slots, ops, count):
    s = random_session(rng, slots[:1], [o for o in ops if o in ("push", "next", "truncate", "set", "sort")], 6)
    ops = s["ops"]
    some = lambda: 0 if s["kind"] == "unit" else rng.randrange(100)
    ss = [[some() for _ in range(rng.choice([0, 1, 1, 2]))] for _ in range(rng.randrange(count // 2, count))]
    ops.insert(0, {"op": rng.choice(["extend", "collect"]), "s": slots[0], "ss": ss})
    ops.insert(1, {"op": "truncate", "s": slots[0], "n": rng.randrange(len(ss) + 1)} if suits(s["kind"], "truncate")
               else {"op": "next", "s": slots[0]})
    ops += [{"op": o, "s": slots[0], "t": slots[1]} for o in COPIES[:2] * (len(slots) > 1)]
    return {"slots": slots, "kind": s["kind"], "ops": ops}


def check(prop):
    g = GROUPS[prop]

    def run(c):
        exes = build_variants("drv-vec2d", ["serde", "miniserde", ""])
        # The design: every operation on the representation refines the abstract one.
        c.tlc_ok("Vec2dImpl", cfg("ISpec", dict(Slots={"A"}, Items={1, 2}, MaxSets=1,
                                                MaxChart=4 + THOROUGH, MaxIndices=4),
                                  ["IndexInv"], ["Refines"], ["Bound"]))
        # From the specification into the code: every transition of the bounded graph.
        r = c.tlc_ok("VecTrace", cfg(
            "GSpec", dict(Slots=set(g["slots"]), Items={1, 2}, MaxSets=2 if THOROUGH else 1, OpNames=set(g["ops"]),
                          MaxClosed=g["closed"], MaxItems=g["items"] + THOROUGH, MaxHist=9, Window=1),
            ["TypeOK", "Partition"], ["OneObjectG"], ["GBound"], ["Emit"], view="GView"))
        gen = r.gen()
        if len(gen) < 100:
            raise ToolError("the generator printed only %d histories" % len(gen))
        sessions = [{"slots": g["slots"], "last_only": True, "ops": x["ops"]} for x in gen]
        for k, s in enumerate(sessions):
            s["kind"] = ["i64", "i64", "i8", "wide", "string"][k % 5]
            if not all(suits(s["kind"], e["op"]) for e in s["ops"]):
                s["kind"] = "i64"
        for x, rec in [p for exe in exes for p in zip(gen, c.drive(exe, sessions))]:
            last = rec["ops"][-1]
            if last["op"] == "panic" or last["reply"] != x["reply"] or last["obs"] != x["obs"]:
                raise Violation("a generated history shows something else than Vec2d.tla says",
                                {"ops": x["ops"], "expected": {"reply": x["reply"], "obs": x["obs"]}, "got": last})
        c.traces += len(gen)
        c.extra["generated_histories_replayed"] = len(gen)
        # From the code into the specification: longer random histories.
        n, length = (6000, 60) if THOROUGH else (700, 40)
        ops = SINGLE + COPIES * (len(g["slots"]) > 1) + g["ops"]
        rnd = [random_session(c.rng, g["slots"], ops, length) for _ in range(n)]
        # sizes at which counters and buffers of several widths overflow
        for scale, k, steps in ((100, 16, 16), (300, 16, 14), (700, 6, 12), (5000, 3, 10), (66000, 1, 8)):
            rnd += [random_session(c.rng, g["slots"], ops, steps, scale) for _ in range(k * (1 + 3 * THOROUGH))]
        for scale, k in ((300, 12), (3000, 12), (70000, 1)):
            rnd += [random_session(c.rng, g["slots"][:1], ["fill", "next", "truncate", "chart", "set"], 9, scale)
                    for _ in range(k * (1 + 3 * THOROUGH))]
            for s in rnd[-k:]:
                s["slots"] = g["slots"]
        # very many sets
        for count, k in ((1500, 2), (4000, 1), (134000, 1)):
            rnd += [many_sets(c.rng, g["slots"], ops, count) for _ in range(k * (1 + 3 * THOROUGH))]
        recs = [r for exe in exes for r in c.drive(exe, rnd)]
        c.extra["random_histories_validated"] = len(recs)
        c.sample({"generated": gen[len(gen) // 2]})
        c.sample({"recorded": recs[0]["ops"][-3:]})
        c.validate("VecTrace", cfg("TSpec", dict(Slots=set(g["slots"]), Items={1, 2}, MaxSets=1, OpNames=set(g["ops"]),
                                                 MaxClosed=0, MaxItems=0, MaxHist=0, Window=0),
                                   deadlock=True), recs)
        c.assumptions = ["callers respect the operations' preconditions (Vec2d.tla: enabling conditions)"]
    return run


CHECKS = {p: check(p) for p in GROUPS}
