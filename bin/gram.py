"""Random grammars and inputs.  Nothing here decides anything: the tables made
here are judged by WellFormed in spec/Earley.tla, sentences only steer."""


def closure(step, seed):
    seen, todo = set(seed), list(seed)
    while todo:
        for y in step(todo.pop()):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen


class Plain:
    """An external grammar: syms, rules [(lhs, rhs)], root."""

    def __init__(self, syms, rules, root):
        self.syms, self.rules, self.root = syms, rules, root
        self.by = {}
        for k, (l, r) in enumerate(rules):
            self.by.setdefault(l, []).append((k, r))

    def productive(self):
        p = {s for s in range(self.syms) if s not in self.by}
        while True:
            q = p | {l for l, r in self.rules if all(x in p for x in r)}
            if q == p:
                return p
            p = q

    def nullable(self):
        p = set()
        while True:
            q = p | {l for l, r in self.rules if all(x in p for x in r)}
            if q == p:
                return p
            p = q

    def reachable(self):
        return closure(lambda x: [y for _, r in self.by.get(x, []) for y in r], [self.root])

    def proper(self):
        p = self.productive()
        g = Plain(self.syms, [(l, r) for l, r in self.rules if all(x in p for x in r)], self.root)
        u = g.reachable()
        return Plain(self.syms, [(l, r) for l, r in g.rules if l in u], self.root)

    def cyclic(self):
        n = self.nullable()
        step = lambda x: [r[i] for _, r in self.by.get(x, []) for i in range(len(r))
                          if all(r[j] in n for j in range(len(r)) if j != i)]
        return any(x in closure(step, step(x)) for x in self.by)

    def heights(self):
        h = {s: 0 for s in range(self.syms) if s not in self.by}
        while True:
            new = dict(h)
            for l, r in self.rules:
                if all(x in h for x in r):
                    v = 1 + max([h[x] for x in r], default=0)
                    if l not in new or v < new[l]:
                        new[l] = v
            if new == h:
                return h
            h = new

    def sentence(self, rng, fuel, x=None):
        """A random sentence of at most about `fuel` tokens."""
        h = self.heights()
        if self.root not in h:
            return []
        out = []
        stack = [self.root if x is None else x]
        steps = 0
        while stack:
            steps += 1
            x = stack.pop()
            if x not in self.by:
                out.append(x)
                continue
            alts = [r for _, r in self.by[x] if all(y in h for y in r)]
            if steps > 3 * fuel or len(out) + len(stack) > fuel:
                best = min(max([h[y] for y in r], default=0) for r in alts)
                alts = [r for r in alts if max([h[y] for y in r], default=0) == best]
            stack += reversed(rng.choice(alts))
            if steps > 400:
                return None
        return out


def spans_of(g, w):
    """spans[x][i]: where a string that x derives, beginning at i, may end."""
    n = len(w)
    f = {x: [({i + 1} if x not in g.by and i < n and x in w[i] else set()) for i in range(n + 1)]
         for x in range(g.syms)}
    while True:
        more = False
        for l, r in g.rules:
            for i in range(n + 1):
                ends = {i}
                for y in r:
                    ends = set().union(*(f[y][k] for k in ends)) if ends else ends
                if not ends <= f[l][i]:
                    f[l][i] |= ends
                    more = True
        if not more:
            return f


def count_trees_bounded(g, w, cap=60, parts=False):
    """The number of trees, not counted far beyond cap (to keep TLC small); or
    the greatest such number for any part of the input."""
    f = spans_of(g, w)
    memo = {}

    def sym(x, i, j):
        if j not in f[x][i]:
            return 0
        if x not in g.by or i == j:
            return 1
        key = (x, i, j)
        if key not in memo:
            t = 0
            for _, r in g.by[x]:
                t += seq(tuple(r), i, j)
                if t > cap:
                    break
            memo[key] = t
        return memo[key]

    def derives(r, i, j):
        ends = {i}
        for y in r:
            ends = set().union(*(f[y][k] for k in ends)) if ends else ends
        return j in ends

    def seq(r, i, j):
        if not r:
            return 1 if i == j else 0
        t = 0
        for k in f[r[0]][i]:
            if k <= j and derives(r[1:], k, j):
                t += sym(r[0], i, k) * seq(r[1:], k, j)
                if t > cap:
                    break
        return t
    if parts:
        return max([sym(x, i, j) for x in g.by for i in range(len(w)) for j in f[x][i]], default=0)
    return sym(g.root, 0, len(w))


# Shapes that occur in practice.  Upper case: nonterminals, the first is the root.
SHAPES = [s.split("; ") for s in [
    "S aS; S a",
    "S aSb; S ab",
    "S aSb; S ab; S SS",
    "S TS; S T; T Tab; T b",
    "S S+T; S T; T T*F; T F; F (S); F x",
    "S S+S; S S*S; S (S); S x",
    "S SS; S a",
    "S SSS; S SS; S a",
    "S aSbS; S a",
    "S iS; S iSeS; S x",
    "S aSa; S bSb; S a; S bb",
    "S A; A B; B bA; B b; B aAaB",
    "S aA; A bS; A b; A AA",
    "S aS; S aSb; S c",
    "S aSS; S a; S b",
    "S AB; A aA; A a; B aB; B a",
    "S AS; S A; A aAb; A aB; A ab; B bB; B b",
    "S xTy; T UT; T U; U xTy; U a; U ab; U b",
    "S AaS; S A; A aA; A bA; A a; A b",
    "S aSAA; S b; A a; A bA",
]]


def shape_of(lines):
    shape = [x.split(" ") for x in lines]
    up = list(dict.fromkeys(l for l, _ in shape))
    down = sorted({x for _, r in shape for x in r if x not in up})
    to = lambda x: ("N", up.index(x)) if x in up else ("T", down.index(x))
    return [(to(l), [to(x) for x in r]) for l, r in shape], len(up), len(down)


def deep(rng, size, which=None):
    """A grammar with few items and one tree, and a sentence of about this size.
    The first shapes keep every location to the end."""
    shapes = [
        ("S aS; S b", lambda n: "a" * n + "b"),
        ("S aTS; S b; T c; T dT", lambda n: "ac" * (n // 2) + "b"),
        ("S aSb; S c", lambda n: "a" * (n // 2) + "c" + "b" * (n // 2)),
        ("S aSbT; S c; T d", lambda n: "a" * (n // 3) + "c" + "bd" * (n // 3)),
        ("S AbS; S A; A a; A ca", lambda n: "".join(rng.choice(["ab", "cab"]) for _ in range(n // 2)) + "a"),
        ("S TcS; S T; T aTb; T d", lambda n: "dc" * (n // 3) + "a" * (n // 6) + "d" + "b" * (n // 6) + "cd" * (n // 6)),
        # one symbol completes from origins that are 256 locations apart; F keeps the locations
        ("S A; S PA; P Px; P Pt; P x; P t; A xB; B Bx; B Bt; B x; B t; S F; F tF; F xF; F u",
         lambda n: "t" * rng.randrange(9) + "x" + "t" * 255 + "x" + "t" * rng.choice([255, 9]) + "x" + "t" * rng.randrange(1, 9)),
    ]
    k, n = rng.choice(shapes) if which is None else shapes[which]
    long_rules, nn, nt = shape_of(k.split("; "))
    down = sorted({x for r in k.split("; ") for x in r.split(" ")[1] if x.islower()})
    while True:
        names = {}
        g = numbered(rng, long_rules, nn, nt, 0, names)
        if g is not None:
            return g, [names[("T", down.index(x))] for x in n(size)]


def binarized(rng, rules, ok, optional):
    """Chains of generated symbols in place of long rules."""
    out, gens = [], 0
    for lhs, rhs in rules:
        left = rhs[0]
        for k in range(1, len(rhs) - 1):
            g = ("G", gens)
            gens += 1
            out.append([g, left, rhs[k]])
            # what elimination of nullable symbols may leave
            if rng.random() < optional and (left[0] == "G" or ok(lhs, left)):
                out.append([g, left])
            elif rng.random() < optional and ok(lhs, rhs[k]):
                out.append([g, rhs[k]])
            left = g
        if len(rhs) == 1:
            out.append([lhs, left])
        else:
            out.append([lhs, left, rhs[-1]])
            if rng.random() < optional * 0.7 and (left[0] == "G" or ok(lhs, left)):
                out.append([lhs, left])
    return out, gens


def internal(rng, small=False, wide=False, pad=0.06, shaped=0.12):
    """A random grammar in the recognizer's form, with its tables."""
    while True:
        pads = rng.choice([1, 1, 2, 3]) if rng.random() < pad else 0
        long_rules = []
        if rng.random() < shaped and not wide:
            long_rules, nn, nt = shape_of(rng.choice(SHAPES))
        else:
            nn = rng.randrange(1, 3 if small else 5)      # besides the wrapper
            nt = rng.randrange(1, 3 if small else 4)
            if wide:    # several words of a bit matrix
                nn, nt = rng.choice([(8, 25), (30, 8), (20, 20), (45, 25), (12, 60), (20, 9), (20, 10), (40, 21), (41, 21), (28, 3)])
        # abstract symbols: ("N", i), ("T", i)
        names = [("N", i) for i in range(nn)] + [("T", i) for i in range(nt)]
        rank = {("N", i): i for i in range(nn)}
        ok = lambda lhs, x: x[0] == "T" or rank[x] > rank[lhs]
        for i in range(nn) if not long_rules else []:
            alts = rng.choice([1, 1, 2, 2, 3])
            if wide and rng.random() < 0.1:
                alts = rng.randrange(5, 20)
            for k in range(alts):
                ln = rng.choice([1, 1, 2, 2, 2, 3, 3, 4])
                if wide and rng.random() < 0.05:
                    ln = rng.randrange(5, 12)
                rhs = [rng.choice(names) for _ in range(ln)]
                if wide:    # reach everything, end somewhere
                    rhs = [rng.choice(names[:nn]) if rng.random() < 0.3 else rng.choice(names[nn:]) for _ in range(ln)]
                    if k == 0 and rng.random() < 0.5:
                        rhs = [rng.choice(names[nn:]) for _ in range(ln)]
                    for x in range(max(1, i), nn):
                        if k == alts - 1 and rng.random() < 0.1 or x in (i + 1, 2 * i + 1, 2 * i + 2) and k == alts - 1:
                            rhs.insert(rng.randrange(len(rhs) + 1), names[x])
                elif rng.random() < 0.35:
                    rhs = [x if x[0] == "T" or rng.random() < 0.5 else rng.choice([y for y in names if y[0] == "T"])
                           for x in rhs]
                if len(rhs) == 1 and not ok(("N", i), rhs[0]):
                    rhs = [rng.choice([x for x in names if ok(("N", i), x)])]
                long_rules.append((("N", i), rhs))
        g = numbered(rng, long_rules, nn, nt, pads)
        if g is not None:
            return g


def huge(rng, nn=None, kind=None):
    """Hundreds of symbols and rules, many of them wanted at one location."""
    while kind in ("twins", "crowd"):
        n = rng.choice([258, 262, 300]) if kind == "crowd" else 520
        rules = [(("N", 0), [("N", i)]) for i in range(1, n)]
        if kind == "twins":     # two tokens complete two symbols whose numbers are 256 apart
            rules += [(("N", i), [("T", i % 256 % 16), ("T", i % 256 // 16)]) for i in range(1, n)]
            g = numbered(rng, rules, n, 16, apart=True)
        else:               # all of them wait for one symbol at one location
            rules += [(("N", i), [("T", 0), ("N", n)] + [("T", 1)] * (i % 40 == 1)) for i in range(1, n)]
            rules += [(("N", n), [("T", 1)]), (("N", n), [("T", 1), ("T", 2)])]
            g = numbered(rng, rules, n + 1, 3)
        if g is not None:
            return g
    while True:
        n, nt = nn or rng.choice([60, 130, 270, 300, 300]), rng.choice([6, 18, 40])
        T = lambda: ("T", rng.randrange(nt))
        X = lambda i: ("N", rng.randrange(i + 1, n))
        rules = []
        for i in range(1, n):
            rules.append((("N", 0), [("T", i % 2)] + ([("T", 2)] if rng.random() < 0.2 else []) + [("N", i)]
                          + ([T()] if rng.random() < 0.1 else [])))
            alts = {(T(), T()) for _ in range(rng.choice([1, 1, 2]))}
            if rng.random() < 0.1:
                alts.add((T(), T(), T()))
            if rng.random() < 0.2 and i + 1 < n:
                alts.add(rng.choice([(T(), X(i)), (X(i), T()), (X(i),), (T(), X(0), T()), (X(i), X(i))]))
            if rng.random() < 0.02:
                alts.add((T(), ("N", 0)))
            rules += [(("N", i), list(a)) for a in sorted(alts)]
        g = numbered(rng, rules, n, nt)
        if g is not None:
            return g


def numbered(rng, long_rules, nn, nt, pads=0, names=None, apart=False):
    """Long rules over ("N", i) and ("T", i), in the recognizer's form, or None."""
    ok = lambda lhs, x: x[0] == "T" or x[1] > lhs[1]
    rules, gens = binarized(rng, long_rules, ok, 0.15)
    # a gensym is one recognizer's rule's first symbol, at most one of each kind
    seen, dup = set(), False
    for r in rules:
        if r[1][0] == "G":
            k = (r[1], len(r))
            dup |= k in seen
            seen.add(k)
    if dup:
        return None
    top, start, eof, sof = ("G", gens), ("S", 0), ("E", 0), ("E", 1)
    gens += 1
    rules.append([start, top, eof])
    rules.append([top, sof, ("N", 0)])
    trivial = rng.random() < 0.2
    if trivial:     # the start derives the empty string
        rules.append([top, sof])
    # number the symbols
    rest = [("T", i) for i in range(nt)] + [sof, start]
    order = [("N", i) for i in range(nn)]
    for x in rest:
        order.insert(rng.randrange(len(order) + 1) if not apart else rng.choice([0, len(order)]), x)
    order = [eof] + order
    # symbols that nothing refers to, with many rules: great rule numbers
    padding = [("P", i) for i in range(pads)] + [("Q", 0)] * (pads > 0)
    for x in padding:
        order.insert(rng.randrange(1, len(order) + 1), x)
    for i in range(pads):
        k = rng.choice([20, 40, 70, 140, 280]) // pads
        some = [x for x in order if x != eof]
        for _ in range(k):
            rules.append([("P", i), rng.choice(some) if rng.random() < 0.1 else ("Q", 0), rng.choice(order[1:])])
    num = {x: i for i, x in enumerate(order)}
    if names is not None:
        names.update(num)
    nsyms = len(order)
    for i in range(gens):
        num[("G", i)] = nsyms + i
    rng.shuffle(rules)
    rl = sorted([[num[x] for x in r] for r in rules], key=lambda r: r[0])
    real = [tuple(r) for r in rl if not any(r[0] == num[("P", i)] for i in range(pads))]
    if rng.random() < 0.95 and len(set(real)) != len(real):
        return None
    p = Plain(nsyms + gens, [(r[0], tuple(r[1:])) for r in rl], num[start])
    prod = p.productive()
    if any(s not in prod for s in range(nsyms + gens)):
        return None
    reach = p.reachable()
    if any(l not in reach for l in {r[0] for r in real}):
        return None
    # terminals that nothing uses may stay
    return tables(dict(nsyms=nsyms, ngens=gens, rules=rl, start=num[start], sof=num[sof], eof=num[eof], trivial=trivial), rng)


def tables(g, rng=None):
    n, rl = g["nsyms"], g["rules"]
    total = n + g["ngens"]
    by0 = {}
    for d, r in enumerate(rl):
        by0.setdefault(r[1], []).append(d)

    def owner(x):
        while x >= n:
            x = rl[by0[x][0]][0]
        return x
    byl = {}
    for d, r in enumerate(rl):
        byl.setdefault(owner(r[0]), []).append(d)
    step = lambda x: [rl[d][1] for d in byl.get(x, []) if rl[d][1] < n]
    pred = [sorted(closure(step, [x])) for x in range(n)]
    terms = {x for x in range(n) if x not in byl}
    first = [sorted(t for t in pred[x] if t in terms) for x in range(n)]
    follow = [set() for _ in range(total)]
    while True:
        new = [set(f) for f in follow]
        for d, r in enumerate(rl):
            if len(r) == 2:
                new[r[1]] |= follow[r[0]]
            else:
                new[r[1]] |= set(first[r[2]])
                new[r[2]] |= follow[r[0]]
        if new == follow:
            break
        follow = new
    tr = lambda d: dict(symbol=owner(rl[d][0]), dot=d, unary=len(rl[d]) == 2)
    both = lambda x: [tr(d) for d in by0.get(x, []) if len(rl[d]) == 3] + [tr(d) for d in by0.get(x, []) if len(rl[d]) == 2]
    g = dict(g)
    g["dot_before_eof"] = next(d for d, r in enumerate(rl) if len(r) == 3 and r[2] == g["eof"])
    g.setdefault("trivial", False)
    g["pred"] = pred
    g["first"] = first
    g["follow"] = [sorted(follow[x]) for x in range(n)]
    g["completions"] = [both(x) for x in range(n)]
    g["gen"] = [both(n + i) for i in range(g["ngens"])]
    if rng is not None:
        ev = lambda: [rng.randrange(50), rng.randrange(9)] if rng.random() < 0.6 else [-1, -1]
        td = lambda: [rng.randrange(50), rng.randrange(9)] if rng.random() < 0.8 else [-1, -1]
        g["events"] = dict(predict=[ev() for _ in range(n)], dot1=[ev() for _ in rl])
        g["trace"] = dict(predict=[td() for _ in range(n)], dot1=[td() for _ in rl], dot2=[td() for _ in rl])
    return g


def plain_of(g):
    """The internal grammar without its wrapper, as a Plain grammar whose
    root is the wrapped start symbol."""
    top = g["rules"][g["dot_before_eof"]][1]
    r = next(r for r in g["rules"] if r[0] == top and len(r) == 3)
    return Plain(g["nsyms"] + g["ngens"], [(r[0], tuple(r[1:])) for r in g["rules"]], r[2])


def terminals_of(g):
    lhs = {r[0] for r in g["rules"]}
    return [x for x in range(g["nsyms"]) if x not in lhs and x not in (g["sof"], g["eof"])]


def words(rng, p, terms, n, maxlen):
    """n inputs: sentences, damaged sentences, prefixes, noise."""
    out = []
    for _ in range(n * 20):
        if len(out) >= n:
            break
        w = p.sentence(rng, rng.randrange(1, maxlen + 1))
        if w is None or len(w) > maxlen:
            continue
        k = rng.random()
        if k < 0.2 and w:
            w = list(w)
            w[rng.randrange(len(w))] = rng.choice(terms)
        elif k < 0.3:
            w = list(w) + [rng.choice(terms)]
        elif k < 0.37:
            w = w[:rng.randrange(len(w) + 1)]
        elif k < 0.42:
            w = [rng.choice(terms) for _ in range(rng.randrange(maxlen))]
        elif k < 0.47 and w:
            i = rng.randrange(len(w))
            w = w[:i] + w[i + 1:]
        out.append(list(w))
    while len(out) < n:
        out.append([rng.choice(terms) for _ in range(rng.randrange(maxlen))])
    return out


def external(rng, small=False, nullable=None, hidden=None, waste=0.3, wide=None):
    """A random grammar as a user writes it, not cyclic, with a productive root."""
    wide = rng.random() < 0.04 if wide is None else wide
    while True:
        nn = rng.randrange(1, 4 if small else 6)
        nt = rng.randrange(1, 3 if small else 4)
        if wide:
            nn, nt = rng.choice([(8, 25), (30, 8), (20, 20), (45, 25), (12, 60), (18, 11), (20, 10), (40, 21), (41, 21), (28, 3)])
        spare = rng.choice([0, 0, 1, 2]) if rng.random() < waste else 0
        n = nn + nt + spare
        ids = list(range(n))
        if rng.random() < 0.7:
            rng.shuffle(ids)
        nts, ts = ids[:nn], ids[nn:nn + nt]
        eps = (rng.random() < 0.5) if nullable is None else nullable
        hid = (rng.random() < 0.2) if hidden is None else hidden
        rules = []
        for i, x in enumerate(nts):
            alts = rng.choice([1, 1, 2, 2, 3])
            if wide:
                alts += nt // nn
                if rng.random() < 0.1:
                    alts = rng.randrange(5, 20)
            for k in range(alts):
                ln = rng.choice([1, 1, 2, 2, 3, 3, 4, 5] if not eps else [0, 1, 1, 2, 2, 3, 3, 4, 5])
                if wide:
                    if rng.random() < 0.05:
                        ln = rng.randrange(6, 12)
                    if ln == 0 and rng.random() < 0.6:
                        ln = 2
                    rhs = [rng.choice(nts[i:]) if rng.random() < 0.3 else rng.choice(ts) for _ in range(ln)]
                    if k == 0 and rng.random() < 0.5:
                        rhs = [rng.choice(ts) for _ in range(ln)]
                    for x in range(i, nn):
                        if k == alts - 1 and (x in (i + 1, 2 * i + 1, 2 * i + 2) or rng.random() < 0.03):
                            rhs.insert(rng.randrange(len(rhs) + 1), nts[x])
                elif ln == 1 and rng.random() < 0.6:
                    rhs = [rng.choice(nts)]
                else:
                    rhs = [rng.choice(nts if rng.random() < 0.55 else ts) for _ in range(ln)]
                rules.append([x, rhs])
        hidden_rules = []
        if hid:
            # a list, the way sequences are rewritten: its rules are not visible
            lst = n
            n += 1
            elem = rng.choice(ts + nts)
            sep = rng.choice([[], [], [rng.choice(ts)], [rng.choice(ts + nts)]])
            base = [elem] * rng.choice([1, 1, 2, 3])
            hidden_rules = [[lst, base], [lst, [lst] + sep + [elem]]]
            for _ in range(rng.choice([1, 1, 2])):
                x = rng.choice(nts)
                rules.append([x, rng.choice([[lst], [lst], [lst, rng.choice(ts)], [rng.choice(ts), lst]])])
            rules += hidden_rules
        rng.shuffle(rules)
        if len({(l, tuple(r)) for l, r in rules}) != len(rules):
            continue
        p = Plain(n, [(l, tuple(r)) for l, r in rules], nts[0])
        if p.root not in p.productive() or p.root not in p.by:
            continue
        if hid and n - 1 in p.nullable():
            continue
        if p.proper().cyclic() or p.cyclic():
            continue
        if eps and rng.random() < 0.8 and not p.proper().nullable():
            continue
        out, k = [], 0
        for l, r in rules:
            h = [l, r] in hidden_rules
            out.append(dict(lhs=l, rhs=r, hidden=h, id=-1 if h else k))
            k += not h
        return dict(syms=n, rules=out, root=p.root, events=[])


def external_huge(rng, sizes=(60, 130, 270, 300)):
    """A user's grammar with hundreds of symbols and rules."""
    while True:
        nn, nt, nul = rng.choice(sizes), rng.choice([3, 20, 40]), rng.choice([0, 2, 10])
        n = nn + nt + nul
        ids = list(range(n))
        rng.shuffle(ids)
        T = lambda: ids[nn + rng.randrange(nt)]
        E = lambda: [ids[nn + nt + rng.randrange(nul)]] if nul and rng.random() < 0.1 else []
        X = lambda i: ids[rng.randrange(i + 1, nn)] if i + 1 < nn else T()
        rules = set()
        for i in range(1, nn):
            above = 0 if i < 4 or rng.random() < 0.7 else rng.randrange(i)
            rules.add((ids[above], tuple(E() + [T(), ids[i]] + E() + ([T()] if rng.random() < 0.2 else []))))
            for _ in range(rng.choice([1, 1, 2])):
                rules.add((ids[i], rng.choice([(T(), T()), (T(), T()), (T(),), (T(), T(), T()), (T(), X(i)), (X(i), T()),
                                               tuple(E() + [T()] + E()), (T(), X(i), T(), X(i))])))
        for i in range(nul):
            rules.add((ids[nn + nt + i], ()))
            if rng.random() < 0.5:
                rules.add((ids[nn + nt + i], (T(),)))
        if rng.random() < 0.5:
            k = rng.randrange(1, nn)
            rules.add((ids[k], (T(), ids[0])))
        rules = [list(r) for r in rules]
        rules.sort()
        rng.shuffle(rules)
        p = Plain(n, [(l, tuple(r)) for l, r in rules], ids[0])
        if p.root not in p.productive() or p.cyclic():
            continue
        return dict(syms=n, rules=[dict(lhs=l, rhs=list(r), hidden=False, id=k) for k, (l, r) in enumerate(rules)],
                    root=ids[0], events=[])


def plain_ext(c):
    return Plain(c["syms"], [(r["lhs"], tuple(r["rhs"])) for r in c["rules"]], c["root"])
