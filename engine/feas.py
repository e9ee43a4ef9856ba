"""Which paths of a decision diagram are possible at all?  The diagrams treat their variables as
independent; this module knows what they mean: comparisons are relations between linear forms over
an ordered field, equalities are substitutions."""
from fractions import Fraction
from . import terms as t


def cubes(d, want, limit=20000, settled=None):
    """all feasible paths of diagram d to leaves with want(leaf); yields (list of (var, value), leaf).
    settled(leaf, path): the caller has no use for this path"""
    for few, find in ((300, walk), (1000, learn)):
        try:
            yield from find(d, want, few, settled)
            return
        except TooMany:
            pass
    yield from walk(d, want, limit)


def learn(d, want, rounds, settled):
    """the same where there are too many paths to look at each: from one that is impossible (or settled) a smallest
    part that is so already is taken, and everything under that part leaves the diagram"""
    gone = t.raw('gone')
    for _ in range(rounds):
        r = first(d, lambda l: l is not gone and want(l))
        if r is None:
            return
        path, leaf = r
        if not feasible(path):
            d = t.ite(conj(least(path, lambda c: not feasible(c))), gone, d)
        elif settled is not None and settled(leaf, path):
            core = least(path, lambda c: settled(leaf, c))
            d = t.ite(conj(core), t.lift(('gone', leaf.id), lambda l: gone if l is leaf else l, d), d)
        else:
            yield path, leaf
            d = t.ite(conj(path), gone, d)
    raise TooMany()


def first(d, want):
    """a path to a wanted leaf, a short one"""
    best = {}

    def go(x):
        if x.id in best:
            return best[x.id][0]
        if x.isT:
            r = (0 if want(x) else None, None)
        else:
            r = (None, None)
            for i, k in enumerate(x.kids):
                n = go(k)
                if n is not None and (r[0] is None or n + 1 < r[0]):
                    r = (n + 1, i)
        best[x.id] = r
        return r[0]
    if go(d) is None:
        return None
    path = []
    while not d.isT:
        i = best[d.id][1]
        path.append((d.var, d.var.dom[i]))
        d = d.kids[i]
    return path, d


def least(path, holds):
    core = list(path)
    i = 0
    while i < len(core):
        c = core[:i] + core[i + 1:]
        if holds(c):
            core = c
        else:
            i += 1
    return core


def conj(path):
    c = t.TRUE
    for v, x in path:
        c = t.AND(c, t.node_bool(v, x))
    return c


def walk(d, want, limit, settled=None):
    n = [0]
    dead = set()

    def hopeless(x):
        # no wanted leaf below
        return x.id in dead

    def scan(x, seen):
        if x.id in seen:
            return seen[x.id]
        if x.isT:
            r = bool(want(x))
        else:
            r = False
            for k in x.kids:
                if scan(k, seen):
                    r = True
        if not r:
            dead.add(x.id)
        seen[x.id] = r
        return r
    scan(d, {})

    def go(x, path):
        if hopeless(x):
            return
        n[0] += 1
        if n[0] > limit:
            raise TooMany()
        if x.isT:
            yield list(path), x
            return
        for v, k in zip(x.var.dom, x.kids):
            if hopeless(k):
                continue
            path.append((x.var, v))
            if feasible(path):
                yield from go(k, path)
            path.pop()
    yield from go(d, [])


class TooMany(Exception):
    pass


def linear(term):
    return dict(t._pdict(term))


def atoms(term):
    """the quantities a linear form is made of"""
    return set(a.id for m in linear(term) for a, e in m)


def fm(cons):
    """cons: list of (dict monomial->coeff with () constant, strict) meaning form > 0 / >= 0.
    True when satisfiable over the rationals (monomials as independent unknowns)"""
    cons = [({m: Fraction(c) for m, c in d.items() if c != 0}, s) for d, s in cons]
    n = 0
    while True:
        n += 1
        if n > 40 or len(cons) > 400:
            return True
        var = None
        rest = []
        for d, s in cons:
            ms = [m for m in d if m != ()]
            if not ms:
                c = d.get((), Fraction(0))
                if c < 0 or (s and c == 0):
                    return False
            else:
                rest.append((d, s))
                if var is None:
                    var = ms[0]
        if var is None:
            return True
        pos = [(d, s) for d, s in rest if d.get(var, 0) > 0]
        neg = [(d, s) for d, s in rest if d.get(var, 0) < 0]
        cons = [(d, s) for d, s in rest if var not in d]
        for d, s in pos:
            for e, u in neg:
                a, b = d[var], -e[var]
                f = {}
                for m, c in d.items():
                    f[m] = f.get(m, 0) + c * b
                for m, c in e.items():
                    f[m] = f.get(m, 0) + c * a
                f = {m: c for m, c in f.items() if c != 0}
                cons.append((f, s or u))


def feasible(cube):
    cons = []
    eqs = []
    distinct = []
    nan = set()
    nans = []
    ordered = set()
    for var, val in cube:
        x = var.term
        if x.op == 'isnan':
            if val is True:
                nan.add(x.args[0].id)
                nans.append(x.args[0])
            else:
                ordered |= atoms(x.args[0])
        elif x.op == 'cmpf' and val != 'un':
            ordered |= atoms(x.args[0])
    for x in nans:
        if atoms(x) <= ordered:
            return False
    for var, val in cube:
        x = var.term
        if x.op in ('cmpf', 'cmpi'):
            d = linear(x.args[0])
            neg = {m: -c for m, c in d.items()}
            if x.op == 'cmpf' and val == 'un' and atoms(x.args[0]) <= ordered:
                return False
            if x.op == 'cmpf' and val != 'un':
                for m in d:
                    for a, e in m:
                        if a.id in nan:
                            return False
            if val == 'gt':
                cons.append((d, True))
            elif val == 'lt':
                cons.append((neg, True))
            elif val == 'eq':
                cons.append((d, False))
                cons.append((neg, False))
        elif x.op == 'eq':
            (eqs if val is True else distinct).append((x.args[0], x.args[1]))
    if len(cons) > 1 and not fm(cons):
        return False
    if eqs:
        rep = {}
        if len(cube) > len(eqs) and not congruent(cube, eqs, cons):
            return False

        def find(a):
            while a.id in rep:
                a = rep[a.id]
            return a
        consts = {}
        for a, b in eqs:
            a, b = find(a), find(b)
            if a is b:
                continue
            if a.op in ('str', 'num', 'const') and b.op in ('str', 'num', 'const'):
                return False
            if a.op in ('str', 'num', 'const'):
                a, b = b, a
            rep[a.id] = b
        for a, b in distinct:
            if find(a) is find(b):
                return False
    return True


TEXT = ('str::', 'strless', 'strbytes')


def congruent(cube, eqs, cons):
    """functions of equal texts are equal"""
    if not any(texts(x) for var, val in cube if var.term.op != 'eq' for x in parts(var.term)):
        return True
    rep = {}

    def find(a):
        while a.id in rep:
            a = rep[a.id]
        return a
    for a, b in eqs:
        a, b = find(a), find(b)
        if a is not b:
            if a.op == 'str':
                a, b = b, a
            rep[a.id] = b
    memo = {}

    def canon(x):
        x = find(x)
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = (x.op, tuple(canon(y) if isinstance(y, t.T) else y for y in x.args)) if any(isinstance(y, t.T) for y in x.args) else x.id
        return r
    seen = {}
    for var, val in cube:
        if var.term.op not in ('eq', 'cmpi', 'cmpf'):
            if seen.setdefault(canon(var.term), val) != val:
                return False
    return fm([(merged(d, canon), s) for d, s in cons])


def merged(d, canon):
    r = {}
    for m, c in d.items():
        k = tuple(sorted(((canon(a), e) for a, e in m), key=repr))
        r[k] = r.get(k, 0) + c
    return r


def parts(x):
    return [a for m in linear(x.args[0]) for a, e in m] if x.op in ('cmpi', 'cmpf') else [x]


def texts(x):
    return x.op.startswith(TEXT) or any(texts(y) for y in x.args if isinstance(y, t.T))


def equalities(cube):
    """atom -> term substitutions implied by a path"""
    out = []
    for var, val in cube:
        x = var.term
        if x.op == 'eq' and val is True:
            out.append((x.args[0], x.args[1]))
        elif x.op in ('cmpf', 'cmpi') and val == 'eq':
            d = linear(x.args[0])
            for m, c in sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])):
                if len(m) == 1 and m[0][1] == 1:
                    a = m[0][0]
                    r = {k: -v / c for k, v in d.items() if k != m}
                    if any(a is b for k in r for b, _ in k):
                        continue
                    out.append((a, t._pterm(r)))
                    break
    return out
