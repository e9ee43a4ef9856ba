"""Value domain: hash-consed terms, multi-valued decision diagrams over conditions, and the
algebraic normal forms (commutative polynomials, non-commutative linear forms, sequences, maps,
arrays, loops).  Every constructor normalises, so two values that are equal under the implemented
equations are the *same* object."""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)


class T:
    """leaf term"""
    __slots__ = ('op', 'args', 'id', 'free', 'h', 'flags')
    isT = True

    def __repr__(self):
        return show(self)


class N:
    """decision node"""
    __slots__ = ('var', 'kids', 'id', 'free', 'h', 'flags')
    isT = False

    def __repr__(self):
        return show(self)


class Var:
    __slots__ = ('term', 'dom', 'order', 'idx')

    def __repr__(self):
        return '<%r>' % (self.term,)


_tab = {}
_ntab = {}
_vars = {}
_cnt = [0]
_memo = {}
EMPTY = frozenset()


def _nid():
    _cnt[0] += 1
    return _cnt[0]


# operations whose result has no canonical form: values containing them cannot be told apart
STUCK = {'unk', 'rem_row', 'rem_col', 'ins_row', 'ins_col', 'dfill', 'upd'}


def raw(op, *args):
    """hash-consed term without normalisation"""
    key = (op,) + tuple((a.id, 1) if isinstance(a, (T, N)) else a for a in args)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _nid()
        fr = EMPTY
        h = 0
        fl = 0
        for a in args:
            if isinstance(a, (T, N)):
                if a.free:
                    fr = fr | a.free
                if a.h > h:
                    h = a.h
                fl |= a.flags
        if op in ('iota', 'mu'):
            fr = frozenset([t])
        if op in ('fin', 'comp'):
            bound = frozenset(bound_tokens(t))
            fr = fr - bound
            h = max(h, args[0])
        if op in STUCK:
            fl |= 1
        t.free = fr
        t.h = h
        t.flags = fl
        _tab[key] = t
    return t


def bound_tokens(t):
    """binder tokens of a fin/comp term: args = (h, nslots, ...)"""
    h, n = t.args[0], t.args[1]
    return [raw('iota', h)] + [raw('mu', h, i) for i in range(n)]


TRUE = raw('const', True)
FALSE = raw('const', False)
BOT = raw('bot')
UNIT = raw('S', '()')


def num(x):
    return raw('num', Fraction(x))


ZERO = num(0)
ONE = num(1)


def const_bool(b):
    return TRUE if b else FALSE


def getvar(term, dom):
    v = _vars.get(term)
    if v is None:
        v = Var()
        v.term = term
        v.dom = tuple(dom)
        v.idx = {d: i for i, d in enumerate(v.dom)}
        v.order = len(_vars)
        _vars[term] = v
    return v


def nullary(variant):
    return raw('ctor', variant)


def mk(var, kids):
    k0 = kids[0]
    same = True
    for k in kids:
        if k is not k0:
            same = False
            break
    if same:
        return k0
    for k in kids:
        if not k.isT and k.var.order <= var.order:
            # keep the diagram ordered
            r = kids[-1]
            for i in range(len(kids) - 2, -1, -1):
                r = ite(node_bool(var, var.dom[i]), kids[i], r)
            return r
    t = var.term
    if t.op == 'discr':
        x = t.args[0]
        kids = tuple((nullary(d) if (k is x and _nul(t.args[1], d)) else k) for k, d in zip(kids, var.dom))
        ok = True
        for k, d in zip(kids, var.dom):
            if k is x:
                continue
            if k.isT and k.op == 'ctor' and k.args[0] == d and len(k.args) == 1:
                continue
            ok = False
            break
        if ok:
            return x
    key = (var.order,) + tuple(k.id for k in kids)
    n = _ntab.get(key)
    if n is None:
        n = N()
        n.var = var
        n.kids = tuple(kids)
        n.id = _nid()
        fr = var.term.free
        h = var.term.h
        fl = var.term.flags
        for k in kids:
            if k.free:
                fr = fr | k.free
            if k.h > h:
                h = k.h
            fl |= k.flags
        n.free = fr
        n.h = h
        n.flags = fl
        _ntab[key] = n
    return n


_nullary = {}


def _nul(enum, d):
    return (enum, d) in _nullary


def declare_enum(enum, variants):
    """variants: list of (name, arity)"""
    for n, a in variants:
        if a == 0:
            _nullary[(enum, n)] = True


declare_enum('Option', [('None', 0), ('Some', 1)])
declare_enum('Result', [('Ok', 1), ('Err', 1)])
OPT = ('None', 'Some')
RES = ('Ok', 'Err')


def lift(name, f, *vals):
    """apply the leaf function f to decision diagrams"""
    key = (name,) + tuple(v.id for v in vals)
    r = _memo.get(key)
    if r is not None:
        return r
    top = None
    for v in vals:
        if not v.isT:
            if top is None or v.var.order < top.order:
                top = v.var
    if top is None:
        for v in vals:
            if v is BOT:
                return BOT
        r = f(*vals)
    else:
        kids = []
        for i in range(len(top.dom)):
            kids.append(lift(name, f, *[(v.kids[i] if (not v.isT and v.var is top) else v) for v in vals]))
        r = mk(top, tuple(kids))
    _memo[key] = r
    return r


def node_bool(var, value):
    """var == value as boolean diagram"""
    return mk(var, tuple(const_bool(d == value) for d in var.dom))


def node_in(var, values):
    return mk(var, tuple(const_bool(d in values) for d in var.dom))


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    key = ('ite', c.id, a.id, b.id)
    r = _memo.get(key)
    if r is not None:
        return r
    if c.isT:
        if c is BOT:
            return BOT
        # symbolic boolean leaf
        r = ite(as_cond(c), a, b)
    else:
        top = c.var
        for v in (a, b):
            if not v.isT and v.var.order < top.order:
                top = v.var
        kids = []
        for i in range(len(top.dom)):
            kids.append(ite(*[(v.kids[i] if (not v.isT and v.var is top) else v) for v in (c, a, b)]))
        r = mk(top, tuple(kids))
    _memo[key] = r
    return r


def _as_cond_leaf(t):
    if t is TRUE or t is FALSE or t is BOT:
        return t
    v = getvar(raw('bool', t), (True, False))
    return mk(v, (TRUE, FALSE))


def as_cond(v):
    """turn symbolic boolean leaves into decision variables"""
    return lift('as_cond', _as_cond_leaf, v)


def NOT(c):
    return ite(as_cond(c), FALSE, TRUE)


def AND(a, b):
    a, b = as_cond(a), as_cond(b)
    return ite(a, b, FALSE)


def OR(a, b):
    a, b = as_cond(a), as_cond(b)
    return ite(a, TRUE, b)


def ORS(xs):
    r = FALSE
    for x in xs:
        r = OR(r, x)
    return r


def mask(care, v):
    """v where care holds, BOT elsewhere; BOT branches collapsed"""
    return collapse(ite(as_cond(care), v, BOT))


def collapse(v):
    if v.isT:
        return v
    key = ('collapse', v.id)
    r = _memo.get(key)
    if r is not None:
        return r
    kids = [collapse(k) for k in v.kids]
    real = [k for k in kids if k is not BOT]
    if not real:
        r = BOT
    elif all(k is real[0] for k in real):
        r = real[0]
    else:
        r = mk(v.var, tuple(kids))
        # keep BOT for partially undefined nodes
    _memo[key] = r
    return r


def leaves(v, acc=None):
    seen = set()
    out = []

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        if x.isT:
            out.append(x)
        else:
            for k in x.kids:
                go(k)
    go(v)
    return out


def condvars(v):
    seen = set()
    out = {}

    def go(x):
        if x.id in seen or x.isT:
            return
        seen.add(x.id)
        out[x.var.order] = x.var
        for k in x.kids:
            go(k)
    go(v)
    return [out[o] for o in sorted(out)]


def cofactor(v, var, i):
    if v.isT:
        return v
    key = ('cof', v.id, var.order, i)
    r = _memo.get(key)
    if r is not None:
        return r
    if v.var is var:
        r = cofactor(v.kids[i], var, i)
    elif v.var.order > var.order:
        r = v
    else:
        r = mk(v.var, tuple(cofactor(k, var, i) for k in v.kids))
    _memo[key] = r
    return r


# ---------------------------------------------------------------- enums and structs
def _ctor(variant, *a):
    # eta: ctor(v, proj(t,v,0..)) -> t
    if a:
        p0 = a[0]
        if p0.op == 'proj' and p0.args[1] == variant and p0.args[2] == 0 and p0.args[3] == len(a):
            t = p0.args[0]
            if all(x.op == 'proj' and x.args[0] is t and x.args[1] == variant and x.args[2] == i for i, x in enumerate(a)):
                return t
    return raw('ctor', variant, *a)


def ctor(variant, *a):
    if not a:
        return raw('ctor', variant)
    return lift(('ctor', variant), lambda *x: _ctor(variant, *x), *a)


NONE = raw('ctor', 'None')


def some(x):
    return ctor('Some', x)


def ok(x):
    return ctor('Ok', x)


def err(x):
    return ctor('Err', x)


def discr_is(v, enum, dom, variant):
    """boolean: value v of enum type is variant"""
    def f(t):
        if t.op == 'ctor':
            return const_bool(t.args[0] == variant)
        return node_bool(getvar(raw('discr', t, enum), dom), variant)
    return lift(('discr_is', enum, variant), f, v)


def proj(v, variant, i, arity):
    def f(t):
        if t.op == 'ctor':
            if t.args[0] == variant:
                return t.args[1 + i]
            return BOT
        return raw('proj', t, variant, i, arity)
    return lift(('proj', variant, i, arity), f, v)


def is_some(v):
    return discr_is(v, 'Option', OPT, 'Some')


def is_ok(v):
    return discr_is(v, 'Result', RES, 'Ok')


def unsome(v):
    return proj(v, 'Some', 0, 1)


def struct(name, fields):
    """fields: list of (fname, Val); packed struct term"""
    names = tuple(n for n, _ in fields)
    if not fields:
        return raw('S', name)
    return lift(('struct', name, names), lambda *x: _struct(name, names, *x), *[v for _, v in fields])


def _struct(name, names, *x):
    x0 = x[0]
    if x0.op == 'field' and x0.args[1] == names[0]:
        t = x0.args[0]
        if x0.args[2] == name and all(y.op == 'field' and y.args[0] is t and y.args[1] == n for y, n in zip(x, names)):
            return t
    return raw('S', name, names, *x)


class Undecided(Exception):
    pass


class Unmodelled(Undecided):
    """private state that this analysis does not know"""


UNMODELLED = set()      # (struct, field)


def field(v, fname, sname):
    def f(t):
        if t.op == 'S':
            if len(t.args) > 1 and fname in t.args[1]:
                return t.args[2 + t.args[1].index(fname)]
            if (sname, fname) in UNMODELLED:
                raise Unmodelled('unmodelled private field %s.%s' % (sname, fname))
            return raw('unk', 'badfield', fname, t)
        if (sname, fname) in UNMODELLED and t.op in ('param', 'init', 'field', 'proj', 'unsome', 'index'):
            raise Unmodelled('unmodelled private field %s.%s' % (sname, fname))
        return raw('field', t, fname, sname)
    return lift(('field', fname, sname), f, v)


# ---------------------------------------------------------------- commutative polynomials
def _pdict(t):
    """term -> {monomial: coef}; monomial = tuple of (atom, exp) sorted by id"""
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return {m: c for m, c in t.args[0]}
    return {((t, 1),): Fraction(1)}


def _pterm(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return raw('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = tuple(sorted(d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0])))
    key = ('poly',) + tuple((tuple((a.id, e) for a, e in m), c) for m, c in items)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = 'poly'
        t.args = (items,)
        t.id = _nid()
        fr = EMPTY
        h = 0
        fl = 0
        for m, c in items:
            for a, e in m:
                fr = fr | a.free
                h = max(h, a.h)
                fl |= a.flags
        t.free = fr
        t.h = h
        t.flags = fl
        _tab[key] = t
    return t


def _mmul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e), key=lambda ae: ae[0].id))


def _psum(a, b, k=1):
    d = dict(_pdict(a))
    for m, c in _pdict(b).items():
        d[m] = d.get(m, 0) + k * c
    return d


def sadd(a, b):
    return lift('sadd', lambda x, y: _pterm(_psum(x, y)), a, b)


def ssub(a, b):
    return lift('ssub', lambda x, y: _pterm(_psum(x, y, -1)), a, b)


def _smul(x, y):
    d = {}
    for m1, c1 in _pdict(x).items():
        for m2, c2 in _pdict(y).items():
            m = _mmul(m1, m2)
            d[m] = d.get(m, 0) + c1 * c2
    return _pterm(d)


def smul(a, b):
    return lift('smul', _smul, a, b)


def sneg(a):
    return smul(num(-1), a)


def _sdiv(x, y):
    if y.op == 'num' and y.args[0] != 0:
        return _smul(x, raw('num', 1 / y.args[0]))
    d = _pdict(y)
    if len(d) == 1:
        (m, c), = d.items()
        return _smul(x, _pterm({tuple((a, -e) for a, e in m): 1 / c}))
    return _smul(x, _pterm({((y, -1),): Fraction(1)}))


def sdiv(a, b):
    return lift('sdiv', _sdiv, a, b)


_nonneg_ops = {'len', 'count', 'imin', 'satsub', 'iota_fin'}


def nonneg(t):
    if t.op == 'num':
        return t.args[0] >= 0
    if t.op == 'poly':
        return all(c > 0 and all(nonneg(a) for a, e in m) for m, c in t.args[0])
    if t.op in ('len', 'iota', 'imin', 'satsub', 'usize', 'nrows', 'ncols'):
        return True
    if t.op == 'fin' and t.args[-1] == 'iota':
        return True
    return False


def positive(t):
    if t.op == 'num':
        return t.args[0] > 0
    if t.op == 'poly':
        return nonneg(t) and any(m == () and c > 0 for m, c in t.args[0])
    return False


def _leadneg(d):
    """canonical sign: make the coefficient of the monomial with smallest key positive"""
    items = sorted(((m, c) for m, c in d.items() if m != ()), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    return bool(items) and items[0][1] < 0


FDOM = ('lt', 'eq', 'gt', 'un')
IDOM = ('lt', 'eq', 'gt')
PDOM = ('eq', 'gt')
FLIP = {'lt': 'gt', 'gt': 'lt', 'eq': 'eq', 'un': 'un'}


def _cmpnode(x, y, isint):
    """decision diagram with leaves ctor(Lt/Eq/Gt/Un)"""
    d = _psum(x, y, -1)
    d = {m: c for m, c in d.items() if c != 0}
    lf = {'lt': LT, 'eq': EQ, 'gt': GT, 'un': UN}
    if not d:
        if isint or x.op == 'num':
            return EQ
        # a value compared with itself: equal unless NaN
        v = getvar(raw('isnan', x), (False, True))
        return mk(v, (EQ, UN))
    if set(d) == {()}:
        if isint or (x.op == 'num' and y.op == 'num'):
            return LT if d[()] < 0 else GT
    flip = _leadneg(d)
    if isint:
        # scale to integral content
        dd = {m: (-c if flip else c) for m, c in d.items()}
        t = _pterm(dd)
        if positive(t):
            return lf[FLIP['gt'] if flip else 'gt']
        neg = _pterm({m: -c for m, c in dd.items()})
        if positive(neg):
            return lf[FLIP['lt'] if flip else 'lt']
        if nonneg(t):
            v = getvar(raw('cmpi', t), PDOM)
        elif nonneg(neg):
            v = getvar(raw('cmpi', t), ('lt', 'eq'))
        else:
            v = getvar(raw('cmpi', t), IDOM)
        return mk(v, tuple(lf[FLIP[q] if flip else q] for q in v.dom))
    # floating point: compare the two sides, normalised by moving everything to one difference
    t = _pterm({m: (-c if flip else c) for m, c in d.items()})
    v = getvar(raw('cmpf', t), FDOM)
    return mk(v, tuple(lf[FLIP[q] if flip else q] for q in v.dom))


LT = raw('ctor', 'Less')
EQ = raw('ctor', 'Equal')
GT = raw('ctor', 'Greater')
UN = raw('ctor', 'Unordered')


def fcmp(a, b):
    return lift('fcmp', lambda x, y: _cmpnode(x, y, False), a, b)


def icmp(a, b):
    return lift('icmp', lambda x, y: _cmpnode(x, y, True), a, b)


def rel(c, what):
    ok_ = {'lt': (LT,), 'le': (LT, EQ), 'gt': (GT,), 'ge': (GT, EQ), 'eq': (EQ,), 'ne': (LT, GT, UN)}[what]
    return lift(('rel', what), lambda t: const_bool(t in ok_), c)


def frel(a, b, what):
    return rel(fcmp(a, b), what)


def irel(a, b, what):
    return rel(icmp(a, b), what)


# ---------------------------------------------------------------- symbolic equality
def _eqleaf(a, b):
    if a is b:
        return TRUE
    if a.op == 'str' and b.op == 'str':
        return FALSE
    if a.op == 'num' and b.op == 'num':
        return FALSE
    if a.op == 'node' and b.op == 'node':
        return FALSE
    if a.op == 'S' and b.op == 'S' and a.args[:2] == b.args[:2]:
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = AND(r, _eqleaf(x, y))
        return r
    if a.op == 'ctor' and b.op == 'ctor' and len(a.args) == 1 and len(b.args) == 1:
        return const_bool(a.args[0] == b.args[0])
    if a.op == 'ctor' and b.op == 'ctor':
        if a.args[0] != b.args[0] or len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(a.args[1:], b.args[1:]):
            r = AND(r, _eqleaf(x, y))
        return r
    for x, y in ((a, b), (b, a)):
        if x.op == 'ctor' and len(x.args) <= 2 and x.args[0] in ('Some', 'None') and y.op not in ('ctor',):
            s = discr_is(y, 'Option', OPT, 'Some')
            if x.args[0] == 'None':
                return NOT(s)
            return AND(s, lift('eq', _eqleaf, x.args[1], proj(y, 'Some', 0, 1)))
    if a.id > b.id:
        a, b = b, a
    return node_bool(getvar(raw('eq', a, b), (True, False)), True)


def eq(a, b):
    return lift('eq', _eqleaf, a, b)


def _nodeeq(a, b):
    if a is b:
        return TRUE
    if a.op == 'node' and b.op == 'node':
        return FALSE
    if a.op == 'fresh' or b.op == 'fresh':
        if a.op == 'fresh' and b.op == 'fresh':
            if a.args[0] != b.args[0]:
                return FALSE
            # same allocation site: equal iff same indices
            r = TRUE
            for x, y in zip(a.args[1:], b.args[1:]):
                r = AND(r, irel(x, y, 'eq'))
            return r
        o = b if a.op == 'fresh' else a
        if not mentions_fresh(o):
            return FALSE
    # a node is never its own parent / child (trees)
    for x, y in ((a, b), (b, a)):
        if x.op == 'wtarget' and owner_of(x) is y:
            return FALSE
        if x.op == 'index' and x.args[0].op == 'select' and x.args[0].args[1] is y:
            return FALSE
    if a.id > b.id:
        a, b = b, a
    return node_bool(getvar(raw('nodeeq', a, b), (True, False)), True)


def owner_of(t):
    """wtarget(proj(select(H0 parent, n), Some)) -> n"""
    w = t.args[0]
    if w.op == 'proj' and w.args[0].op == 'select':
        return w.args[0].args[1]
    return None


_mf = {}


def mentions_fresh(t):
    """may the value t denote a freshly allocated node?"""
    r = _mf.get(t.id)
    if r is not None:
        return r
    _mf[t.id] = False
    r = False
    if t.isT:
        if t.op in ('fresh', 'mu'):
            r = True
        elif t.op == 'poly':
            r = False
        else:
            for a in t.args:
                if isinstance(a, (T, N)) and mentions_fresh(a):
                    r = True
                    break
    else:
        r = any(mentions_fresh(k) for k in t.kids)
    _mf[t.id] = r
    return r


def nodeeq(a, b):
    return lift('nodeeq', _nodeeq, a, b)


# ---------------------------------------------------------------- arrays (heap)
def select(arr, n):
    def f(a, n):
        while a.op == 'store':
            c = _nodeeq(a.args[1], n)
            if c is TRUE:
                return a.args[2]
            if c is FALSE:
                a = a.args[0]
                continue
            rest = select(a.args[0], n)
            return ite(c, a.args[2], rest)
        return raw('select', a, n)
    return lift('select', f, arr, n)


def store(arr, n, v):
    def f(a, n, v):
        # store(store(a,n,_),n,v) = store(a,n,v)
        if a.op == 'store' and a.args[1] is n:
            a = a.args[0]
        if v.op == 'select' and v.args[0] is a and v.args[1] is n:
            return a
        # order independent stores to distinct fresh nodes
        if a.op == 'store' and a.args[1].id > n.id and _nodeeq(a.args[1], n) is FALSE:
            return f2(f(a.args[0], n, v), a.args[1], a.args[2])
        return raw('store', a, n, v)

    def f2(a, n, v):
        if not a.isT:
            return store(a, n, v)
        return raw('store', a, n, v)
    return lift('store', f, arr, n, v)


# ---------------------------------------------------------------- sequences
def cat(*items):
    """items: ('e', Val) or ('s', Val)"""
    kinds = tuple(k for k, _ in items)
    return lift(('cat', kinds), lambda *x: _cat(kinds, x), *[v for _, v in items]) if items else EMPTYSEQ


def _cat(kinds, xs):
    out = []
    for k, x in zip(kinds, xs):
        if k == 's' and x.op == 'cat':
            out.extend(zip(x.args[0], x.args[1:]))
        else:
            out.append((k, x))
    if len(out) == 1 and out[0][0] == 's':
        return out[0][1]
    return raw('cat', tuple(k for k, _ in out), *[x for _, x in out])


EMPTYSEQ = raw('cat', ())
LEN_HOOK = None


def push(s, x):
    return cat(('s', s), ('e', x))


def append(s, t):
    return cat(('s', s), ('s', t))


def _len(t):
    if t.op == 'cat':
        r = ZERO
        n = 0
        for k, x in zip(t.args[0], t.args[1:]):
            if k == 'e':
                n += 1
            else:
                r = sadd(r, length(x))
        return sadd(r, num(n))
    if t.op == 'comp':
        from . import loops
        e = loops.comp_emit(t)
        if all(l.op == 'cat' and l.args[0] == ('e',) for l in leaves(e)):
            return loops.comp_iota(t)
    if t.op == 'upd':
        return _len(t.args[0])
    if t.op in ('rev', 'sort'):
        return _len(t.args[0])
    if t.op == 'repeatv':
        return t.args[1]
    if t.op == 'dvec':
        return num(len(t.args))
    if LEN_HOOK is not None:
        r = LEN_HOOK(t)
        if r is not None:
            return r
    return raw('len', t)


def length(s):
    return lift('len', _len, s)


def _index(s, i):
    if s.op == 'cat':
        if i.op == 'num':
            n = int(i.args[0])
            for k, x in zip(s.args[0], s.args[1:]):
                if k == 'e':
                    if n == 0:
                        return x
                    n -= 1
                else:
                    break
            else:
                return BOT      # only behind a failed bounds check
        # last element etc.: walk from the front while the offset is certain
        off = ZERO
        for k, x in zip(s.args[0], s.args[1:]):
            if k == 'e':
                c = irel(i, off, 'eq')
                if c is TRUE:
                    return x
                off = sadd(off, ONE)
            else:
                off2 = sadd(off, length(x))
                if irel(i, off2, 'lt') is TRUE:
                    return index(x, ssub(i, off))
                off = off2
            if not off.isT:
                break
    if s.op == 'comp':
        from . import loops
        r = loops.index_comp(s, i)
        if r is not None:
            return r
    if s.op == 'upd':
        c = irel(s.args[1], i, 'eq')
        return ite(c, s.args[2], index(s.args[0], i))
    if s.op == 'rev':
        return index(s.args[0], ssub(ssub(length(s.args[0]), ONE), i))
    if s.op == 'repeatv':
        return s.args[0]
    if s.op == 'S' and s.args[0] == 'array':
        if i.op == 'num' and str(int(i.args[0])) in s.args[1]:
            return s.args[2 + s.args[1].index(str(int(i.args[0])))]
    if s.op == 'dvec' and i.op == 'num' and 0 <= i.args[0] < len(s.args):
        return s.args[int(i.args[0])]
    return raw('index', s, i)


def index(s, i):
    return lift('index', _index, s, i)


def update(s, i, v):
    def f(s, i, v):
        if s.op == 'cat' and i.op == 'num' and all(k == 'e' for k in s.args[0]) and i.args[0] < len(s.args[0]):
            xs = list(s.args[1:])
            xs[int(i.args[0])] = v
            return raw('cat', s.args[0], *xs)
        if s.op == 'dvec' and i.op == 'num' and 0 <= i.args[0] < len(s.args):
            xs = list(s.args)
            xs[int(i.args[0])] = v
            return raw('dvec', *xs)
        if s.op == 'dmat' and i.op == 'num' and 0 <= i.args[0] < len(s.args) - 2:
            xs = list(s.args)
            xs[2 + int(i.args[0])] = v
            return raw('dmat', *xs)
        if s.op == 'upd' and s.args[1] is i:
            s = s.args[0]
        if v.op == 'index' and v.args[0] is s and v.args[1] is i:
            return s
        return raw('upd', s, i, v)
    return lift('upd', f, s, i, v)


def reverse(s):
    def f(s):
        if s.op == 'rev':
            return s.args[0]
        if s.op == 'cat':
            ks, xs = s.args[0], s.args[1:]
            return cat(*[(k, (x if k == 'e' else reverse(x))) for k, x in reversed(list(zip(ks, xs)))]) if ks else s
        return raw('rev', s)
    return lift('rev', f, s)


def fn(name, *args):
    """pure function applied leaf-wise, uninterpreted but known to be a function of its arguments"""
    return lift(('fn', name), lambda *x: raw(name, *x), *args) if args else raw(name)


def unknown(name, *args):
    """result of something that the analysis does not understand"""
    return lift(('unk', name), lambda *x: raw('unk', name, *x), *args) if args else raw('unk', name)


# ---------------------------------------------------------------- maps
def map_insert(m, k, v):
    return lift('mapins', _mapins, m, k, v)


def _mapins(m, k, v):
    if m.op == 'mapins':
        k0, v0 = m.args[1], m.args[2]
        if k0 is k:
            return _mapins(m.args[0], k, v)
        c = _eqleaf(k0, k)
        if c is TRUE:
            return map_insert(m.args[0], k, v)
        # insertions at different keys commute
        diff = lift('mapins0', _mapins0, map_insert(m.args[0], k, v), k0, v0) if k0.id > k.id else raw('mapins', m, k, v)
        if c is FALSE:
            return diff
        return ite(c, map_insert(m.args[0], k, v), diff)
    return raw('mapins', m, k, v)


def _mapins0(m, k, v):
    return raw('mapins', m, k, v)


MAPNEW = raw('mapnew')


def map_get(m, k):
    """Option"""
    def f(m, k):
        if m.op == 'mapnew':
            return NONE
        if m.op == 'mapins':
            c = _eqleaf(m.args[1], k)
            if c is TRUE:
                return some(m.args[2])
            return ite(c, some(m.args[2]), map_get(m.args[0], k))
        return raw('mapget', m, k)
    return lift('mapget', f, m, k)


# ---------------------------------------------------------------- non-commutative linear forms
# nc: {word(tuple of atoms): scalar coefficient term}.  Rotations, matrices and vectors.
def _ncdict(t):
    if t is ZERO:
        return {}
    if t.op == 'nc':
        return dict(t.args[0])
    if t.op == 'ident':
        return {(): ONE}
    return {(t,): ONE}


def _ncterm(d):
    d = {w: c for w, c in d.items() if c is not ZERO}
    if not d:
        return ZERO
    if len(d) == 1:
        (w, c), = d.items()
        if c is ONE and len(w) == 1:
            return w[0]
        if c is ONE and w == ():
            return IDENT
    items = tuple(sorted(d.items(), key=lambda wc: tuple(a.id for a in wc[0])))
    key = ('nc',) + tuple((tuple(a.id for a in w), c.id) for w, c in items)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op = 'nc'
        t.args = (items,)
        t.id = _nid()
        fr = EMPTY
        h = 0
        fl = 0
        for w, c in items:
            for a in w + (c,):
                fr = fr | a.free
                h = max(h, a.h)
                fl |= a.flags
        t.free = fr
        t.h = h
        t.flags = fl
        _tab[key] = t
    return t


IDENT = raw('ident')


def is_inv(a, b):
    return (a.op == 'inv' and a.args[0] is b) or (b.op == 'inv' and b.args[0] is a)


def _wmul(w1, w2):
    w = list(w1)
    for a in w2:
        if w and is_inv(w[-1], a):
            w.pop()
        else:
            w.append(a)
    if len(w) > 1 and any(a.op == 'dident' for a in w):
        w = [a for a in w if a.op != 'dident'] or w[:1]
    return tuple(w)


def _nadd(x, y, k=None):
    d = _ncdict(x)
    for w, c in _ncdict(y).items():
        c = c if k is None else _smul(k, c)
        d[w] = _pterm(_psum(d[w], c)) if w in d else c
    return _ncterm(d)


def nadd(a, b):
    return lift('nadd', _nadd, a, b)


NEG1 = num(-1)


def nsub(a, b):
    return lift('nsub', lambda x, y: _nadd(x, y, NEG1), a, b)


def _nscale(k, x):
    return _ncterm({w: _smul(k, c) for w, c in _ncdict(x).items()})


def nscale(k, x):
    return lift('nscale', _nscale, k, x)


def nneg(x):
    return nscale(NEG1, x)


def _nmul(x, y):
    d = {}
    for w1, c1 in _ncdict(x).items():
        for w2, c2 in _ncdict(y).items():
            w = _wmul(w1, w2)
            c = _smul(c1, c2)
            d[w] = _pterm(_psum(d[w], c)) if w in d else c
    return _ncterm(d)


def nmul(a, b):
    return lift('nmul', _nmul, a, b)


def _ninv(x):
    """inverse of a group element (rotation)"""
    if x.op == 'ident':
        return x
    d = _ncdict(x)
    if len(d) == 1:
        (w, c), = d.items()
        if c is ONE:
            out = []
            for a in reversed(w):
                out.append(a.args[0] if a.op == 'inv' else raw('inv', a))
            return _ncterm({tuple(out): ONE})
    return raw('inv', x)


def ninv(x):
    return lift('ninv', _ninv, x)


def _is_rot(a):
    if a.op == 'inv':
        return _is_rot(a.args[0])
    return a.op in ROT_OPS


ROT_OPS = {'rexp', 'rot', 'rpy', 'quat'}


def _cross(x, y):
    r = ZERO
    for w1, c1 in _ncdict(x).items():
        for w2, c2 in _ncdict(y).items():
            k = _smul(c1, c2)
            # common rotation prefix
            i = 0
            while i < len(w1) - 1 and i < len(w2) - 1 and w1[i] is w2[i] and _is_rot(w1[i]):
                i += 1
            pre, a, b = w1[:i], w1[i:], w2[i:]
            if a == b:
                continue
            ta, tb = _ncterm({a: ONE}), _ncterm({b: ONE})
            if ta.id > tb.id:
                ta, tb = tb, ta
                k = _smul(NEG1, k)
            w = pre + (raw('cross', ta, tb),)
            r = _nadd(r, _ncterm({w: k}))
    return r


def cross(a, b):
    return lift('cross', _cross, a, b)


def _comp(v, i):
    """i-th component of a vector"""
    if v.op == 'vec' or v.op == 'dvec':
        if i.op == 'num':
            k = int(i.args[0])
            if k < len(v.args):
                return v.args[k]
    r = ZERO
    d = _ncdict(v)
    if v.op not in ('nc',) and not (v is ZERO):
        if v.op == 'repeatv':
            return v.args[0]
        if v.op in ('cat', 'comp', 'upd'):
            return index(v, i)
        return raw('comp_', v, i)
    for w, c in d.items():
        if len(w) == 1 and w[0].op in ('vec', 'dvec') and i.op == 'num':
            e = w[0].args[int(i.args[0])]
        else:
            e = raw('comp_', _ncterm({w: ONE}), i)
        r = sadd(r, smul(c, e))
    return r


def comp(v, i):
    return lift('comp', _comp, v, i)


def vec(*xs):
    """fixed-size vector from components"""
    def f(*xs):
        if all(x is ZERO for x in xs):
            return ZERO
        if len(xs) == 3:
            x0 = xs[0]
            if x0.op == 'comp_' and x0.args[1] is ZERO and all(
                    x.op == 'comp_' and x.args[0] is x0.args[0] and x.args[1] is num(i) for i, x in enumerate(xs)):
                return x0.args[0]
            r = _recombined(xs)
            if r is not None:
                return r
        return raw('vec', *xs)
    return lift(('vec', len(xs)), f, *xs)


def _recombined(xs):
    """the vector whose components are the same linear combination of the components of others"""
    r = None
    rest = []
    for i, x in enumerate(xs):
        if not x.isT:
            return None
        d = {}
        for m, c in _pdict(x).items():
            at = [k for k, (a, e) in enumerate(m) if e == 1 and a.op == 'comp_' and a.args[1] is num(i)]
            if len(at) != 1:
                return None
            k = at[0]
            d[(m[k][0].args[0].id, m[:k] + m[k + 1:])] = (c, m[k][0].args[0])
        rest.append(d)
    if not rest[0] or not (set(rest[0]) == set(rest[1]) == set(rest[2])) or any(rest[0][k] != o[k] for o in rest[1:] for k in rest[0]):
        return None
    for (_, m), (c, v) in rest[0].items():
        x = _nscale(_pterm({m: c}), v)
        r = x if r is None else _nadd(r, x)
    return r


def rexp(v):
    """rotation from a scaled axis"""
    def f(v):
        if v is ZERO:
            return IDENT
        return raw('rexp', v)
    return lift('rexp', f, v)


def rlog(r):
    def f(r):
        if r is IDENT:
            return ZERO
        return raw('rlog', r)
    return lift('rlog', f, r)


def _root(p):
    """the square root"""
    if p is ZERO or p is ONE:
        return p
    d = _pdict(p)
    if len(d) == 1:
        (m, c), = d.items()
        if c == 1 and len(m) == 1 and m[0][1] == 2 and m[0][0].op in ('norm', 'root'):
            return m[0][0]
    if len(d) == 3 and all(c == 1 and len(m) == 1 and m[0][1] == 2 and m[0][0].op == 'comp_' for m, c in d.items()):
        xs = [m[0][0] for m in d]
        if all(x.args[0] is xs[0].args[0] for x in xs) and len(set(x.args[1].id for x in xs)) == 3:
            return norm(xs[0].args[0])
    return raw('root', p)


def root(p):
    return lift('root', _root, p)


def norm(v):
    def f(v):
        if v is ZERO:
            return ZERO
        if v.op == 'vec' or (v.op == 'cat' and all(k == 'e' for k in v.args[0])):
            # neither the order nor the signs of the components matter
            xs = []
            for x in (v.args if v.op == 'vec' else v.args[1:]):
                if not x.isT:
                    break
                if x is not ZERO:
                    xs.append(_pterm(_psum(ZERO, x, -1)) if _leadneg(_pdict(x)) else x)
            else:
                if not xs:
                    return ZERO
                if sum(len(_pdict(x)) ** 2 for x in xs) <= 400:
                    r = ZERO
                    for x in xs:
                        r = _pterm(_psum(r, _smul(x, x)))
                    return _root(r)
                xs.sort(key=lambda x: x.id)
                return raw('norm', raw('vec', *xs))
        d = _ncdict(v)
        items = sorted(d.items(), key=lambda wc: tuple(a.id for a in wc[0]))
        w, c = items[0]
        p = _pdict(c)
        m = sorted(p.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
        if m and m[0][1] < 0:
            v = _nscale(NEG1, v)
        # strip a common leading rotation
        d = _ncdict(v)
        ws = list(d)
        while all(len(w) > 1 for w in ws) and len(set(w[0] for w in ws)) == 1 and _is_rot(ws[0][0]):
            d = {w[1:]: c for w, c in d.items()}
            ws = list(d)
        return raw('norm', _ncterm(d))
    return lift('norm', f, v)


# isometries: S('Iso', rotation, translation)
def iso(r, t):
    return struct('Isometry', [('rotation', r), ('translation', t)])


def iso_r(x):
    def f(t):
        if t.op == 'S':
            return t.args[2]
        return raw('rot', t)
    return lift('iso_r', f, x)


def iso_t(x):
    def f(t):
        if t.op == 'S':
            return t.args[3]
        return raw('tra', t)
    return lift('iso_t', f, x)


def mkiso(r, t):
    def f(r, t):
        if r.op == 'rot' and t.op == 'tra' and r.args[0] is t.args[0]:
            return r.args[0]
        return raw('S', 'Isometry', ('rotation', 'translation'), r, t)
    return lift('mkiso', f, r, t)


ISO_ID = mkiso(IDENT, ZERO)


def iso_mul(a, b):
    return mkiso(nmul(iso_r(a), iso_r(b)), nadd(iso_t(a), nmul(iso_r(a), iso_t(b))))


def iso_inv(a):
    ri = ninv(iso_r(a))
    return mkiso(ri, nneg(nmul(ri, iso_t(a))))


# ---------------------------------------------------------------- printing
def show(v, depth=0, lim=60):
    if depth > lim:
        return '…'
    if not isinstance(v, (T, N)):
        return str(v)
    if not v.isT:
        return '{' + cvshow(v.var.term, depth) + '? ' + ' | '.join(
            '%s:%s' % (d, show(k, depth + 1, lim)) for d, k in zip(v.var.dom, v.kids)) + '}'
    if v.op == 'num':
        return str(v.args[0])
    if v.op == 'const':
        return str(v.args[0])
    if v.op == 'str':
        return repr(v.args[0])
    if v.op == 'poly':
        return '(' + ' + '.join(
            ('' if c == 1 and m else str(c)) + ''.join('·' + show(a, depth + 1, lim) + ('' if e == 1 else '^%d' % e) for a, e in m)
            for m, c in v.args[0]) + ')'
    if v.op == 'nc':
        return '(' + ' + '.join(
            ('' if c is ONE else show(c, depth + 1, lim)) + '⟨' + '·'.join(show(a, depth + 1, lim) for a in w) + '⟩'
            for w, c in v.args[0]) + ')'
    if v.op == 'ctor':
        return v.args[0] + ('(' + ', '.join(show(a, depth + 1, lim) for a in v.args[1:]) + ')' if len(v.args) > 1 else '')
    if v.op == 'S':
        if len(v.args) == 1:
            return v.args[0]
        return v.args[0] + '{' + ', '.join('%s: %s' % (n, show(a, depth + 1, lim)) for n, a in zip(v.args[1], v.args[2:])) + '}'
    if v.op == 'field':
        return show(v.args[0], depth + 1, lim) + '.' + v.args[1]
    if v.op == 'proj':
        return show(v.args[0], depth + 1, lim) + '!' + v.args[1]
    if v.op == 'index':
        return show(v.args[0], depth + 1, lim) + '[' + show(v.args[1], depth + 1, lim) + ']'
    if v.op == 'cat':
        return '[' + ', '.join(('' if k == 'e' else '..') + show(a, depth + 1, lim) for k, a in zip(v.args[0], v.args[1:])) + ']'
    return v.op + '(' + ', '.join(show(a, depth + 1, lim) for a in v.args) + ')'


def cvshow(t, depth):
    return show(t, depth + 1)
