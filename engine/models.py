"""Meaning of the std / nalgebra functions that the crate calls."""
import math
from fractions import Fraction
from . import terms as t
from .terms import TRUE, FALSE, BOT, AND, OR, NOT, ite, T, N
from .evalr import Agg, pack, getfield, St, merge, isref, hasref, Undecided, shortc, newid, vite, drop_bot, PLACE_OPS, leafconds

M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


def override(fn):
    """crate functions that are not inlined"""
    d = fn.d
    it = d.get('impltrait')
    if it and it['def'] == 'core::fmt::Debug':
        return True
    return False


class Call:
    __slots__ = ('f', 'argtys', 'retty', 'ev', 'name', 'targs')


def call_model(ev, st, f, args, argtys, retty):
    d = f['def']
    name = shortc(d)
    c = Call()
    c.f, c.argtys, c.retty, c.ev, c.name = f, argtys, retty, ev, name
    c.targs = f.get('args') or []
    m = M.get(name)
    if m is None and f.get('trait') is None and f.get('res'):
        m = M.get(shortc(f['res']['def']))
    if m is not None:
        r = m(ev, st, args, c)
        return t.UNIT if r is None else r
    if d.startswith('log::') or 'core::fmt' in d or d.startswith('alloc::fmt'):
        return t.fn('fmt', *[safe_pval(ev, st, a) for a in args])
    # constructor functions of tuple structs / variants
    r = ctor_fn(ev, f, args)
    if r is not None:
        return r
    return unknown_call(ev, st, f, args, c)


def safe_pval(ev, st, a):
    try:
        return ev.pval(st, a)
    except Undecided:
        return t.raw('opaque')


def ctor_fn(ev, f, args):
    d = f['def']
    if d in ev.F.adts or (d.startswith('crate::') and d[7:] in ev.F.adts):
        k = ev.adtkey(d)
        a = ev.F.adts[k]
        if a['kind'] == 'struct':
            from .evalr import TRANSPARENT
            if k in TRANSPARENT:
                return args[0]
            return ev.mkstruct(k, [x['name'] for x in a['variants'][0]['fields']], args)
    par, _, last = d.rpartition('::')
    for p in (par, par[7:] if par.startswith('crate::') else par, strip_generics(par)):
        a = ev.F.adts.get(p)
        if a is not None:
            for v in a['variants']:
                if v['name'].split('::')[-1] == last:
                    ev.declare(p)
                    if a['kind'] == 'enum':
                        return t.ctor(v['name'], *[pack(x) for x in args])
    return None


def strip_generics(p):
    out = []
    depth = 0
    for ch in p:
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    s = ''.join(out)
    while s.endswith('::'):
        s = s[:-2]
    return s.replace('::::', '::')


def unknown_call(ev, st, f, args, c):
    d = f['def']
    ev.unknowns[d] = ev.unknowns.get(d, 0) + 1
    vals = []
    for a, ty in zip(args, c.argtys):
        if not isinstance(a, Agg) and hasref(a):
            tt = ev.ty(ty) if ty is not None else None
            mut = tt is None or (tt['k'] in ('ref', 'ptr') and tt.get('mut'))
            if mut:
                raise Undecided('call of %s with a mutable reference' % d)
            vals.append(ev.pval(st, a))
        else:
            vals.append(pack(a))
    return t.unknown(c.name, *vals)


# ------------------------------------------------------------------ helpers
def seqtype(ev, ty):
    return ev.ty(ty)


def deep(ev, ty):
    """strip references and transparent pointers from a type id"""
    while ty is not None:
        x = ev.ty(ty)
        if x['k'] in ('ref', 'ptr'):
            ty = x['ty']
        elif x['k'] == 'adt' and x['def'] in ('alloc::boxed::Box',):
            ty = x['args'][0]
        else:
            return ty
    return None


def tcat(ev, ty):
    """category of an arithmetic operand"""
    ty = deep(ev, ty)
    if ty is None:
        return '?'
    x = ev.ty(ty)
    k = x['k']
    if k in ('float', 'param', 'alias', 'other'):
        return 'num'
    if k in ('int', 'uint'):
        return 'int'
    if k == 'bool':
        return 'bool'
    if k == 'adt':
        d = x['def']
        if d.endswith('isometry::Isometry'):
            return 'iso'
        if d.endswith('translation::Translation'):
            return 'tra'
        if d.endswith('rotation::Rotation'):
            return 'rot'
        if d.endswith('unit::Unit'):
            s = ev.ty(x['args'][0])['s']
            if 'quaternion::Quaternion' in s.split('<')[0]:
                return 'rot'
            return 'mat'
        if d.endswith('quaternion::Quaternion'):
            return 'quat'
        if d.endswith('point::Point') or d.endswith('point::OPoint'):
            return 'pt'
        if d.endswith('matrix::Matrix'):
            return 'mat'
        return 'adt:' + d
    if k == 'array' or k == 'slice':
        return 'seq'
    if k == 'str':
        return 'str'
    if k == 'ptr':
        return 'ptr'
    if k == 'tuple':
        return 'tuple'
    return k


def dims(ev, ty):
    """(rows, cols) of a matrix type; None for dynamic"""
    ty = deep(ev, ty)
    x = ev.ty(ty)
    while x['k'] == 'adt' and x['def'].split('::')[-1] in ('Unit', 'Translation'):
        if x['def'].endswith('Translation'):
            return (3, 1)
        x = ev.ty(x['args'][0])
    if x['k'] == 'adt' and x['def'].endswith('matrix::Matrix'):
        def dim(i):
            s = ev.ty(i)['s']
            if 'Const<' in s:
                try:
                    return int(s.split('Const<')[1].split('>')[0])
                except ValueError:
                    return None
            return None
        a = x['args']
        return (dim(a[1]), dim(a[2]))
    return (None, None)


def seq_of(ev, st, v):
    """the sequence term behind a slice / Vec / array value or reference"""
    return ev.pval(st, v)


def slice_seq(s, a, b):
    def f(s, a, b):
        if s.op == 'cat' and all(k == 'e' for k in s.args[0]) and a.op == 'num' and b.op == 'num':
            i, j = int(a.args[0]), int(b.args[0])
            if 0 <= i <= j <= len(s.args) - 1:
                return t.raw('cat', s.args[0][i:j], *s.args[1 + i:1 + j])
            return BOT
        if a is t.ZERO and b.op == 'len' and b.args[0] is s:
            return s
        return t.raw('slice', s, a, b)
    return t.lift('slice', f, s, a, b)


def concrete_elems(s):
    """python list of the elements of a concrete sequence leaf, or None"""
    if s.op == 'cat' and all(k == 'e' for k in s.args[0]):
        return list(s.args[1:])
    return None


def mkseq(xs):
    return t.cat(*[('e', x) for x in xs])


# ------------------------------------------------------------------ iterators
def It(kind, **kw):
    return Agg('It:' + kind, kw.keys(), kw.values())


def lt(a, b):
    return t.irel(a, b, 'lt')


def as_iter(ev, st, v, ty=None):
    """IntoIterator::into_iter"""
    if isinstance(v, Agg):
        if v.name.startswith('It:'):
            return v
        if v.name == 'Range':
            return It('range', a=pack(v.get('start')), b=pack(v.get('end')))
        if v.name == 'RangeInclusive':
            return It('range', a=pack(v.get('start')), b=t.sadd(pack(v.get('end')), t.ONE))
        if v.name == 'RangeFrom':
            return It('range', a=pack(v.get('start')), b=t.raw('usizemax'))
        if iter_impl(ev, v.name):
            return v
    if not isinstance(v, Agg) and hasref(v):
        tt = ev.ty(ty) if ty is not None else None
        inner = ev.val(st, v)
        if isinstance(inner, Agg) and (inner.name.startswith('It:') or inner.name in ('Range', 'RangeInclusive', 'RangeFrom') or iter_impl(ev, inner.name)):
            return It('ref', r=v)
        if tt is not None and tt['k'] == 'ref' and tt['mut']:
            tt2 = ev.ty(tt['ty'])
            if tt2['k'] == 'adt' and tt2['def'].endswith('option::Option'):
                sm = t.is_some(pack(inner))
                ref = t.lift('pv', lambda r: t.raw('pv', r, 'Some', 0, 1), v)
                return It('seq', s=ite(sm, t.cat(('e', ref)), t.EMPTYSEQ), i=t.ZERO)
            if 'HashMap' in tt2['s'].split('<')[0] or 'BTreeMap' in tt2['s'].split('<')[0]:
                raise Undecided('mutable iteration of a map')
            return It('mseq', r=v, i=t.ZERO, n=t.length(pack(inner)))
        v = inner
        if isinstance(v, Agg):
            return as_iter(ev, st, v, ty)
    tt = ev.ty(deep(ev, ty)) if ty is not None else None
    v = pack(v)
    if not isinstance(v, Agg) and v.isT and v.op == 'S' and v.args[0].startswith('It:'):
        return Agg(v.args[0], v.args[1], v.args[2:])
    if v.isT and v.op == 'S' and v.args[0] in ('Range',):
        return It('range', a=v.args[2], b=v.args[3])
    if tt is not None and tt['k'] == 'adt':
        last = tt['def'].split('::')[-1]
        if last == 'Option':
            return It('seq', s=opt_seq(v), i=t.ZERO)
        if last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            return It('seq', s=map_seq(v, 'pairs' if 'Map' in last else 'keys'), i=t.ZERO)
        if last in ('Range', 'RangeInclusive'):
            return It('range', a=getfield(v, 'start', last), b=getfield(v, 'end', last))
    return It('seq', s=v, i=t.ZERO)


def opt_seq(v):
    return ite(t.is_some(v), t.cat(('e', t.unsome(v))), t.EMPTYSEQ)


def map_seq(v, what):
    def f(m):
        xs = []
        while m.op == 'mapins':
            k, x = m.args[1], m.args[2]
            xs.append(t.struct('(2)', [('0', k), ('1', x)]) if what == 'pairs' else k if what == 'keys' else x)
            m = m.args[0]
        if m.op == 'mapnew':
            xs.reverse()
            # the iteration order of a map is unspecified
            return t.raw('unordered', *xs) if len(xs) > 1 else mkseq(xs)
        return t.raw('mapseq', m, what)
    return t.lift(('map_seq', what), f, v)


def iter_impl(ev, sname):
    """crate function implementing Iterator::next for the local struct sname"""
    key = ('iterimpl', sname)
    r = ev._implcache.get(key) if hasattr(ev, '_implcache') else None
    if not hasattr(ev, '_implcache'):
        ev._implcache = {}
    if key in ev._implcache:
        return ev._implcache[key]
    out = None
    for p, fn in ev.F.fns.items():
        it = fn.d.get('impltrait')
        if it and it['def'] == 'core::iter::traits::iterator::Iterator' and fn.name == 'next':
            ty = ev.F.types[fn.d['implself']] if fn.d.get('implself') is not None else None
            if ty and ty['k'] == 'adt' and ty['def'].split('::')[-1] == sname:
                out = fn
    ev._implcache[key] = out
    return out


def cell(ev, st, v):
    k = newid()
    st.env[('T', k)] = v
    return t.raw('pt', k)


def concrete(n):
    if n.isT:
        if n.op != 'num' and n is not BOT:
            raise Undecided('iteration over a sequence of unknown length %r' % (n,))
    else:
        for l in t.leaves(n):
            concrete(l)


def it_next(ev, st, it):
    """[(tag, state, iterator', value)]"""
    if not isinstance(it, Agg):
        if hasref(it):
            inner = ev.read_ref(st, it)
            out = []
            for tag, s, i2, v in it_next(ev, st, inner):
                ev.write_ref(s, it, i2)
                out.append((tag, s, it, v))
            return out
        if it.isT and it.op == 'S':
            it = Agg(it.args[0], it.args[1], it.args[2:])
        elif not it.isT:
            out = []
            for i, kid in enumerate(it.kids):
                s = st.copy()
                s.pc = AND(st.pc, t.node_bool(it.var, it.var.dom[i]))
                if s.pc is FALSE or kid is BOT:
                    continue
                out.extend(it_next(ev, s, kid))
            return out
        else:
            raise Undecided('iterator %r' % (it,))
    if it.name in ('Range', 'RangeInclusive', 'RangeFrom'):
        it = as_iter(ev, st, it, None)
    k = it.name[3:] if it.name.startswith('It:') else None
    if k is None:
        fn = iter_impl(ev, it.name)
        if fn is None:
            raise Undecided('iterator ' + it.name)
        ref = cell(ev, st, it)
        v = ev.call_body(st, fn, ev.F.body(fn), [ref])
        if st.pc is FALSE:
            return []
        i2 = ev.read_ref(st, ref)
        return split_opt(ev, st, i2, pack(v))
    if k == 'seq':
        s, i = it.get('s'), it.get('i')
        if not s.isT:
            from .evalr import restrict
            s2 = restrict(AND(ev.care, st.pc), s)
            if s2 is not s:
                s = s2
                it = it.with_('s', s)
        concrete(t.length(s))
        return two(st, lt(i, t.length(s)), lambda: (it.with_('i', t.sadd(i, t.ONE)), t.index(s, i)), it)
    if k == 'mseq':
        r, i, n = it.get('r'), it.get('i'), it.get('n')
        concrete(n)
        return two(st, lt(i, n), lambda: (it.with_('i', t.sadd(i, t.ONE)),
                                          t.lift('pi', lambda a, b: t.raw('pi', a, b), r, i)), it)
    if k == 'range':
        a, b = it.get('a'), it.get('b')
        if not (b.isT and b.op == 'usizemax'):
            concrete(b)
        return two(st, lt(a, b) if b.op != 'usizemax' else TRUE, lambda: (it.with_('a', t.sadd(a, t.ONE)), a), it) \
            if b.isT else two(st, lt(a, b), lambda: (it.with_('a', t.sadd(a, t.ONE)), a), it)
    if k == 'ref':
        r = it.get('r')
        inner = ev.read_ref(st, r)
        out = []
        for tag, s, i2, v in it_next(ev, st, inner):
            ev.write_ref(s, r, i2)
            out.append((tag, s, it, v))
        return out
    if k == 'succ':
        cur = it.get('cur')
        c = drop_bot(t.as_cond(t.is_some(cur)))
        out = []
        a = st.copy()
        a.pc = AND(st.pc, c)
        if a.pc is not FALSE:
            x = t.unsome(cur)
            nx = ev.call_value(a, it.get('f'), [x])
            if a.pc is not FALSE:
                out.append(('some', a, it.with_('cur', pack(nx)), x))
        b = st.copy()
        b.pc = AND(st.pc, NOT(c))
        if b.pc is not FALSE:
            out.append(('none', b, it, None))
        return out
    if k == 'fromfn':
        v = ev.call_value(st, it.get('f'), [])
        if st.pc is FALSE:
            return []
        return split_opt(ev, st, it, pack(v))
    if k == 'chain':
        out = []
        first = it.get('first')
        c = drop_bot(t.as_cond(first))
        a = st.copy()
        a.pc = AND(st.pc, c)
        if a.pc is not FALSE:
            for tag, s, i2, v in it_next(ev, a, it.get('a')):
                if tag == 'none':
                    out.append(('skip', s, it.with_('a', i2).with_('first', FALSE), None))
                else:
                    out.append((tag, s, it.with_('a', i2), v))
        b = st.copy()
        b.pc = AND(st.pc, NOT(c))
        if b.pc is not FALSE:
            for tag, s, i2, v in it_next(ev, b, it.get('b')):
                out.append((tag, s, it.with_('b', i2), v))
        return out
    if k == 'zip':
        out = []
        for tag, s, i2, v in it_next(ev, st, it.get('a')):
            if tag == 'some':
                for tag2, s2, j2, w in it_next(ev, s, it.get('b')):
                    n = it.with_('a', i2).with_('b', j2)
                    if tag2 == 'some':
                        out.append(('some', s2, n, Agg('(2)', ('0', '1'), (v, w))))
                    elif tag2 == 'skip':
                        # the left element must be kept: materialise is not needed for slices
                        raise Undecided('zip with a filter on the right')
                    else:
                        out.append(('none', s2, n, None))
            else:
                out.append((tag, s, it.with_('a', i2), None))
        return out
    if k == 'peek':
        c = drop_bot(t.as_cond(t.is_some(it.get('p'))))
        out = []
        a = st.copy()
        a.pc = AND(st.pc, c)
        if a.pc is not FALSE:
            out.extend(split_opt(ev, a, it.with_('p', t.NONE), t.unsome(it.get('p'))))
        b = st.copy()
        b.pc = AND(st.pc, NOT(c))
        if b.pc is not FALSE:
            for tag, s, i2, v in it_next(ev, b, it.get('it')):
                out.append((tag, s, it.with_('it', i2), v))
        return out
    if k == 'flat':
        # cur: Option<iterator> as list-of-one; evaluated as: has inner ? next inner : next outer
        out = []
        cur = it.get('cur')
        has = drop_bot(t.as_cond(it.get('has')))
        a = st.copy()
        a.pc = AND(st.pc, has)
        if a.pc is not FALSE:
            for tag, s, i2, v in it_next(ev, a, cur):
                if tag == 'none':
                    out.append(('skip', s, it.with_('cur', t.EMPTYSEQ).with_('has', FALSE), None))
                else:
                    out.append((tag, s, it.with_('cur', i2), v))
        b = st.copy()
        b.pc = AND(st.pc, NOT(has))
        if b.pc is not FALSE:
            for tag, s, i2, v in it_next(ev, b, it.get('it')):
                if tag == 'some':
                    f = it.get('f')
                    w = v if f is t.UNIT else ev.call_value(s, f, [v])
                    if s.pc is FALSE:
                        continue
                    w = ev.val(s, w)
                    if not isinstance(w, Agg):
                        w = guess_iter(ev, s, w)
                    elif not w.name.startswith('It:') and not iter_impl(ev, w.name):
                        w = as_iter(ev, s, w)
                    out.append(('skip', s, it.with_('it', i2).with_('cur', w).with_('has', TRUE), None))
                else:
                    out.append((tag, s, it.with_('it', i2), None))
        return out
    if k == 'take':
        n = it.get('n')
        c = t.irel(n, t.ZERO, 'gt')
        out = []
        a = st.copy()
        a.pc = AND(st.pc, drop_bot(c))
        if a.pc is not FALSE:
            for tag, s, i2, v in it_next(ev, a, it.get('it')):
                n2 = t.ssub(n, t.ONE) if tag == 'some' else n
                out.append((tag, s, it.with_('it', i2).with_('n', n2), v))
        b = st.copy()
        b.pc = AND(st.pc, drop_bot(NOT(c)))
        if b.pc is not FALSE:
            out.append(('none', b, it, None))
        return out
    if k == 'twdone':
        return [('none', st, it, None)]
    inner = it.get('it')
    out = []
    for tag, s, i2, v in it_next(ev, st, inner):
        n = it.with_('it', i2)
        if tag != 'some':
            out.append((tag, s, n, v))
            continue
        if k == 'map':
            r = ev.call_value(s, it.get('f'), [v])
            if s.pc is not FALSE:
                out.append(('some', s, n, r))
        elif k == 'enum':
            out.append(('some', s, n.with_('n', t.sadd(it.get('n'), t.ONE)), Agg('(2)', ('0', '1'), (it.get('n'), v))))
        elif k == 'filter':
            r = ev.call_value(s, it.get('f'), [v])
            out.extend(two(s, pack(r), lambda: (n, v), n, 'skip'))
        elif k == 'filter_map':
            r = pack(ev.call_value(s, it.get('f'), [v]))
            out.extend(two(s, t.is_some(r), lambda: (n, t.unsome(r)), n, 'skip'))
        elif k in ('take_while', 'map_while'):
            d = drop_bot(t.as_cond(it.get('done')))
            s1 = s.copy()
            s1.pc = AND(s.pc, d)
            if s1.pc is not FALSE:
                out.append(('none', s1, n, None))
            s.pc = AND(s.pc, NOT(d))
            if s.pc is FALSE:
                continue
            r = pack(ev.call_value(s, it.get('f'), [v]))
            c = r if k == 'take_while' else t.is_some(r)
            out.extend(two(s, c, lambda: (n, v if k == 'take_while' else t.unsome(r)), n.with_('done', TRUE), 'none'))
        elif k == 'skip_while':
            d = it.get('done')
            r = ev.branch(s, d, lambda s_: FALSE, lambda s_: pack(ev.call_value(s_, it.get('f'), [v])))
            out.extend(two(s, NOT(pack(r)), lambda: (n.with_('done', TRUE), v), n, 'skip'))
        elif k == 'inspect':
            ev.call_value(s, it.get('f'), [v])
            if s.pc is not FALSE:
                out.append(('some', s, n, v))
        elif k == 'skip':
            m = it.get('n')
            out.extend(two(s, t.irel(m, t.ZERO, 'gt'), lambda: (n.with_('n', t.ssub(m, t.ONE)), None), n, 'some',
                           yes='skip', other=v))
        elif k == 'step':
            m = it.get('n')
            out.extend(two(s, t.irel(m, t.ZERO, 'gt'), lambda: (n.with_('n', t.ssub(m, t.ONE)), None),
                           n.with_('n', t.ssub(it.get('by'), t.ONE)), 'some', yes='skip', other=v))
        elif k == 'scan':
            r = pack(ev.call_value(s, it.get('f'), [it.get('acc'), v]))
            out.extend(two(s, t.is_some(r), lambda: (n, t.unsome(r)), n, 'none'))
        else:
            raise Undecided('iterator kind ' + k)
    return out


def guess_iter(ev, st, w):
    """an IntoIterator value without its type: Option or sequence"""
    if any(l.op == 'ctor' for l in t.leaves(w)):
        ls = t.leaves(w)
        if all(l is BOT or (l.op == 'ctor' and l.args[0] in ('Some', 'None')) for l in ls):
            return It('seq', s=opt_seq(w), i=t.ZERO)
        if all(l is BOT or (l.op == 'ctor' and l.args[0] in ('Ok', 'Err')) for l in ls):
            return It('seq', s=ite(t.is_ok(w), t.cat(('e', t.proj(w, 'Ok', 0, 1))), t.EMPTYSEQ), i=t.ZERO)
    if w.isT and w.op == 'S' and w.args[0].startswith('It:'):
        return Agg(w.args[0], w.args[1], w.args[2:])
    if w.isT and w.op == 'proj' and w.args[1] == 'Some':
        pass
    return It('seq', s=w, i=t.ZERO)


def two(st, cond, fyes, itno, notag='none', yes='some', other=None):
    cond = drop_bot(t.as_cond(pack(cond)))
    out = []
    if cond is not FALSE:
        a = st.copy() if cond is not TRUE else st
        a.pc = AND(st.pc, cond)
        if a.pc is not FALSE:
            i2, v = fyes()
            out.append((yes, a, i2, v))
    if cond is not TRUE:
        b = st.copy()
        b.pc = AND(st.pc, NOT(cond))
        if b.pc is not FALSE:
            out.append((notag, b, itno, other))
    return out


def split_opt(ev, st, it, opt):
    return two(st, t.is_some(opt), lambda: (it, t.unsome(opt)), it)


def iterate(ev, st, it, body):
    """run body(state, value) -> None (continue) or a tag (stop) for every element.
    Returns the list of exits [(tag, state)], tag 'end' when exhausted.  body may fork: it then
    returns a list [(tag or None, state)]"""
    ref = cell(ev, st, it)

    def step(s):
        cont, exits = [], []
        for tag, s2, i2, v in it_next(ev, s, ev.read_ref(s, ref)):
            if s2.pc is FALSE:
                continue
            ev.write_ref(s2, ref, i2)
            if tag == 'none':
                exits.append(('end', s2))
            elif tag == 'skip':
                cont.append(s2)
            else:
                r = body(s2, v)
                if isinstance(r, list):
                    for tg, s3 in r:
                        if s3.pc is FALSE:
                            continue
                        if tg is None:
                            cont.append(s3)
                        else:
                            exits.append((tg, s3))
                elif s2.pc is not FALSE:
                    if r is None:
                        cont.append(s2)
                    else:
                        exits.append((r, s2))
        return cont, exits
    exits = ev.loop(st, step)
    for _, s in exits:
        s.env.pop(('T', ref.args[0]), None)
    return exits


def finish(st, exits, key=None, default=t.UNIT):
    m = merge([s for _, s in exits])
    if m is None:
        st.pc = FALSE
        return BOT
    st.become(m)
    if key is None:
        return default
    return st.env.pop(key)


def fork(st, cond):
    cond = drop_bot(t.as_cond(pack(cond)))
    a, b = st.copy(), st.copy()
    a.pc = AND(st.pc, cond)
    b.pc = AND(st.pc, NOT(cond))
    return a, b


def fold_iter(ev, st, it, init, f):
    """f(state, acc, x) -> acc"""
    k = ('T', newid())
    st.env[k] = init

    def body(s, v):
        s.env[k] = f(s, s.env[k], v)
    ex = iterate(ev, st, it, body)
    return finish(st, ex, k)


def search(ev, st, it, pred, found, notfound, extra=None):
    """stop at the first element for which pred(state, x) holds; found(state, x) / notfound(state)"""
    k = ('T', newid())
    st.env[k] = t.UNIT

    def body(s, v):
        c = pred(s, v)
        if s.pc is FALSE:
            return []
        a, b = fork(s, c)
        if a.pc is not FALSE:
            a.env[k] = found(a, v)
        return [('found', a), (None, b)]
    ex = iterate(ev, st, it, body)
    for tg, s in ex:
        if tg == 'end':
            s.env[k] = notfound(s)
    return finish(st, ex, k)


def recv_iter(ev, st, args, c):
    a = args[0]
    if not isinstance(a, Agg) and hasref(a):
        return It('ref', r=a)
    return as_iter(ev, st, a, c.argtys[0])


@model('IntoIterator::into_iter')
def _(ev, st, a, c):
    return as_iter(ev, st, a[0], c.argtys[0])


@model('slice::iter', 'Vec::iter', 'Matrix::iter', 'Option::iter', 'HashMap::iter', 'BTreeMap::iter', 'HashSet::iter')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    if c.name == 'Option::iter':
        return It('seq', s=opt_seq(v), i=t.ZERO)
    if c.name in ('HashMap::iter', 'BTreeMap::iter'):
        return It('seq', s=map_seq(v, 'pairs'), i=t.ZERO)
    if c.name == 'Matrix::iter':
        r, k = dims(ev, c.argtys[0])
        if r and k == 1:
            return It('seq', s=mkseq([t.comp(v, t.num(i)) for i in range(r)]), i=t.ZERO)
    return It('seq', s=v, i=t.ZERO)


@model('HashMap::keys', 'BTreeMap::keys')
def _(ev, st, a, c):
    return It('seq', s=map_seq(ev.pval(st, a[0]), 'keys'), i=t.ZERO)


@model('HashMap::values', 'BTreeMap::values')
def _(ev, st, a, c):
    return It('seq', s=map_seq(ev.pval(st, a[0]), 'values'), i=t.ZERO)


@model('slice::iter_mut', 'Vec::iter_mut')
def _(ev, st, a, c):
    return It('mseq', r=a[0], i=t.ZERO, n=t.length(ev.pval(st, a[0])))


@model('Option::iter_mut')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    ref = t.lift('pv', lambda r: t.raw('pv', r, 'Some', 0, 1), a[0])
    return It('seq', s=ite(t.is_some(v), t.cat(('e', ref)), t.EMPTYSEQ), i=t.ZERO)


def closure_arg(ev, st, f):
    if isinstance(f, Agg):
        return cell(ev, st, f)
    return f


def adaptor(kind, **extra):
    def g(ev, st, a, c):
        it = recv_iter(ev, st, a, c)
        kw = dict(it=it)
        if len(a) > 1:
            kw['f'] = closure_arg(ev, st, a[1])
        kw.update(extra)
        return It(kind, **kw)
    return g


M['Iterator::map'] = adaptor('map')
M['Iterator::filter'] = adaptor('filter')
M['Iterator::filter_map'] = adaptor('filter_map')
M['Iterator::inspect'] = adaptor('inspect')
M['Iterator::take_while'] = adaptor('take_while', done=FALSE)
M['Iterator::map_while'] = adaptor('map_while', done=FALSE)
M['Iterator::skip_while'] = adaptor('skip_while', done=FALSE)
M['Iterator::flat_map'] = adaptor('flat', cur=t.EMPTYSEQ, has=FALSE)


@model('Iterator::flatten')
def _(ev, st, a, c):
    return It('flat', it=recv_iter(ev, st, a, c), f=t.UNIT, cur=t.EMPTYSEQ, has=FALSE)


@model('Iterator::enumerate')
def _(ev, st, a, c):
    return It('enum', it=recv_iter(ev, st, a, c), n=t.ZERO)


@model('Iterator::zip', 'zip::zip', 'iter::zip')
def _(ev, st, a, c):
    x = recv_iter(ev, st, a, c)
    y = as_iter(ev, st, a[1], c.argtys[1])
    return It('zip', a=x, b=y)


@model('Iterator::chain')
def _(ev, st, a, c):
    return It('chain', a=recv_iter(ev, st, a, c), b=as_iter(ev, st, a[1], c.argtys[1]), first=TRUE)


@model('Iterator::take')
def _(ev, st, a, c):
    return It('take', it=recv_iter(ev, st, a, c), n=pack(a[1]))


@model('Iterator::skip')
def _(ev, st, a, c):
    it = recv_iter(ev, st, a, c)
    if it.name == 'It:seq':
        return it.with_('i', t.sadd(it.get('i'), pack(a[1])))
    return It('skip', it=it, n=pack(a[1]))


@model('Iterator::step_by')
def _(ev, st, a, c):
    return It('step', it=recv_iter(ev, st, a, c), by=pack(a[1]), n=t.ZERO)


@model('Iterator::peekable')
def _(ev, st, a, c):
    return It('peek', it=recv_iter(ev, st, a, c), p=t.NONE)


@model('Iterator::scan')
def _(ev, st, a, c):
    return It('scan', it=recv_iter(ev, st, a, c), acc=cell(ev, st, a[1]), f=closure_arg(ev, st, a[2]))


@model('Iterator::cloned', 'Iterator::copied', 'Iterator::fuse', 'Iterator::into_iter')
def _(ev, st, a, c):
    return recv_iter(ev, st, a, c)


@model('Iterator::by_ref')
def _(ev, st, a, c):
    return a[0]


@model('once::once', 'iter::once')
def _(ev, st, a, c):
    return It('seq', s=t.cat(('e', pack(a[0]))), i=t.ZERO)


@model('empty::empty', 'iter::empty')
def _(ev, st, a, c):
    return It('seq', s=t.EMPTYSEQ, i=t.ZERO)


@model('repeat::repeat', 'iter::repeat')
def _(ev, st, a, c):
    return It('map', it=It('range', a=t.ZERO, b=t.raw('usizemax')), f=Agg('konst', ('v',), (a[0],)))


@model('successors::successors', 'iter::successors')
def _(ev, st, a, c):
    return It('succ', cur=pack(a[0]), f=closure_arg(ev, st, a[1]))


@model('from_fn::from_fn', 'iter::from_fn')
def _(ev, st, a, c):
    return It('fromfn', f=closure_arg(ev, st, a[0]))


@model('Iterator::rev')
def _(ev, st, a, c):
    return rev_it(ev, st, recv_iter(ev, st, a, c))


def rev_it(ev, st, it):
    k = it.name
    if k == 'It:seq':
        s = it.get('s')
        if it.get('i') is not t.ZERO:
            s = slice_seq(s, it.get('i'), t.length(s))
        return It('seq', s=t.reverse(s), i=t.ZERO)
    if k == 'It:range':
        def f(x, y):
            if x.op == 'num' and y.op == 'num':
                return mkseq([t.num(j) for j in reversed(range(int(x.args[0]), int(y.args[0])))])
            return t.raw('revrange', x, y)
        return It('seq', s=t.lift('revrange', f, it.get('a'), it.get('b')), i=t.ZERO)
    if k in ('It:map', 'It:filter', 'It:filter_map', 'It:inspect'):
        return it.with_('it', rev_it(ev, st, it.get('it')))
    if k == 'It:mseq':
        r = it.get('r')

        def g(n):
            if n.op == 'num':
                return mkseq([t.lift('pi', lambda a, b: t.raw('pi', a, b), r, t.num(j)) for j in reversed(range(int(n.args[0])))])
            raise Undecided('rev of a mutable iterator of unknown length')
        return It('seq', s=t.lift(('mrev', r.id), g, it.get('n')), i=t.ZERO)
    if k in ('It:enum', 'It:zip', 'It:chain', 'It:take'):
        s = materialise(ev, st, it)
        return It('seq', s=t.reverse(s), i=t.ZERO)
    raise Undecided('rev of ' + k)


def materialise(ev, st, it):
    return fold_iter(ev, st, it, t.EMPTYSEQ, lambda s, acc, v: t.push(acc, pack(v)))


@model('Iterator::next')
def _(ev, st, a, c):
    # next called outside of a MIR terminator position (e.g. as a function value)
    ref = a[0]
    if not hasref(ref):
        ref = cell(ev, st, ref)
    k = ('T', newid())

    def step(s):
        cont, ex = [], []
        for tag, s2, i2, v in it_next(ev, s, ev.read_ref(s, ref)):
            ev.write_ref(s2, ref, i2)
            if tag == 'skip':
                cont.append(s2)
            else:
                s2.env[k] = t.some(pack(v)) if tag == 'some' else t.NONE
                ex.append((tag, s2))
        return cont, ex
    return finish(st, ev.loop(st, step), k)


@model('DoubleEndedIterator::next_back')
def _(ev, st, a, c):
    it = ev.read_ref(st, a[0])
    if isinstance(it, Agg) and it.name == 'It:seq':
        s, i = it.get('s'), it.get('i')
        n = t.length(s)
        c2 = lt(i, n)
        last = t.ssub(n, t.ONE)
        v = t.index(s, ite(c2, last, BOT)) if c2 is not FALSE else BOT
        s2 = ite(c2, slice_seq(s, t.ZERO, ite(c2, last, BOT)), s) if c2 is not FALSE else s
        ev.write_ref(st, a[0], it.with_('s', s2))
        return ite(c2, t.some(v), t.NONE)
    raise Undecided('next_back')


@model('Iterator::size_hint')
def _(ev, st, a, c):
    return t.unknown('size_hint')


@model('ExactSizeIterator::len')
def _(ev, st, a, c):
    it = ev.val(st, a[0])
    s = st.copy()
    n = len(ev.panics)
    r = fold_iter(ev, s, it, t.ZERO, lambda s_, acc, v: t.sadd(acc, t.ONE))
    del ev.panics[n:]
    return r


@model('Iterator::count')
def _(ev, st, a, c):
    return fold_iter(ev, st, recv_iter(ev, st, a, c), t.ZERO, lambda s, acc, v: t.sadd(acc, t.ONE))


@model('Iterator::fold')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[2])
    return fold_iter(ev, st, recv_iter(ev, st, a, c), a[1], lambda s, acc, v: ev.call_value(s, f, [acc, v]))


@model('Iterator::for_each')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[1])

    def body(s, acc, v):
        ev.call_value(s, f, [v])
        return t.UNIT
    return fold_iter(ev, st, recv_iter(ev, st, a, c), t.UNIT, body)


@model('Iterator::last')
def _(ev, st, a, c):
    return fold_iter(ev, st, recv_iter(ev, st, a, c), t.NONE, lambda s, acc, v: t.some(pack(v)))


@model('Iterator::reduce')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[1])

    def body(s, acc, v):
        return ev.branch(s, t.is_some(acc), lambda s_: t.some(pack(ev.call_value(s_, f, [t.unsome(acc), v]))),
                         lambda s_: t.some(pack(v)))
    return fold_iter(ev, st, recv_iter(ev, st, a, c), t.NONE, body)


@model('Iterator::sum', 'Iterator::product')
def _(ev, st, a, c):
    ty = c.targs[-1] if c.targs else None
    k = tcat(ev, ty) if isinstance(ty, int) else 'num'
    prod = c.name.endswith('product')
    if k in ('num', 'int'):
        return fold_iter(ev, st, recv_iter(ev, st, a, c), t.ONE if prod else t.ZERO,
                         lambda s, acc, v: (t.smul if prod else t.sadd)(acc, ev.pval(s, v)))
    if k == 'iso' and prod:
        return fold_iter(ev, st, recv_iter(ev, st, a, c), t.ISO_ID, lambda s, acc, v: t.iso_mul(acc, ev.pval(s, v)))
    if k == 'mat' and not prod:
        return fold_iter(ev, st, recv_iter(ev, st, a, c), t.ZERO, lambda s, acc, v: t.nadd(acc, ev.pval(s, v)))
    raise Undecided('sum of ' + k)


@model('Iterator::any')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[1])
    return search(ev, st, recv_iter(ev, st, a, c), lambda s, v: pack(ev.call_value(s, f, [v])), lambda s, v: TRUE, lambda s: FALSE)


@model('Iterator::all')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[1])
    return search(ev, st, recv_iter(ev, st, a, c), lambda s, v: NOT(pack(ev.call_value(s, f, [v]))), lambda s, v: FALSE, lambda s: TRUE)


@model('Iterator::find')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[1])
    return search(ev, st, recv_iter(ev, st, a, c), lambda s, v: pack(ev.call_value(s, f, [v])), lambda s, v: t.some(pack(v)), lambda s: t.NONE)


@model('Iterator::find_map')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[1])
    it = It('filter_map', it=recv_iter(ev, st, a, c), f=f)
    return search(ev, st, it, lambda s, v: TRUE, lambda s, v: t.some(pack(v)), lambda s: t.NONE)


@model('Iterator::position')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[1])
    it = It('enum', it=recv_iter(ev, st, a, c), n=t.ZERO)
    return search(ev, st, it, lambda s, v: pack(ev.call_value(s, f, [v.get('1')])), lambda s, v: t.some(v.get('0')), lambda s: t.NONE)


@model('Iterator::nth')
def _(ev, st, a, c):
    ref = a[0]
    n = pack(a[1])
    it = It('enum', it=It('ref', r=ref), n=t.ZERO)
    return search(ev, st, it, lambda s, v: t.irel(v.get('0'), n, 'eq'), lambda s, v: t.some(pack(v.get('1'))), lambda s: t.NONE)


@model('Iterator::try_for_each', 'Iterator::try_fold')
def _(ev, st, a, c):
    fold = c.name.endswith('fold')
    f = closure_arg(ev, st, a[2] if fold else a[1])
    k = ('T', newid())
    k2 = ('T', newid())
    st.env[k] = a[1] if fold else t.UNIT
    st.env[k2] = t.UNIT
    good, val, bad, wrap = flow(ev.ty(c.retty))

    def body(s, v):
        r = pack(ev.call_value(s, f, [s.env[k], v] if fold else [v]))
        if s.pc is FALSE:
            return []
        x, y = fork(s, good(r))
        if x.pc is not FALSE:
            x.env[k] = val(r)
        if y.pc is not FALSE:
            y.env[k2] = bad(r)
        return [(None, x), ('fail', y)]
    ex = iterate(ev, st, recv_iter(ev, st, a, c), body)
    for tg, s in ex:
        v = s.env.pop(k)
        if tg == 'end':
            s.env[k2] = wrap(pack(v))
    return finish(st, ex, k2)


def cmp_iter(which):
    def g(ev, st, a, c):
        raise Undecided(which)
    return g


@model('Iterator::eq')
def _(ev, st, a, c):
    x = recv_iter(ev, st, a, c)
    y = as_iter(ev, st, a[1], c.argtys[1])
    for p in (x, y):
        if getattr(p, 'isT', False) and p.op == 'strchars' and getattr(x, 'isT', False) and getattr(y, 'isT', False):
            return seqeq(ev, st, x, y, None)
    x, y = materialise(ev, st, x), materialise(ev, st, y)
    return seqeq(ev, st, x, y, None)


@model('Iterator::unzip')
def _(ev, st, a, c):
    (e0, add0), (e1, add1) = [collector(ev, x) for x in ev.ty(c.retty)['tys']]
    return fold_iter(ev, st, recv_iter(ev, st, a, c), Agg('(2)', ('0', '1'), (e0, e1)),
                     lambda s, acc, v: Agg('(2)', ('0', '1'), (add0(s, acc.get('0'), getfield(v, '0', '(2)')),
                                                               add1(s, acc.get('1'), getfield(v, '1', '(2)')))))


@model('Iterator::partition')
def _(ev, st, a, c):
    f = closure_arg(ev, st, a[1])
    (e0, add), (e1, _) = [collector(ev, x) for x in ev.ty(c.retty)['tys']]

    def body(s, acc, v):
        k = pack(ev.call_value(s, f, [v]))
        x = pack(v)
        return Agg('(2)', ('0', '1'), (ite(t.as_cond(k), add(s, acc.get('0'), x), acc.get('0')),
                                      ite(t.as_cond(k), acc.get('1'), add(s, acc.get('1'), x))))
    return fold_iter(ev, st, recv_iter(ev, st, a, c), Agg('(2)', ('0', '1'), (e0, e1)), body)


@model('Iterator::collect', 'FromIterator::from_iter')
def _(ev, st, a, c):
    it = recv_iter(ev, st, a, c) if c.name.startswith('Iterator') else as_iter(ev, st, a[0], c.argtys[0])
    return collect_into(ev, st, it, c.retty)


def collector(ev, ty):
    """(empty collection, add(state, collection, item)) of a type that is built from an iterator"""
    rt = ev.ty(ty)
    last = rt['def'].split('::')[-1] if rt['k'] == 'adt' else rt['k']
    if last in ('Vec', 'VecDeque', 'Box', 'Arc', 'Rc', 'DVector', 'Matrix'):
        return t.EMPTYSEQ, lambda s, acc, v: t.push(acc, pack(v))
    if last in ('HashMap', 'BTreeMap'):
        return t.MAPNEW, lambda s, acc, v: t.map_insert(acc, ev.pval(s, getfield(v, '0', '(2)')), pack(getfield(v, '1', '(2)')))
    if last in ('HashSet', 'BTreeSet'):
        return t.MAPNEW, lambda s, acc, v: t.map_insert(acc, ev.pval(s, v), t.UNIT)
    if last == 'tuple' and not rt['tys']:
        return t.UNIT, lambda s, acc, v: acc
    raise Undecided('collect into ' + rt['s'])


def collect_into(ev, st, it, retty):
    rt = ev.ty(retty)
    last = rt['def'].split('::')[-1] if rt['k'] == 'adt' else rt['k']
    if last in ('Result', 'Option'):
        isopt = last == 'Option'
        empty, add = collector(ev, rt['args'][0])
        k, k2 = ('T', newid()), ('T', newid())
        st.env[k] = empty
        st.env[k2] = t.UNIT

        def body(s, v):
            r = pack(v)
            good = t.is_some(r) if isopt else t.is_ok(r)
            x, y = fork(s, good)
            if x.pc is not FALSE:
                x.env[k] = add(x, x.env[k], t.unsome(r) if isopt else t.proj(r, 'Ok', 0, 1))
            if y.pc is not FALSE:
                y.env[k2] = t.NONE if isopt else t.err(t.proj(r, 'Err', 0, 1))
            return [(None, x), ('fail', y)]
        ex = iterate(ev, st, it, body)
        for tg, s in ex:
            v = s.env.pop(k)
            if tg == 'end':
                s.env[k2] = (t.some if isopt else t.ok)(v)
        return finish(st, ex, k2)
    empty, add = collector(ev, retty)
    return fold_iter(ev, st, it, empty, add)


@model('Extend::extend', 'Vec::extend_from_slice')
def _(ev, st, a, c):
    it = as_iter(ev, st, a[1], c.argtys[1])
    ref = a[0]
    ty = ev.ty(deep(ev, c.argtys[0]))
    if ty['k'] == 'adt' and ty['def'].split('::')[-1] in ('HashMap', 'BTreeMap'):
        def body(s, acc, v):
            ev.write_ref(s, ref, t.map_insert(ev.pval(s, ref), pack(getfield(v, '0', '(2)')), pack(getfield(v, '1', '(2)'))))
            return t.UNIT
    else:
        if it.name == 'It:seq' and it.get('i') is t.ZERO and ty['k'] == 'adt' and ty['def'].split('::')[-1] in ('Vec', 'VecDeque'):
            ev.write_ref(st, ref, t.append(ev.pval(st, ref), it.get('s')))
            return
        _, add = collector(ev, deep(ev, c.argtys[0]))

        def body(s, acc, v):
            ev.write_ref(s, ref, add(s, ev.pval(s, ref), v))
            return t.UNIT
    fold_iter(ev, st, it, t.UNIT, body)


@model('Peekable::peek')
def _(ev, st, a, c):
    it = ev.read_ref(st, a[0])
    k = ('T', newid())
    st.env[k] = t.UNIT

    def none(s):
        def step(s1):
            cont, ex = [], []
            cur = ev.read_ref(s1, a[0])
            for tag, s2, i2, v in it_next(ev, s1, cur.get('it')):
                nx = cur.with_('it', i2)
                if tag == 'skip':
                    ev.write_ref(s2, a[0], nx)
                    cont.append(s2)
                else:
                    o = t.some(pack(v)) if tag == 'some' else t.NONE
                    ev.write_ref(s2, a[0], nx.with_('p', t.some(o)))
                    s2.env[k] = o
                    ex.append((tag, s2))
            return cont, ex
        return finish(s, ev.loop(s, step), k)
    return ev.branch(st, t.is_some(it.get('p')), lambda s: t.unsome(it.get('p')), none)


# ------------------------------------------------------------------ Vec / slices
@model('Vec::new', 'Vec::with_capacity', 'VecDeque::new', 'VecDeque::with_capacity', 'Vec::default')
def _(ev, st, a, c):
    return t.EMPTYSEQ


@model('Vec::push', 'VecDeque::push_back')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], t.push(ev.pval(st, a[0]), pack(a[1])))


@model('VecDeque::push_front')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], t.cat(('e', pack(a[1])), ('s', ev.pval(st, a[0]))))


def seq_split_last(s):
    """(nonempty condition, rest, last) leafwise"""
    def f(s):
        xs = None
        if s.op == 'cat' and s.args[0] and s.args[0][-1] == 'e':
            return t.some(t.struct('(2)', [('0', t._cat(s.args[0][:-1], s.args[1:-1]) if len(s.args) > 2 else t.EMPTYSEQ), ('1', s.args[-1])]))
        if s is t.EMPTYSEQ:
            return t.NONE
        n = t.length(s)
        c = t.irel(n, t.ZERO, 'gt')
        last = t.index(s, t.ssub(n, t.ONE))
        rest = slice_seq(s, t.ZERO, t.ssub(n, t.ONE))
        return ite(c, t.some(t.struct('(2)', [('0', rest), ('1', last)])), t.NONE)
    return t.lift('split_last', f, s)


@model('Vec::pop', 'VecDeque::pop_back')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    r = seq_split_last(s)
    sm = t.is_some(r)
    x = t.unsome(r)
    ev.write_ref(st, a[0], ite(sm, getfield(x, '0', '(2)'), s))
    return ite(sm, t.some(getfield(x, '1', '(2)')), t.NONE)


@model('VecDeque::pop_front')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    n = t.length(s)
    sm = t.irel(n, t.ZERO, 'gt')
    x = t.index(s, t.ZERO)
    ev.write_ref(st, a[0], ite(sm, slice_seq(s, t.ONE, n), s))
    return ite(sm, t.some(x), t.NONE)


@model('Vec::len', 'slice::len', 'Matrix::len', 'VecDeque::len', 'HashMap::len', 'BTreeMap::len', 'HashSet::len', 'array::len')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    if c.name == 'Matrix::len':
        return mat_nelem(ev, v, c.argtys[0])
    return t.length(v)


@model('Vec::is_empty', 'slice::is_empty', 'VecDeque::is_empty', 'str::is_empty', 'String::is_empty', 'HashMap::is_empty')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    if c.name.startswith('str') or c.name.startswith('String'):
        return t.eq(v, t.raw('str', ''))
    return t.irel(t.length(v), t.ZERO, 'eq')


@model('Vec::clear', 'VecDeque::clear')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], t.EMPTYSEQ)


@model('Vec::truncate')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    n = pack(a[1])
    ev.write_ref(st, a[0], ite(t.irel(n, t.length(s), 'lt'), slice_seq(s, t.ZERO, n), s))


@model('Vec::reserve', 'Vec::shrink_to_fit', 'Vec::reserve_exact')
def _(ev, st, a, c):
    return t.UNIT


@model('Vec::append')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], t.append(ev.pval(st, a[0]), ev.pval(st, a[1])))
    ev.write_ref(st, a[1], t.EMPTYSEQ)


@model('Vec::retain', 'Vec::retain_mut')
def _(ev, st, a, c):
    s0 = ev.pval(st, a[0])
    f = closure_arg(ev, st, a[1])

    def body(s, acc, v):
        k = t.as_cond(pack(ev.call_value(s, f, [v])))
        return ite(k, t.push(acc, pack(v)), acc)
    r = fold_iter(ev, st, It('seq', s=s0, i=t.ZERO), t.EMPTYSEQ, body)
    if st.pc is not FALSE:
        ev.write_ref(st, a[0], r)


@model('slice::reverse')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], t.reverse(ev.pval(st, a[0])))


def sort_leaf(s):
    xs = concrete_elems(s)
    if xs is not None and all(x.op == 'num' for x in xs):
        return mkseq(sorted(xs, key=lambda x: x.args[0]))
    if xs is not None and len(xs) < 2:
        return s
    return t.raw('unk', 'sort', s)


@model('slice::sort_unstable', 'slice::sort')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], t.lift('sort', sort_leaf, ev.pval(st, a[0])))


def strord(x, y):
    """the order of two texts: an unknown, total one"""
    def f(x, y):
        if x.op == 'str' and y.op == 'str':
            p, q = x.args[0].encode(), y.args[0].encode()
            return t.nullary('Less' if p < q else 'Greater' if p > q else 'Equal')
        if x is y:
            return t.nullary('Equal')
        less = t.as_cond(t.raw('strless', x, y)) if x.id < y.id else NOT(t.as_cond(t.raw('strless', y, x)))
        return ite(t.eq(x, y), t.nullary('Equal'), ite(less, t.nullary('Less'), t.nullary('Greater')))
    return t.lift('strord', f, x, y)


@model('slice::sort_by', 'slice::sort_unstable_by', 'slice::sort_by_key', 'slice::sort_unstable_by_key')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])

    def after(x, y):
        """x has to come after y"""
        if 'key' not in c.name:
            r = pack(ev.call_value(st, a[1], [x, y]))
        else:
            p, q = (ev.pval(st, ev.call_value(st, a[1], [v])) for v in (x, y))
            if any(v.isT and v.op in ('S', 'ctor') for v in (p, q)):
                raise Undecided('sort key')
            if not all(ints(v) for v in (p, q)):
                return t.discr_is(strord(p, q), 'Ordering', ORDC, 'Greater')
            return t.irel(p, q, 'gt')
        return t.discr_is(r, 'Ordering', ORDC, 'Greater')

    def ints(v):
        return all(l.op in ('num', 'str::len', 'len', 'poly') for l in t.leaves(v))

    def network(xs):
        t.declare_enum('Ordering', [(n, 0) for n in ORDC])
        xs = list(xs)
        for n in range(len(xs) - 1, 0, -1):
            for i in range(n):
                g = after(xs[i], xs[i + 1])
                xs[i], xs[i + 1] = ite(g, xs[i + 1], xs[i]), ite(g, xs[i], xs[i + 1])
        return mkseq(xs)

    def f(s):
        xs = concrete_elems(s)
        if xs is not None and len(xs) < 2:
            return s
        if xs is not None and len(xs) <= 6 and not all(x.op == 'num' for x in xs):
            return network(xs)
        if xs is None or not all(x.op == 'num' for x in xs):
            return t.raw('unk', 'sort_by', s)
        import functools

        def cmp(x, y):
            if 'key' in c.name:
                p = ev.pval(st, ev.call_value(st, a[1], [x]))
                q = ev.pval(st, ev.call_value(st, a[1], [y]))
                if isinstance(p, T) and p.op == 'S' and p.args[0] == 'Reverse':
                    p, q = q.args[2], p.args[2]
                if p.op == 'num' and q.op == 'num':
                    return -1 if p.args[0] < q.args[0] else 1 if p.args[0] > q.args[0] else 0
                raise Undecided('sort key')
            r = pack(ev.call_value(st, a[1], [x, y]))
            if r.isT and r.op == 'ctor':
                return {'Less': -1, 'Equal': 0, 'Greater': 1}[r.args[0]]
            raise Undecided('sort order')
        return mkseq(sorted(xs, key=functools.cmp_to_key(cmp)))
    if s.isT:
        ev.write_ref(st, a[0], f(s))
    else:
        def lf(n):
            return f(n) if n.isT else t.mk(n.var, tuple(lf(k) for k in n.kids))
        ev.write_ref(st, a[0], lf(s))


@model('Vec::dedup')
def _(ev, st, a, c):
    def f(s):
        xs = concrete_elems(s)
        if xs is not None:
            out = []
            for x in xs:
                if out and t.eq(out[-1], x) is TRUE:
                    continue
                if out and t.eq(out[-1], x) is not FALSE:
                    return t.raw('unk', 'dedup', s)
                out.append(x)
            return mkseq(out)
        return t.raw('unk', 'dedup', s)
    ev.write_ref(st, a[0], t.lift('dedup', f, ev.pval(st, a[0])))


def getopt(s, i):
    return ite(t.irel(i, t.length(s), 'lt'), t.some(t.index(s, i)), t.NONE)


@model('slice::get', 'Vec::get', 'VecDeque::get')
def _(ev, st, a, c):
    i = a[1]
    s = ev.pval(st, a[0])
    if isinstance(i, Agg):
        x, y = range_bounds(i, s)
        c2 = AND(t.irel(x, y, 'le'), t.irel(y, t.length(s), 'le'))
        return ite(c2, t.some(slice_seq(s, x, y)), t.NONE)
    return getopt(s, pack(i))


@model('slice::get_mut')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    i = pack(a[1])
    ref = t.lift('pi', lambda r, j: t.raw('pi', r, j), a[0], i)
    return ite(t.irel(i, t.length(s), 'lt'), t.some(ref), t.NONE)


@model('slice::first', 'VecDeque::front')
def _(ev, st, a, c):
    return getopt(ev.pval(st, a[0]), t.ZERO)


@model('slice::last', 'VecDeque::back')
def _(ev, st, a, c):
    r = seq_split_last(ev.pval(st, a[0]))
    return ite(t.is_some(r), t.some(getfield(t.unsome(r), '1', '(2)')), t.NONE)


@model('slice::first_mut', 'slice::last_mut')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    n = t.length(s)
    i = t.ZERO if 'first' in c.name else t.ssub(n, t.ONE)
    ref = t.lift('pi', lambda r, j: t.raw('pi', r, j), a[0], i)
    return ite(t.irel(n, t.ZERO, 'gt'), t.some(ref), t.NONE)


@model('slice::split_last')
def _(ev, st, a, c):
    r = seq_split_last(ev.pval(st, a[0]))
    x = t.unsome(r)
    return ite(t.is_some(r), t.some(t.struct('(2)', [('0', getfield(x, '1', '(2)')), ('1', getfield(x, '0', '(2)'))])), t.NONE)


@model('slice::split_first')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    n = t.length(s)
    c2 = t.irel(n, t.ZERO, 'gt')
    return ite(c2, t.some(t.struct('(2)', [('0', t.index(s, t.ZERO)), ('1', slice_seq(s, ite(c2, t.ONE, BOT), n))])), t.NONE)


@model('slice::contains')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    x = ev.pval(st, a[1])
    et = elemty(ev, c.argtys[0])
    return search(ev, st, It('seq', s=s, i=t.ZERO), lambda s_, v: veq(ev, s_, v, x, et), lambda s_, v: TRUE, lambda s_: FALSE)


def elemty(ev, ty):
    ty = deep(ev, ty)
    x = ev.ty(ty)
    if x['k'] in ('slice', 'array'):
        return x['ty']
    if x['k'] == 'adt' and x['args']:
        return x['args'][0]
    return None


@model('slice::swap')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    i, j = pack(a[1]), pack(a[2])
    x, y = t.index(s, i), t.index(s, j)
    ev.write_ref(st, a[0], t.update(t.update(s, i, y), j, x))


@model('slice::fill')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])

    def f(s, v):
        xs = concrete_elems(s)
        if xs is None:
            return t.raw('unk', 'fill', s, v)
        return mkseq([v] * len(xs))
    ev.write_ref(st, a[0], t.lift('fill', f, s, pack(a[1])))


@model('slice::to_vec', 'slice::into_vec', 'Vec::into_boxed_slice', 'Vec::as_slice', 'Vec::as_mut_slice', 'Vec::into_vec',
       'ToOwned::to_owned', 'Vec::leak', 'slice::as_ref')
def _(ev, st, a, c):
    if c.name == 'Vec::as_mut_slice':
        return a[0]
    return ev.val(st, a[0])


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], ev.pval(st, a[1]))


@model('Vec::insert')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    i = pack(a[1])
    n = t.length(s)
    ev.write_ref(st, a[0], t.cat(('s', slice_seq(s, t.ZERO, i)), ('e', pack(a[2])), ('s', slice_seq(s, i, n))))


@model('Vec::remove', 'Vec::swap_remove')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    i = pack(a[1])
    n = t.length(s)
    ev.panic_if(st, NOT(t.irel(i, n, 'lt')), 'Vec::remove')
    x = t.index(s, i)
    if c.name.endswith('swap_remove'):
        last = t.index(s, t.ssub(n, t.ONE))
        ev.write_ref(st, a[0], slice_seq(t.update(s, i, last), t.ZERO, t.ssub(n, t.ONE)))
    else:
        ev.write_ref(st, a[0], t.cat(('s', slice_seq(s, t.ZERO, i)), ('s', slice_seq(s, t.sadd(i, t.ONE), n))))
    return x


@model('Vec::resize')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])

    def f(s, n, v):
        xs = concrete_elems(s)
        if xs is None or n.op != 'num':
            return t.raw('unk', 'resize', s, n, v)
        k = int(n.args[0])
        return mkseq((xs + [v] * k)[:k])
    ev.write_ref(st, a[0], t.lift('resize', f, s, pack(a[1]), pack(a[2])))


@model('Vec::drain')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    x, y = range_bounds(a[1], s)
    ev.write_ref(st, a[0], t.cat(('s', slice_seq(s, t.ZERO, x)), ('s', slice_seq(s, y, t.length(s)))))
    return It('seq', s=slice_seq(s, x, y), i=t.ZERO)


@model('vec::from_elem')
def _(ev, st, a, c):
    def f(v, n):
        if n.op == 'num':
            return mkseq([v] * int(n.args[0]))
        return t.raw('repeatv', v, n)
    return t.lift('from_elem', f, pack(a[0]), pack(a[1]))


@model('slice::concat', 'Concat::concat')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    return fold_iter(ev, st, It('seq', s=s, i=t.ZERO), t.EMPTYSEQ, lambda s_, acc, v: t.append(acc, pack(v)))


@model('slice::windows', 'slice::chunks', 'slice::chunks_exact')
def _(ev, st, a, c):
    win = c.name.endswith('windows')

    def f(s, n):
        xs = concrete_elems(s)
        if xs is None or n.op != 'num':
            return t.raw('unk', c.name, s, n)
        k = int(n.args[0])
        if win:
            return mkseq([mkseq(xs[i:i + k]) for i in range(len(xs) - k + 1)])
        if c.name.endswith('exact'):
            xs = xs[:len(xs) - len(xs) % k]
        return mkseq([mkseq(xs[i:i + k]) for i in range(0, len(xs), k)])
    return It('seq', s=t.lift(c.name, f, ev.pval(st, a[0]), pack(a[1])), i=t.ZERO)


@model('slice::split_at')
def _(ev, st, a, c):
    s = ev.pval(st, a[0])
    i = pack(a[1])
    return Agg('(2)', ('0', '1'), (slice_seq(s, t.ZERO, i), slice_seq(s, i, t.length(s))))


def range_bounds(r, s):
    n = t.length(s)
    if not isinstance(r, Agg):
        if r.isT and r.op == 'S':
            r = Agg(r.args[0], r.args[1] if len(r.args) > 1 else (), r.args[2:])
        else:
            return t.ZERO, n
    if r.name == 'Range':
        return pack(r.get('start')), pack(r.get('end'))
    if r.name == 'RangeInclusive':
        return pack(r.get('start')), t.sadd(pack(r.get('end')), t.ONE)
    if r.name == 'RangeFrom':
        return pack(r.get('start')), n
    if r.name == 'RangeTo':
        return t.ZERO, pack(r.get('end'))
    if r.name == 'RangeFull':
        return t.ZERO, n
    raise Undecided('range ' + r.name)


@model('Index::index', 'IndexMut::index_mut')
def _(ev, st, a, c):
    mut = c.name == 'IndexMut::index_mut'
    ty = ev.ty(deep(ev, c.argtys[0]))
    last = ty['def'].split('::')[-1] if ty['k'] == 'adt' else ty['k']
    ix = a[1]
    if last in ('HashMap', 'BTreeMap'):
        m = ev.pval(st, a[0])
        k = ev.pval(st, ix)
        r = t.map_get(m, k)
        ev.panic_if(st, NOT(t.is_some(r)), 'map index')
        return t.unsome(r)
    if tcat(ev, c.argtys[0]) in ('mat', 'tra', 'pt'):
        return mat_index(ev, st, a[0], ix, c, mut)
    s = ev.pval(st, a[0])
    if isinstance(ix, Agg):
        x, y = range_bounds(ix, s)
        ev.panic_if(st, NOT(AND(t.irel(x, y, 'le'), t.irel(y, t.length(s), 'le'))), 'slice index')
        if mut:
            raise Undecided('mutable slice')
        return slice_seq(s, x, y)
    i = pack(ix)
    ity = ev.ty(deep(ev, c.argtys[1])) if c.argtys[1] is not None else None
    if ity is not None and ity['k'] == 'adt':
        return s
    ev.panic_if(st, NOT(t.irel(i, t.length(s), 'lt')), 'index')
    if mut:
        return t.lift('pi', lambda r, j: t.raw('pi', r, j), a[0], i)
    return t.index(s, i)


# ------------------------------------------------------------------ maps
@model('HashMap::new', 'HashMap::with_capacity', 'BTreeMap::new', 'HashSet::new', 'BTreeSet::new', 'HashSet::with_capacity')
def _(ev, st, a, c):
    return t.MAPNEW


@model('HashMap::insert', 'BTreeMap::insert')
def _(ev, st, a, c):
    m = ev.pval(st, a[0])
    k = ev.pval(st, a[1])
    old = t.map_get(m, k)
    ev.write_ref(st, a[0], t.map_insert(m, k, pack(a[2])))
    return old


@model('HashSet::insert', 'BTreeSet::insert')
def _(ev, st, a, c):
    m = ev.pval(st, a[0])
    k = ev.pval(st, a[1])
    old = t.map_get(m, k)
    ev.write_ref(st, a[0], t.map_insert(m, k, t.UNIT))
    return NOT(t.is_some(old))


@model('HashMap::get', 'BTreeMap::get')
def _(ev, st, a, c):
    return t.map_get(ev.pval(st, a[0]), ev.pval(st, a[1]))


@model('HashMap::contains_key', 'BTreeMap::contains_key', 'HashSet::contains', 'BTreeSet::contains')
def _(ev, st, a, c):
    return t.is_some(t.map_get(ev.pval(st, a[0]), ev.pval(st, a[1])))


@model('HashMap::get_mut', 'BTreeMap::get_mut')
def _(ev, st, a, c):
    m = ev.pval(st, a[0])
    k = ev.pval(st, a[1])
    r = t.map_get(m, k)
    ref = t.lift('pk', lambda x, y: t.raw('pk', x, y), a[0], k)
    return ite(t.is_some(r), t.some(ref), t.NONE)


@model('HashMap::entry', 'BTreeMap::entry')
def _(ev, st, a, c):
    return Agg('MapEntry', ('m', 'k'), (a[0], ev.pval(st, a[1])))


def entry_ref(e):
    m, k = getfield(e, 'm', 'MapEntry'), getfield(e, 'k', 'MapEntry')
    return m, k, t.lift('pk', lambda x, y: t.raw('pk', x, y), m, k)


@model('Entry::or_insert', 'Entry::or_insert_with', 'Entry::or_default', 'Entry::or_insert_with_key')
def _(ev, st, a, c):
    m, k, ref = entry_ref(a[0])
    cur = t.map_get(ev.pval(st, m), k)

    def missing(s):
        if c.name.endswith('or_insert'):
            v = pack(a[1])
        elif c.name.endswith('or_insert_with'):
            v = pack(ev.call_value(s, a[1], []))
        elif c.name.endswith('or_default'):
            rt = ev.ty(c.retty)
            v = pack(default_of(ev, s, rt['ty']))
        else:
            raise Undecided(c.name)
        ev.write_ref(s, m, t.map_insert(ev.pval(s, m), k, v))
        return t.UNIT
    ev.branch(st, t.is_some(cur), lambda s: t.UNIT, missing)
    return ref


@model('Entry::and_modify')
def _(ev, st, a, c):
    m, k, ref = entry_ref(a[0])
    cur = t.map_get(ev.pval(st, m), k)
    f = closure_arg(ev, st, a[1])

    def go(s):
        ev.call_value(s, f, [ref])
        return t.UNIT
    ev.branch(st, t.is_some(cur), go, lambda s: t.UNIT)
    return a[0]


@model('HashMap::remove', 'BTreeMap::remove')
def _(ev, st, a, c):
    m = ev.pval(st, a[0])
    k = ev.pval(st, a[1])
    old = t.map_get(m, k)

    def f(m, k):
        if m.op == 'mapnew':
            return m
        if m.op == 'mapins':
            e = t.eq(m.args[1], k)
            if e is TRUE:
                return f(m.args[0], k) if m.args[0].isT else t.raw('unk', 'mapremove', m, k)
            if e is FALSE:
                r = f(m.args[0], k)
                return t.map_insert(r, m.args[1], m.args[2])
        return t.raw('unk', 'mapremove', m, k)
    ev.write_ref(st, a[0], t.lift('mapremove', f, m, k))
    return old


# ------------------------------------------------------------------ Option / Result
@model('Option::is_some', 'Option::is_none', 'Result::is_ok', 'Result::is_err')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    n = c.name.split('::')[1]
    if n == 'is_some':
        return t.is_some(v)
    if n == 'is_none':
        return NOT(t.is_some(v))
    if n == 'is_ok':
        return t.is_ok(v)
    return NOT(t.is_ok(v))


def ok_of(v):
    return t.proj(v, 'Ok', 0, 1)


def err_of(v):
    return t.proj(v, 'Err', 0, 1)


@model('Option::unwrap', 'Option::expect', 'Option::unwrap_unchecked')
def _(ev, st, a, c):
    v = pack(a[0])
    ev.panic_if(st, NOT(t.is_some(v)), c.name)
    return t.unsome(v)


@model('Result::unwrap', 'Result::expect')
def _(ev, st, a, c):
    v = pack(a[0])
    ev.panic_if(st, NOT(t.is_ok(v)), c.name)
    return ok_of(v)


@model('Result::unwrap_err', 'Result::expect_err')
def _(ev, st, a, c):
    v = pack(a[0])
    ev.panic_if(st, t.is_ok(v), c.name)
    return err_of(v)


def isres(c):
    return c.name.startswith('Result')


def good(v, c):
    return t.is_ok(v) if isres(c) else t.is_some(v)


def inner(v, c):
    return ok_of(v) if isres(c) else t.unsome(v)


@model('Option::unwrap_or', 'Result::unwrap_or')
def _(ev, st, a, c):
    v = pack(a[0])
    return ite(good(v, c), inner(v, c), pack(a[1]))


@model('Option::unwrap_or_else', 'Result::unwrap_or_else')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, good(v, c), lambda s: inner(v, c), lambda s: ev.call_value(s, a[1], [err_of(v)] if isres(c) else []))


@model('Option::unwrap_or_default', 'Result::unwrap_or_default')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, good(v, c), lambda s: inner(v, c), lambda s: default_of(ev, s, c.retty))


@model('Option::map', 'Result::map')
def _(ev, st, a, c):
    v = pack(a[0])
    wrap = t.ok if isres(c) else t.some
    return ev.branch(st, good(v, c), lambda s: wrap(pack(ev.call_value(s, a[1], [inner(v, c)]))),
                     lambda s: t.err(err_of(v)) if isres(c) else t.NONE)


@model('Option::inspect', 'Result::inspect')
def _(ev, st, a, c):
    v = pack(a[0])
    ev.branch(st, good(v, c), lambda s: ev.call_value(s, a[1], [inner(v, c)]), lambda s: t.UNIT)
    return v


@model('Option::map_or', 'Result::map_or')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, good(v, c), lambda s: ev.call_value(s, a[2], [inner(v, c)]), lambda s: a[1])


@model('Option::map_or_else', 'Result::map_or_else')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, good(v, c), lambda s: ev.call_value(s, a[2], [inner(v, c)]),
                     lambda s: ev.call_value(s, a[1], [err_of(v)] if isres(c) else []))


@model('Option::is_some_and', 'Result::is_ok_and')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, good(v, c), lambda s: ev.call_value(s, a[1], [inner(v, c)]), lambda s: FALSE)


@model('Option::is_none_or')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, good(v, c), lambda s: ev.call_value(s, a[1], [inner(v, c)]), lambda s: TRUE)


@model('Option::and_then', 'Result::and_then')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, good(v, c), lambda s: ev.call_value(s, a[1], [inner(v, c)]),
                     lambda s: t.err(err_of(v)) if isres(c) else t.NONE)


@model('Option::and', 'Result::and')
def _(ev, st, a, c):
    v = pack(a[0])
    return ite(good(v, c), pack(a[1]), t.err(err_of(v)) if isres(c) else t.NONE)


@model('Option::or', 'Result::or')
def _(ev, st, a, c):
    v = pack(a[0])
    return ite(good(v, c), v if not isres(c) else t.ok(ok_of(v)), pack(a[1]))


@model('Option::or_else', 'Result::or_else')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, good(v, c), lambda s: v if not isres(c) else t.ok(ok_of(v)),
                     lambda s: ev.call_value(s, a[1], [err_of(v)] if isres(c) else []))


@model('Option::xor')
def _(ev, st, a, c):
    v, w = pack(a[0]), pack(a[1])
    return ite(t.is_some(v), ite(t.is_some(w), t.NONE, v), w)


@model('Option::filter')
def _(ev, st, a, c):
    v = pack(a[0])
    r = ev.branch(st, t.is_some(v), lambda s: ev.call_value(s, a[1], [t.unsome(v)]), lambda s: FALSE)
    return ite(t.as_cond(pack(r)), v, t.NONE)


@model('Option::ok_or')
def _(ev, st, a, c):
    v = pack(a[0])
    return ite(t.is_some(v), t.ok(t.unsome(v)), t.err(pack(a[1])))


@model('Option::ok_or_else')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, t.is_some(v), lambda s: t.ok(t.unsome(v)), lambda s: t.err(pack(ev.call_value(s, a[1], []))))


@model('Result::ok')
def _(ev, st, a, c):
    v = pack(a[0])
    return ite(t.is_ok(v), t.some(ok_of(v)), t.NONE)


@model('Result::err')
def _(ev, st, a, c):
    v = pack(a[0])
    return ite(t.is_ok(v), t.NONE, t.some(err_of(v)))


@model('Result::map_err')
def _(ev, st, a, c):
    v = pack(a[0])
    return ev.branch(st, t.is_ok(v), lambda s: t.ok(ok_of(v)), lambda s: t.err(pack(ev.call_value(s, a[1], [err_of(v)]))))


@model('Option::as_ref', 'Option::as_deref', 'Option::cloned', 'Option::copied', 'Result::as_ref', 'Result::cloned', 'Option::as_slice')
def _(ev, st, a, c):
    return ev.val(st, a[0])


@model('Option::as_mut', 'Option::as_deref_mut', 'Result::as_mut')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    if isres(c):
        r1 = t.lift('pvok', lambda r: t.raw('pv', r, 'Ok', 0, 1), a[0])
        r2 = t.lift('pverr', lambda r: t.raw('pv', r, 'Err', 0, 1), a[0])
        return ite(t.is_ok(v), t.ok(r1), t.err(r2))
    ref = t.lift('pv', lambda r: t.raw('pv', r, 'Some', 0, 1), a[0])
    return ite(t.is_some(v), t.some(ref), t.NONE)


@model('Option::take')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    ev.write_ref(st, a[0], t.NONE)
    return v


@model('Option::replace')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    ev.write_ref(st, a[0], t.some(pack(a[1])))
    return v


@model('Option::insert')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], t.some(pack(a[1])))
    return t.lift('pv', lambda r: t.raw('pv', r, 'Some', 0, 1), a[0])


@model('Option::get_or_insert_with', 'Option::get_or_insert')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])

    def miss(s):
        x = ev.call_value(s, a[1], []) if c.name.endswith('with') else a[1]
        ev.write_ref(s, a[0], t.some(pack(x)))
        return t.UNIT
    ev.branch(st, t.is_some(v), lambda s: t.UNIT, miss)
    return t.lift('pv', lambda r: t.raw('pv', r, 'Some', 0, 1), a[0])


@model('Option::zip')
def _(ev, st, a, c):
    v, w = pack(a[0]), pack(a[1])
    return ite(AND(t.is_some(v), t.is_some(w)), t.some(t.struct('(2)', [('0', t.unsome(v)), ('1', t.unsome(w))])), t.NONE)


@model('Option::flatten')
def _(ev, st, a, c):
    v = pack(a[0])
    return ite(t.is_some(v), t.unsome(v), t.NONE)


@model('Option::transpose')
def _(ev, st, a, c):
    v = pack(a[0])
    x = t.unsome(v)
    return ite(t.is_some(v), ite(t.is_ok(x), t.ok(t.some(ok_of(x))), t.err(err_of(x))), t.ok(t.NONE))


@model('bool::then', 'bool::then_some')
def _(ev, st, a, c):
    b = t.as_cond(pack(a[0]))
    if c.name.endswith('some'):
        return ite(b, t.some(pack(a[1])), t.NONE)
    return ev.branch(st, b, lambda s: t.some(pack(ev.call_value(s, a[1], []))), lambda s: t.NONE)


def flow(ty):
    """(goes on, value, value of the other kind, constructor) of a type that works with `?`"""
    last = ty['def'].split('::')[-1] if ty['k'] == 'adt' else ''
    if last == 'Option':
        return t.is_some, t.unsome, lambda v: t.NONE, t.some
    if last == 'Result':
        return t.is_ok, ok_of, lambda v: t.err(err_of(v)), t.ok
    if last == 'ControlFlow':
        return (lambda v: t.discr_is(v, 'ControlFlow', ('Continue', 'Break'), 'Continue'), lambda v: t.proj(v, 'Continue', 0, 1),
                lambda v: t.ctor('Break', t.proj(v, 'Break', 0, 1)), lambda v: t.ctor('Continue', v))
    raise Undecided('?')


@model('Try::branch')
def _(ev, st, a, c):
    v = pack(a[0])
    ty = ev.ty(deep(ev, c.argtys[0]))
    if ty['k'] == 'adt' and ty['def'].endswith('ControlFlow'):
        return v
    if ty['k'] == 'adt' and ty['def'].endswith('Option'):
        return ite(t.is_some(v), t.ctor('Continue', t.unsome(v)), t.ctor('Break', t.NONE))
    return ite(t.is_ok(v), t.ctor('Continue', ok_of(v)), t.ctor('Break', t.err(err_of(v))))


@model('FromResidual::from_residual')
def _(ev, st, a, c):
    v = pack(a[0])
    rt = ev.ty(c.retty)
    if rt['k'] == 'adt' and rt['def'].endswith('Option'):
        return t.NONE
    if rt['k'] == 'adt' and rt['def'].endswith('ControlFlow'):
        return t.ctor('Break', t.proj(v, 'Break', 0, 1))
    src = ev.ty(deep(ev, c.argtys[0]))
    e = err_of(v)
    if src['k'] == 'adt' and len(src['args']) > 1 and rt['k'] == 'adt' and len(rt['args']) > 1:
        ft, tt = src['args'][1], rt['args'][1]
        if ft != tt and ev.F.tstr(ft) != ev.F.tstr(tt):
            e = pack(convert(ev, st, e, ft, tt))
    return t.err(e)


@model('Try::from_output')
def _(ev, st, a, c):
    return flow(ev.ty(c.retty))[3](pack(a[0]))


# ------------------------------------------------------------------ conversions, defaults, clone
def ty_match(ev, pat, x, sub):
    """unify the (possibly generic) type pat with x"""
    p, q = ev.ty(pat), ev.ty(x)
    if p['k'] == 'param':
        return True
    if p['k'] != q['k']:
        return False
    if p['k'] == 'adt':
        return p['def'] == q['def'] and all(ty_match(ev, a, b, sub) for a, b in zip(p['args'], q['args']) if isinstance(a, int) and isinstance(b, int))
    if p['k'] in ('ref', 'ptr'):
        return p['mut'] == q['mut'] and ty_match(ev, p['ty'], q['ty'], sub)
    if p['k'] in ('slice', 'array'):
        return ty_match(ev, p['ty'], q['ty'], sub)
    if p['k'] == 'tuple':
        return len(p['tys']) == len(q['tys']) and all(ty_match(ev, a, b, sub) for a, b in zip(p['tys'], q['tys']))
    return p['s'] == q['s']


def find_impl(ev, trait, method, selfty, arg=None):
    for p, fn in ev.F.fns.items():
        d = fn.d
        it = d.get('impltrait')
        if it and it['def'] == trait and fn.name == method and d.get('implself') is not None:
            if not ty_match(ev, d['implself'], selfty, {}):
                continue
            if arg is not None:
                targs = [x for x in it['args'] if isinstance(x, int)]
                # args[0] is Self
                if not ty_match(ev, targs[-1], arg, {}):
                    continue
            return fn
    return None


def convert(ev, st, v, ft, tt):
    """From<ft> for tt"""
    fn = find_impl(ev, 'core::convert::From', 'from', tt, ft)
    if fn is not None:
        return ev.call_body(st, fn, ev.F.body(fn), [v])
    fn = find_impl(ev, 'core::convert::Into', 'into', ft, tt)
    if fn is not None:
        return ev.call_body(st, fn, ev.F.body(fn), [v])
    a, b = tcat(ev, ft), tcat(ev, tt)
    if ev.F.tstr(ft) == ev.F.tstr(tt):
        return v
    x = ev.ty(tt)
    y = ev.ty(deep(ev, ft))
    if x['k'] == 'adt' and x['def'].endswith('string::String'):
        return ev.val(st, v)
    if x['k'] == 'adt' and x['def'].endswith('option::Option'):
        return t.some(pack(v))
    if x['k'] == 'adt' and x['def'].split('::')[-1] in ('Vec', 'Box', 'Arc', 'Rc', 'VecDeque', 'PathBuf'):
        return ev.val(st, v)
    if a in ('num', 'int', 'bool') and b in ('num', 'int'):
        return ev.val(st, v)
    p = ev.pval(st, v)
    if b == 'tra' and a in ('mat', 'seq', 'pt'):
        return seq_to_vec(p, 3) if a == 'seq' else p
    if b == 'mat' and a in ('tra', 'pt', 'mat'):
        return p
    if b == 'pt' and a in ('mat', 'tra'):
        return p
    if b == 'mat' and a == 'seq':
        r, k = dims(ev, tt)
        if r and k == 1:
            return seq_to_vec(p, r)
    if b == 'iso' and a == 'tra':
        return t.mkiso(t.IDENT, p)
    if b == 'iso' and a == 'rot':
        return t.mkiso(p, t.ZERO)
    if b == 'rot' and a == 'rot':
        return p
    if b == 'seq' and a in ('mat', 'tra'):
        r, k = dims(ev, ft)
        if r and k == 1:
            return mkseq([t.comp(p, t.num(i)) for i in range(r)])
    return t.unknown('from', p)


def seq_to_vec(p, n):
    return t.vec(*[t.index(p, t.num(i)) for i in range(n)])


@model('From::from')
def _(ev, st, a, c):
    tt = c.retty
    ft = c.argtys[0]
    return convert(ev, st, a[0], ft, tt)


@model('Into::into')
def _(ev, st, a, c):
    return convert(ev, st, a[0], c.argtys[0], c.retty)


@model('nalgebra::convert', 'nalgebra::convert_unchecked', 'SupersetOf::from_subset', 'SubsetOf::to_superset', 'nalgebra::convert_ref',
       'conversion::convert')
def _(ev, st, a, c):
    return a[0]


@model('nalgebra::try_convert', 'SupersetOf::to_subset', 'SubsetOf::from_superset')
def _(ev, st, a, c):
    return t.some(ev.pval(st, a[0]))


@model('TryInto::try_into', 'TryFrom::try_from')
def _(ev, st, a, c):
    return t.ok(pack(a[0])) if tcat(ev, c.argtys[0]) in ('num', 'int') else t.unknown('try_into', ev.pval(st, a[0]))


def default_of(ev, st, ty):
    x = ev.ty(ty)
    k = x['k']
    if k in ('float', 'int', 'uint', 'param'):
        return t.ZERO
    if k == 'bool':
        return FALSE
    if k == 'tuple':
        if not x['tys']:
            return t.UNIT
        return Agg('(%d)' % len(x['tys']), [str(i) for i in range(len(x['tys']))], [default_of(ev, st, y) for y in x['tys']])
    if k == 'array':
        return mkseq([pack(default_of(ev, st, x['ty']))] * int(x['len']))
    if k == 'str' or (k == 'ref' and ev.ty(x['ty'])['k'] == 'str'):
        return t.raw('str', '')
    if k == 'adt':
        fn = find_impl(ev, 'core::default::Default', 'default', ty)
        if fn is not None:
            return ev.call_body(st, fn, ev.F.body(fn), [])
        last = x['def'].split('::')[-1]
        if last in ('Vec', 'VecDeque'):
            return t.EMPTYSEQ
        if last == 'String':
            return t.raw('str', '')
        if last == 'Option':
            return t.NONE
        if last in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'):
            return t.MAPNEW
        if last in ('RefCell', 'Cell', 'Mutex', 'Box', 'Unit'):
            return default_of(ev, st, x['args'][0])
        if last == 'Isometry':
            return t.ISO_ID
        if last == 'Matrix':
            return t.ZERO
        if last == 'Translation':
            return t.ZERO
        if x['def'].startswith('urdf_rs::'):
            a = ev.F.adts.get(x['def'])
            if last == 'Axis':
                return t.struct('urdf_rs::Axis', [('xyz', mkseq([t.ONE, t.ZERO, t.ZERO]))])
            if last == 'Geometry':
                ev.declare(x['def'])
                return t.ctor('urdf_rs::Box', mkseq([t.ZERO] * 3))
            if a is not None and a['kind'] == 'struct':
                fs = a['variants'][0]['fields']
                return t.struct(ev.sname(x['def']), [(f['name'], pack(default_of(ev, st, f['ty']))) for f in fs])
        return t.raw('default', ev.sname(x['def']))
    return t.unknown('default')


@model('Default::default')
def _(ev, st, a, c):
    return default_of(ev, st, c.retty)


@model('Clone::clone', 'Rc::clone', 'Arc::clone')
def _(ev, st, a, c):
    ty = deep(ev, c.argtys[0])
    if ty is not None:
        x = ev.ty(ty)
        if x['k'] == 'adt':
            fn = find_impl(ev, 'core::clone::Clone', 'clone', ty)
            if fn is not None:
                return ev.call_body(st, fn, ev.F.body(fn), [a[0]])
    # sequences and containers of crate types clone their elements: identity for values
    return ev.val(st, a[0])


@model('Clone::clone_from')
def _(ev, st, a, c):
    ev.write_ref(st, a[0], ev.val(st, a[1]))


@model('ToString::to_string', 'String::as_str', 'str::to_owned', 'String::from', 'str::to_string', 'String::clone',
       'AsRef::as_ref', 'Borrow::borrow', 'String::into_boxed_str', 'str::as_ref', 'String::as_ref', 'Path::new', 'Path::to_path_buf',
       'Cow::into_owned', 'String::as_mut_str')
def _(ev, st, a, c):
    if c.name == 'ToString::to_string':
        k = tcat(ev, c.argtys[0])
        if k not in ('str', 'adt:alloc::string::String', 'param', 'num'):
            from .fmt_models import shown
            return shown(ev, st, a[0], c.argtys[0], 'Display')
    return ev.val(st, a[0])


@model('String::new')
def _(ev, st, a, c):
    return t.raw('str', '')


STR1 = dict(to_lowercase=str.lower, to_uppercase=str.upper, trim=str.strip, to_ascii_lowercase=None, to_ascii_uppercase=None, trim_end=str.rstrip,
            trim_start=str.lstrip, len=lambda x: len(x.encode()))


@model(*['str::' + n for n in STR1], 'String::len')
def _(ev, st, a, c):
    n = c.name.split('::')[1]

    def f(x):
        if x.op == 'str' and x.args[0].isascii() and STR1[n]:
            r = STR1[n](x.args[0])
            return t.num(r) if n == 'len' else t.raw('str', r)
        return t.raw('str::' + n, x)
    return t.lift(('str1', n), f, ev.pval(st, a[0]))


STR2 = dict(starts_with=str.startswith, ends_with=str.endswith, contains=lambda x, y: y in x, eq_ignore_ascii_case=lambda x, y: x.lower() == y.lower())


@model('str::starts_with', 'str::ends_with', 'str::contains', 'str::eq_ignore_ascii_case', 'str::find', 'str::rfind')
def _(ev, st, a, c):
    n = c.name.split('::')[1]

    def f(x, y):
        if n in STR2:
            if x is y:
                return TRUE
            if x.op == 'str' and y.op == 'str' and x.args[0].isascii() and y.args[0].isascii():
                return t.const_bool(STR2[n](x.args[0], y.args[0]))
        return t.raw(c.name, x, y)
    return t.lift(('str2', n), f, ev.pval(st, a[0]), ev.pval(st, a[1]))


@model('str::trim_matches', 'str::trim_start_matches', 'str::trim_end_matches')
def _(ev, st, a, c):
    return t.fn(c.name, ev.pval(st, a[0]), ev.pval(st, a[1]))


@model('str::strip_prefix', 'str::strip_suffix')
def _(ev, st, a, c):
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])
    has = t.as_cond(t.fn('str::starts_with' if c.name.endswith('prefix') else 'str::ends_with', x, y))
    return ite(has, t.some(t.fn(c.name, x, y)), t.NONE)


@model('str::split_once', 'str::rsplit_once')
def _(ev, st, a, c):
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])
    has = t.as_cond(t.fn('str::contains', x, y))
    return ite(has, t.some(pack(Agg('(2)', ('0', '1'), (t.fn(c.name + '.0', x, y), t.fn(c.name + '.1', x, y))))), t.NONE)


@model('String::as_bytes', 'str::as_bytes', 'String::into_bytes', 'str::into_bytes')
def _(ev, st, a, c):
    return t.fn('strbytes', ev.pval(st, a[0]))


@model('str::chars', 'str::bytes')
def _(ev, st, a, c):
    return t.fn('str' + c.name.split('::')[1], ev.pval(st, a[0]))


@model('str::split', 'str::rsplit', 'str::splitn', 'str::rsplitn', 'str::split_whitespace', 'str::split_terminator')
def _(ev, st, a, c):
    return t.fn('strparts', t.raw('str', c.name.split('::')[1]), *[ev.pval(st, x) for x in a])


@model('str::repeat')
def _(ev, st, a, c):
    def rep(s, n):
        if s.op == 'str' and n.op == 'num':
            return t.raw('str', s.args[0] * int(n.args[0]))
        return t.raw('str_repeat', s, n)
    return t.lift('str_repeat', rep, ev.pval(st, a[0]), pack(a[1]))


@model('hint::must_use', 'convert::identity', 'hint::black_box', 'intrinsics::likely', 'intrinsics::unlikely')
def _(ev, st, a, c):
    return a[0]


# ------------------------------------------------------------------ pointers and cells
@model('Box::new', 'RefCell::new', 'Cell::new', 'Mutex::new', 'RwLock::new', 'Atomic::new', 'Rc::new', 'RefCell::into_inner', 'Cell::into_inner', 'Mutex::into_inner_',
       'Box::into_inner', 'Pin::new', 'Some', 'ManuallyDrop::new', 'MaybeUninit::new', 'Box::pin', 'Unit::new_unchecked', 'Unit::into_inner',
       'Unit::into_inner', 'Unit::unwrap', 'Unit::as_ref')
def _(ev, st, a, c):
    return a[0]


@model('Arc::new')
def _(ev, st, a, c):
    ty = ev.ty(deep(ev, c.argtys[0])) if c.argtys and c.argtys[0] is not None else None
    v = a[0]
    if isinstance(v, Agg) and v.name == 'NodeImpl':
        return ev.new_node(st, v)
    return a[0]


@model('Box::new_uninit')
def _(ev, st, a, c):
    return cell(ev, st, BOT)


@model('boxed::box_assume_init_into_vec_unsafe', 'slice::into_vec', 'boxed::box_new', 'Box::assume_init')
def _(ev, st, a, c):
    return ev.val(st, a[0])


@model('Arc::downgrade', 'Rc::downgrade')
def _(ev, st, a, c):
    return t.fn('weak', ev.pval(st, a[0]))


@model('Weak::upgrade')
def _(ev, st, a, c):
    def f(w):
        if w.op == 'weak':
            return t.some(w.args[0])
        return t.raw('upgrade', w)
    return t.lift('upgrade', f, ev.pval(st, a[0]))


@model('Weak::new')
def _(ev, st, a, c):
    return t.raw('weaknull')


@model('Arc::ptr_eq', 'ptr::eq', 'Weak::ptr_eq', 'ptr::addr_eq')
def _(ev, st, a, c):
    x, y = ev.pval(st, a[0]) if not is_ph(a[0]) else a[0], ev.pval(st, a[1]) if not is_ph(a[1]) else a[1]
    if c.name == 'ptr::eq':
        # the addresses of values that are not nodes are not tracked
        pass
    return ev.ptreq(pack(x), pack(y))


def is_ph(v):
    return isinstance(v, T) and v.op == 'ph'


@model('Arc::as_ptr', 'Weak::as_ptr', 'Arc::into_raw')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    return t.lift('as_ptr', lambda w: w.args[0] if w.op == 'weak' else w, v)


@model('Mutex::lock', 'RwLock::write', 'RwLock::read')
def _(ev, st, a, c):
    v = a[0]
    ev.others(st)
    n = ev.val(st, v) if not isinstance(v, Agg) else v
    if not isinstance(v, Agg) and hasref(v) and (isinstance(n, Agg) or not any(nodey(l) for l in t.leaves(n))):
        # a lock that is not that of a node
        if ev.locks is None:
            return t.ok(v)
        v = t.lift(('pq', c.name), lambda r: r if r is BOT else t.raw('pq', r, c.name.split('::')[1]), v)
        ev.locked(st, v)
        return t.ok(v)
    n = pack(n)
    if isinstance(n, Agg) or any(l.op not in ('node',) and l is not BOT and not nodey(l) for l in t.leaves(n)):
        raise Undecided('lock of %r' % (n,))
    if ev.locks is not None:
        ev.locked(st, n)
    return t.ok(t.lift('ph', lambda x: BOT if x is BOT else t.raw('ph', x), n))


@model('Atomic::load')
def _(ev, st, a, c):
    need_ref(a[0])
    return ev.read_ref(st, a[0])


@model('Atomic::store')
def _(ev, st, a, c):
    need_ref(a[0])
    ev.write_ref(st, a[0], a[1])


@model('Atomic::swap')
def _(ev, st, a, c):
    need_ref(a[0])
    old = ev.read_ref(st, a[0])
    ev.write_ref(st, a[0], a[1])
    return old


@model('Atomic::fetch_add', 'Atomic::fetch_sub', 'Atomic::fetch_or', 'Atomic::fetch_and', 'Atomic::fetch_xor', 'Atomic::fetch_max', 'Atomic::fetch_min')
def _(ev, st, a, c):
    need_ref(a[0])
    old = pack(ev.read_ref(st, a[0]))
    k = c.name.split('_')[-1]
    x = pack(a[1])
    if k in ('add', 'sub'):
        new = (t.sadd if k == 'add' else t.ssub)(old, x)
    elif k in ('or', 'and', 'xor'):
        ty = ev.ty(deep(ev, c.argtys[1])) if c.argtys[1] is not None else None
        new = ev.binop(st, {'or': 'BitOr', 'and': 'BitAnd', 'xor': 'BitXor'}[k], old, x, ty)
    else:
        lt = t.irel(old, x, 'lt')
        new = ite(lt, x, old) if k == 'max' else ite(lt, old, x)
    ev.write_ref(st, a[0], new)
    return old


@model('Atomic::compare_exchange', 'Atomic::compare_exchange_weak')
def _(ev, st, a, c):
    need_ref(a[0])
    old = pack(ev.read_ref(st, a[0]))
    ty = ev.ty(deep(ev, c.argtys[1])) if c.argtys[1] is not None else None
    same = t.as_cond(ev.binop(st, 'Eq', old, pack(a[1]), ty))
    ev.write_ref(st, a[0], ite(same, pack(a[2]), old))
    return ite(same, t.ok(old), t.err(old))


@model('OnceLock::new', 'OnceCell::new')
def _(ev, st, a, c):
    return t.NONE


@model('OnceLock::get', 'OnceCell::get')
def _(ev, st, a, c):
    return ev.val(st, a[0])


@model('OnceLock::set', 'OnceCell::set')
def _(ev, st, a, c):
    need_ref(a[0])
    old = pack(ev.read_ref(st, a[0]))
    none = isnone(old)
    ev.write_ref(st, a[0], ite(none, t.some(pack(a[1])), old))
    return ite(none, t.ok(t.UNIT), t.err(pack(a[1])))


@model('OnceLock::get_or_init', 'OnceCell::get_or_init')
def _(ev, st, a, c):
    need_ref(a[0])
    old = pack(ev.read_ref(st, a[0]))
    none = isnone(old)
    if none is not FALSE:
        if none is not TRUE:
            raise Undecided('get_or_init of a cell that may have been initialised')
        ev.write_ref(st, a[0], t.some(pack(ev.call_value(st, a[1], []))))
    return t.unsome(pack(ev.read_ref(st, a[0])))


def isnone(v):
    return t.lift('isnone', lambda x: t.const_bool(x is t.NONE) if x.op == 'ctor' else x if x is BOT else t.unknown('isnone', x), v)


def lkey(ev, st, r):
    """the place of a thread-local value"""
    r = ev.val(st, r)
    if isinstance(r, Agg) or not r.isT or r.op != 'lkey':
        raise Undecided('thread-local value %r' % (r,))
    return ev.static(st, r.args[0])


@model('LocalKey::with')
def _(ev, st, a, c):
    return ev.call_value(st, a[1], [lkey(ev, st, a[0])])


@model('LocalKey::try_with')
def _(ev, st, a, c):
    return t.ok(pack(ev.call_value(st, a[1], [lkey(ev, st, a[0])])))


@model('LocalKey::get')
def _(ev, st, a, c):
    return ev.read_ref(st, lkey(ev, st, a[0]))


@model('LocalKey::set')
def _(ev, st, a, c):
    ev.write_ref(st, lkey(ev, st, a[0]), a[1])


@model('LocalKey::replace')
def _(ev, st, a, c):
    old = ev.read_ref(st, lkey(ev, st, a[0]))
    ev.write_ref(st, lkey(ev, st, a[0]), a[1])
    return old


@model('LocalKey::take')
def _(ev, st, a, c):
    old = ev.read_ref(st, lkey(ev, st, a[0]))
    ev.write_ref(st, lkey(ev, st, a[0]), default_of(ev, st, c.retty))
    return old


@model('LocalKey::with_borrow', 'LocalKey::with_borrow_mut')
def _(ev, st, a, c):
    return ev.call_value(st, a[1], [lkey(ev, st, a[0])])


@model('Mutex::try_lock', 'RwLock::try_write', 'RwLock::try_read')
def _(ev, st, a, c):
    # another thread may hold the lock at any time
    v = a[0]
    ev.others(st)
    n = ev.val(st, v) if not isinstance(v, Agg) else v
    busy = t.as_cond(t.fn('busy', t.num(newid())))
    if not isinstance(v, Agg) and hasref(v) and (isinstance(n, Agg) or not any(nodey(l) for l in t.leaves(n))):
        g = v if ev.locks is None else t.lift(('pq', c.name), lambda r: r if r is BOT else t.raw('pq', r, c.name.split('::')[1]), v)
    else:
        n = pack(n)
        if isinstance(n, Agg) or any(l.op not in ('node',) and l is not BOT and not nodey(l) for l in t.leaves(n)):
            raise Undecided('lock of %r' % (n,))
        g = t.lift('ph', lambda x: BOT if x is BOT else t.raw('ph', x), n)
    if ev.locks is not None:
        for c2, h, owner in ev.held(st):
            for c3, x in leafconds(g):
                if x is h or (x.op == 'ph' and x.args[0] is h):
                    busy = OR(busy, AND(c2, c3))
    return ite(busy, t.err(t.fn('wouldblock')), t.ok(g))


def nodey(l):
    return l.op in ('node', 'index', 'proj', 'field', 'upgrade', 'iota', 'mu', 'fin', 'param', 'select')


@model('Deref::deref', 'DerefMut::deref_mut', 'AsMut::as_mut', 'BorrowMut::borrow_mut')
def _(ev, st, a, c):
    v = a[0]
    ty = deep(ev, c.argtys[0])
    x = ev.ty(ty) if ty is not None else None
    if x is not None and x['k'] == 'adt':
        d = x['def']
        if d.endswith('MutexGuard') or d.endswith('::Ref') or d.endswith('RefMut') or d.endswith('RwLockReadGuard') or d.endswith('RwLockWriteGuard'):
            # the guard value is the reference to the guarded place
            if isinstance(v, Agg):
                return v
            # strip references to the local that holds the guard
            while True:
                if isinstance(v, Agg) or not hasref(v):
                    return v
                w = ev.read_ref(st, v)
                if not isinstance(w, Agg) and hasref(w):
                    v = w
                    continue
                return v
        if d.startswith('nalgebra::'):
            if c.name == 'DerefMut::deref_mut':
                return v
            return ev.val(st, v)
        fn = find_impl(ev, 'core::ops::deref::' + c.name.split('::')[0], c.name.split('::')[1], ty)
        if fn is not None:
            return ev.call_body(st, fn, ev.F.body(fn), [v])
    if c.name == 'Deref::deref':
        if not isinstance(v, Agg) and hasref(v) and x is not None and x['k'] == 'adt' and not ev.freeze(ty):
            return v
        return ev.val(st, v)
    return v


@model('RefCell::borrow', 'Cell::get', 'RefCell::try_borrow')
def _(ev, st, a, c):
    return ev.val(st, a[0])


@model('RefCell::borrow_mut', 'RefCell::get_mut', 'Cell::get_mut', 'Mutex::get_mut', 'Cell::as_ptr')
def _(ev, st, a, c):
    need_ref(a[0])
    if c.name == 'Mutex::get_mut':
        return t.ok(a[0])
    return a[0]


def need_ref(v):
    if isinstance(v, Agg) or not hasref(v):
        raise Undecided('interior mutability behind a value')


@model('RefCell::replace', 'Cell::replace', 'mem::replace')
def _(ev, st, a, c):
    need_ref(a[0])
    old = ev.read_ref(st, a[0])
    ev.write_ref(st, a[0], a[1])
    return old


@model('Cell::set')
def _(ev, st, a, c):
    need_ref(a[0])
    ev.write_ref(st, a[0], a[1])


@model('RefCell::take', 'Cell::take', 'mem::take')
def _(ev, st, a, c):
    need_ref(a[0])
    old = ev.read_ref(st, a[0])
    ev.write_ref(st, a[0], default_of(ev, st, c.retty))
    return old


@model('RefCell::replace_with')
def _(ev, st, a, c):
    old = ev.read_ref(st, a[0])
    k = newid()
    new = ev.call_value(st, a[1], [a[0]])
    ev.write_ref(st, a[0], new)
    return old


@model('mem::swap', 'RefCell::swap', 'Cell::swap')
def _(ev, st, a, c):
    x, y = ev.read_ref(st, a[0]), ev.read_ref(st, a[1])
    ev.write_ref(st, a[0], y)
    ev.write_ref(st, a[1], x)


@model('Ref::map', 'MutexGuard::map', 'RefMut::map')
def _(ev, st, a, c):
    return ev.call_value(st, a[1], [a[0]])


@model('mem::drop', 'mem::forget')
def _(ev, st, a, c):
    return t.UNIT


@model('FnOnce::call_once', 'FnMut::call_mut', 'Fn::call')
def _(ev, st, a, c):
    tup = ev.val(st, a[1])
    if isinstance(tup, Agg):
        args = tup.vals
    elif tup is t.UNIT:
        args = []
    elif tup.isT and tup.op == 'S':
        args = list(tup.args[2:])
    else:
        args = [getfield(tup, '0', '(1)')]
    return ev.call_value(st, a[0], list(args))


# ------------------------------------------------------------------ comparison and arithmetic
def veq(ev, st, x, y, ty):
    """PartialEq::eq on values of type ty"""
    x, y = ev.val(st, x), ev.val(st, y)
    k = tcat(ev, ty) if ty is not None else '?'
    if k == 'num':
        return t.frel(pack(x), pack(y), 'eq')
    if k == 'int':
        return t.irel(pack(x), pack(y), 'eq')
    if k == 'bool':
        x, y = t.as_cond(pack(x)), t.as_cond(pack(y))
        return ite(x, y, NOT(y))
    if ty is not None:
        ty = deep(ev, ty)
        d = ev.ty(ty)
        if d['k'] == 'adt':
            fn = find_impl(ev, 'core::cmp::PartialEq', 'eq', ty)
            if fn is not None:
                return pack(ev.call_body(st, fn, ev.F.body(fn), [x, y]))
            last = d['def'].split('::')[-1]
            if last == 'Option':
                x, y = pack(x), pack(y)
                sx, sy = t.is_some(x), t.is_some(y)
                both = AND(sx, sy)
                r = FALSE
                if both is not FALSE:
                    r = ev.branch(st, both, lambda s: t.as_cond(pack(veq(ev, s, t.unsome(x), t.unsome(y), d['args'][0]))), lambda s: AND(NOT(sx), NOT(sy)))
                else:
                    r = AND(NOT(sx), NOT(sy))
                return r
            if last in ('Vec',):
                return seqeq(ev, st, pack(x), pack(y), d['args'][0])
            if last == 'Arc':
                return ev.ptreq(pack(x), pack(y))
        if d['k'] in ('slice', 'array'):
            return seqeq(ev, st, pack(x), pack(y), d['ty'])
        if d['k'] == 'tuple':
            r = TRUE
            n = len(d['tys'])
            for i, ti in enumerate(d['tys']):
                r = AND(r, t.as_cond(pack(veq(ev, st, getfield(x, str(i), '(%d)' % n), getfield(y, str(i), '(%d)' % n), ti))))
            return r
    return t.eq(pack(x), pack(y))


def seqeq(ev, st, x, y, ety):
    if x.isT and y.isT and x.op == y.op and x.op in ('strbytes', 'strchars'):
        return t.eq(x.args[0], y.args[0])
    n = t.irel(t.length(x), t.length(y), 'eq')
    it = It('zip', a=It('seq', s=x, i=t.ZERO), b=It('seq', s=y, i=t.ZERO))
    return ev.branch(st, n, lambda s: search(ev, s, it, lambda s2, v: NOT(pack(veq(ev, s2, v.get('0'), v.get('1'), ety))),
                                             lambda s2, v: FALSE, lambda s2: TRUE), lambda s: FALSE)


@model('PartialEq::eq', 'PartialEq::ne', 'cmp::eq')
def _(ev, st, a, c):
    r = t.as_cond(pack(veq(ev, st, a[0], a[1], c.argtys[0])))
    return r if not c.name.endswith('ne') else NOT(r)


@model('PartialOrd::lt', 'PartialOrd::le', 'PartialOrd::gt', 'PartialOrd::ge')
def _(ev, st, a, c):
    what = c.name.split('::')[1]
    k = tcat(ev, c.argtys[0])
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])
    if k == 'int':
        return t.irel(x, y, what)
    if k == 'num':
        return t.frel(x, y, what)
    return t.fn(what, x, y)


ORDC = ('Less', 'Equal', 'Greater')


@model('PartialOrd::partial_cmp', 'Ord::cmp', 'f64::total_cmp')
def _(ev, st, a, c):
    k = tcat(ev, c.argtys[0])
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])
    t.declare_enum('Ordering', [(n, 0) for n in ORDC])
    if k == 'adt:core::cmp::Reverse':
        part = c.name.endswith('partial_cmp')
        if not all(v.isT and v.op == 'S' for v in (x, y)) or tcat(ev, ev.ty(deep(ev, c.argtys[0]))['args'][0]) != 'int' or part:
            raise Undecided('order of Reverse')
        return t.lift('ordR', lambda l: t.nullary({t.LT: 'Less', t.EQ: 'Equal', t.GT: 'Greater'}[l]), t.icmp(y.args[2], x.args[2]))
    if k not in ('int', 'num'):
        ty = ev.ty(deep(ev, c.argtys[0]))
        while ty['k'] == 'ref':
            ty = ev.ty(ty['ty'])
        o = strord(x, y) if ty['k'] == 'str' or ty.get('def') == 'alloc::string::String' else t.fn('cmp', x, y)
        return t.some(o) if c.name.endswith('partial_cmp') else o
    cm = (t.icmp if k == 'int' else t.fcmp)(x, y)
    part = c.name.endswith('partial_cmp')

    def f(l):
        if l is t.UN:
            return t.NONE if part else BOT
        o = t.nullary({t.LT: 'Less', t.EQ: 'Equal', t.GT: 'Greater'}[l])
        return t.some(o) if part else o
    return t.lift('ord' + str(part), f, cm)


@model('Ordering::is_lt', 'Ordering::is_le', 'Ordering::is_gt', 'Ordering::is_ge', 'Ordering::is_eq', 'Ordering::is_ne', 'Ordering::reverse')
def _(ev, st, a, c):
    w = c.name.split('_')[-1]
    v = pack(a[0])
    if c.name.endswith('reverse'):
        return t.lift('ordrev', lambda l: t.nullary({'Less': 'Greater', 'Equal': 'Equal', 'Greater': 'Less'}[l.args[0]]) if l.op == 'ctor' else t.raw('unk', 'rev', l), v)
    okset = {'lt': ('Less',), 'le': ('Less', 'Equal'), 'gt': ('Greater',), 'ge': ('Greater', 'Equal'), 'eq': ('Equal',), 'ne': ('Less', 'Greater')}[w]
    return t.lift(('ordis', w), lambda l: t.const_bool(l.args[0] in okset) if l.op == 'ctor' else t.raw('unk', 'ord', l), v)


@model('Range::contains', 'RangeInclusive::contains')
def _(ev, st, a, c):
    r = ev.val(st, a[0])
    x = ev.pval(st, a[1])
    n = c.name.split('::')[0]
    if isinstance(r, Agg):
        lo, hi = pack(r.get('start')), pack(r.get('end'))
    else:
        lo, hi = getfield(r, 'start', n), getfield(r, 'end', n)
    k = tcat(ev, c.argtys[1])
    rel = t.irel if k == 'int' else t.frel
    return AND(rel(lo, x, 'le'), rel(x, hi, 'le' if n == 'RangeInclusive' else 'lt'))


@model('RangeInclusive::new')
def _(ev, st, a, c):
    return Agg('RangeInclusive', ('start', 'end', 'exhausted'), (a[0], a[1], FALSE))


@model('RangeInclusive::start', 'RangeInclusive::end')
def _(ev, st, a, c):
    return getfield(ev.val(st, a[0]), c.name.split('::')[1], 'RangeInclusive')


@model('RangeInclusive::into_inner')
def _(ev, st, a, c):
    r = a[0]
    return Agg('(2)', ('0', '1'), (getfield(r, 'start', 'RangeInclusive'), getfield(r, 'end', 'RangeInclusive')))


@model('Ord::max', 'Ord::min', 'cmp::max', 'cmp::min', 'ComplexField::max', 'RealField::max', 'RealField::min', 'f64::max', 'f64::min',
       'f32::max', 'f32::min', 'usize::max', 'usize::min')
def _(ev, st, a, c):
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])
    mx = c.name.endswith('max')
    k = tcat(ev, c.argtys[0])
    if k == 'int':
        return ite(t.irel(x, y, 'ge' if mx else 'le'), x, y)
    # floating point max/min: the other operand for NaN
    return ite(t.frel(x, y, 'ge' if mx else 'le'), x, ite(t.frel(y, x, 'ge' if mx else 'le'), y, ite(isnan(x), y, x)))


def isnan(x):
    return t.rel(t.fcmp(x, x), 'ne')


@model('RealField::clamp', 'f64::clamp', 'f32::clamp', 'nalgebra::clamp', 'num_traits::clamp', 'Ord::clamp', 'ComplexField::clamp', 'identities::clamp',
       'num::clamp')
def _(ev, st, a, c):
    x, lo, hi = ev.pval(st, a[0]), ev.pval(st, a[1]), ev.pval(st, a[2])
    rel = t.irel if tcat(ev, c.argtys[0]) == 'int' else t.frel
    return ite(rel(x, lo, 'lt'), lo, ite(rel(x, hi, 'gt'), hi, x))


@model('Zero::zero', 'nalgebra::zero', 'num_traits::zero', 'identities::zero')
def _(ev, st, a, c):
    return t.ZERO


@model('One::one', 'nalgebra::one', 'num_traits::one', 'identities::one')
def _(ev, st, a, c):
    k = tcat(ev, c.retty)
    return t.ONE if k in ('num', 'int') else (t.ISO_ID if k == 'iso' else t.IDENT)


@model('Zero::is_zero')
def _(ev, st, a, c):
    k = tcat(ev, c.argtys[0])
    return (t.irel if k == 'int' else t.frel)(ev.pval(st, a[0]), t.ZERO, 'eq')


@model('Signed::abs', 'ComplexField::abs', 'f64::abs', 'f32::abs', 'nalgebra::abs', 'RealField::abs')
def _(ev, st, a, c):
    return absval(ev.pval(st, a[0]))


def absval(x):
    def f(x):
        d = t._pdict(x)
        if t._leadneg(d):
            x = t._pterm({m: -k for m, k in d.items()})
        if x.op == 'num':
            return t.num(abs(x.args[0]))
        return t.raw('abs', x)
    return t.lift('abs', f, x)


def sgn(x):
    return ite(t.frel(x, t.ZERO, 'gt'), t.ONE, ite(t.frel(x, t.ZERO, 'lt'), t.num(-1), t.fn('signum', x)))


import math
CONSTS = dict(pi=math.pi, two_pi=2 * math.pi, frac_pi_2=math.pi / 2, frac_pi_3=math.pi / 3, frac_pi_4=math.pi / 4, frac_pi_6=math.pi / 6,
              frac_pi_8=math.pi / 8, frac_1_pi=1 / math.pi, frac_2_pi=2 / math.pi, e=math.e, ln_2=math.log(2), ln_10=math.log(10))


@model(*['RealField::%s' % n for n in CONSTS])
def _(ev, st, a, c):
    return t.num(CONSTS[c.name.split('::')[1]])


UNARY = ('sqrt', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'asinh', 'acosh', 'atanh', 'floor', 'ceil', 'round', 'trunc', 'fract',
         'exp', 'exp2', 'exp_m1', 'ln', 'ln_1p', 'log2', 'log10', 'cbrt', 'sinc', 'sinhc', 'cosc', 'coshc', 'to_radians', 'to_degrees', 'is_finite',
         'is_infinite', 'is_sign_negative', 'is_sign_positive', 'log', 'powf', 'powc', 'hypot', 'atan2', 'copysign', 'rem_euclid', 'div_euclid', 'argument')


@model(*['%s::%s' % (k, n) for k in ('ComplexField', 'RealField', 'f64', 'f32', 'Float') for n in UNARY], 'AbsDiffEq::default_epsilon',
       'RelativeEq::default_max_relative')
def _(ev, st, a, c):
    n = c.name.split('::')[1]
    if n == 'sqrt':
        return t.root(ev.pval(st, a[0]))
    return t.fn(n, *[ev.pval(st, x) for x in a])


@model(*['%s::%s' % (k, n) for k in ('ComplexField', 'f64', 'f32') for n in ('sin_cos', 'sinh_cosh')])
def _(ev, st, a, c):
    p, q = c.name.split('::')[1].split('_')
    x = ev.pval(st, a[0])
    return Agg('(2)', ('0', '1'), (t.fn(p, x), t.fn(q, x)))


@model(*['%s::is_nan' % k for k in ('f64', 'f32', 'Float', 'ComplexField')])
def _(ev, st, a, c):
    return isnan(ev.pval(st, a[0]))


@model(*['%s::%s' % (k, n) for k in ('ComplexField', 'Signed', 'f64', 'f32') for n in ('signum', 'mul_add', 'recip', 'scale', 'unscale', 'modulus', 'norm1',
       'modulus_squared', 'conjugate', 'real', 'from_real', 'powi')])
def _(ev, st, a, c):
    n = c.name.split('::')[1]
    x = [ev.pval(st, y) for y in a]
    if n == 'signum':
        return sgn(x[0])
    if n == 'mul_add':
        return t.sadd(t.smul(x[0], x[1]), x[2])
    if n == 'recip':
        return t.sdiv(t.ONE, x[0])
    if n == 'scale':
        return t.smul(x[0], x[1])
    if n == 'unscale':
        return t.sdiv(x[0], x[1])
    if n in ('modulus', 'norm1'):
        return absval(x[0])
    if n == 'modulus_squared':
        return t.smul(x[0], x[0])
    if n == 'powi':
        if x[1].op == 'num' and 0 <= x[1].args[0] <= 8:
            r = t.ONE
            for _ in range(int(x[1].args[0])):
                r = t.smul(r, x[0])
            return r
        return t.fn('powi', *x)
    return x[0]


@model('RelativeEq::relative_eq', 'AbsDiffEq::abs_diff_eq')
def _(ev, st, a, c):
    return t.fn(c.name, *[ev.pval(st, x) for x in a])


@model('num::saturating_sub', 'usize::saturating_sub')
def _(ev, st, a, c):
    x, y = pack(a[0]), pack(a[1])
    return ite(t.irel(x, y, 'ge'), t.ssub(x, y), t.ZERO)


@model('num::wrapping_sub', 'num::wrapping_add', 'num::saturating_add', 'num::wrapping_mul')
def _(ev, st, a, c):
    x, y = pack(a[0]), pack(a[1])
    return {'sub': t.ssub, 'add': t.sadd, 'mul': t.smul}[c.name.split('_')[-1]](x, y)


@model('num::checked_sub')
def _(ev, st, a, c):
    x, y = pack(a[0]), pack(a[1])
    return ite(t.irel(x, y, 'ge'), t.some(t.ssub(x, y)), t.NONE)


@model('num::checked_add', 'num::checked_mul')
def _(ev, st, a, c):
    x, y = pack(a[0]), pack(a[1])
    return t.some((t.sadd if 'add' in c.name else t.smul)(x, y))


@model('num::abs_diff')
def _(ev, st, a, c):
    x, y = pack(a[0]), pack(a[1])
    return ite(t.irel(x, y, 'ge'), t.ssub(x, y), t.ssub(y, x))


@model('num::pow')
def _(ev, st, a, c):
    x, y = pack(a[0]), pack(a[1])
    if y.isT and y.op == 'num' and y.args[0] < 8:
        r = t.ONE
        for _ in range(int(y.args[0])):
            r = t.smul(r, x)
        return r
    return t.fn('pow', x, y)


@model('Not::not')
def _(ev, st, a, c):
    return NOT(ev.pval(st, a[0]))


@model('BitAnd::bitand', 'BitOr::bitor', 'BitXor::bitxor')
def _(ev, st, a, c):
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])
    if tcat(ev, c.argtys[0]) == 'bool':
        n = c.name.split('::')[1]
        if n == 'bitand':
            return AND(x, y)
        if n == 'bitor':
            return OR(x, y)
        return ite(t.as_cond(x), NOT(y), t.as_cond(y))
    return t.unknown(c.name, x, y)


def arith(op, k1, k2, x, y, ev=None, c=None):
    if k1 in ('num', 'int') and k2 in ('num', 'int'):
        return {'add': t.sadd, 'sub': t.ssub, 'mul': t.smul, 'div': t.sdiv}[op](x, y)
    vs = ('mat', 'tra', 'pt', 'quat')
    if op == 'add' and k1 in vs and k2 in vs:
        return t.nadd(x, y)
    if op == 'sub' and k1 in vs and k2 in vs:
        return t.nsub(x, y)
    if op == 'mul':
        if k1 == 'num' and k2 in vs:
            return t.nscale(x, y)
        if k2 == 'num' and k1 in vs:
            return t.nscale(y, x)
        if k1 == 'tra' and k2 == 'tra':
            return t.nadd(x, y)
        if k1 == 'tra' and k2 == 'pt':
            return t.nadd(x, y)
        if k1 == 'iso' and k2 == 'iso':
            return t.iso_mul(x, y)
        if k1 == 'iso' and k2 == 'tra':
            return t.iso_mul(x, t.mkiso(t.IDENT, y))
        if k1 == 'iso' and k2 == 'rot':
            return t.iso_mul(x, t.mkiso(y, t.ZERO))
        if k1 == 'tra' and k2 == 'iso':
            return t.iso_mul(t.mkiso(t.IDENT, x), y)
        if k1 == 'rot' and k2 == 'iso':
            return t.iso_mul(t.mkiso(x, t.ZERO), y)
        if k1 == 'tra' and k2 == 'rot':
            return t.mkiso(y, x)
        if k1 == 'rot' and k2 == 'tra':
            return t.mkiso(x, t.nmul(x, y))
        if k1 == 'iso' and k2 == 'pt':
            return t.nadd(t.nmul(t.iso_r(x), y), t.iso_t(x))
        if k1 == 'iso' and k2 == 'mat':
            return t.nmul(t.iso_r(x), y)
        if k1 == 'rot' and k2 in ('rot', 'mat', 'pt'):
            return t.nmul(x, y)
        if k1 in ('mat', 'quat') and k2 in ('mat', 'quat', 'rot', 'pt'):
            return matmul(x, y)
    if op == 'div':
        if k2 == 'num' and k1 in vs:
            return t.nscale(t.sdiv(t.ONE, y), x)
        if k1 == 'rot' and k2 == 'rot':
            return t.nmul(x, t.ninv(y))
        if k1 == 'iso' and k2 == 'iso':
            return t.iso_mul(x, t.iso_inv(y))
        if k1 == 'tra' and k2 == 'tra':
            return t.nsub(x, y)
    return t.unknown('arith_' + op, x, y)


def value_of_view(ev, st, x, ty):
    mv = mview(ev, st, x)
    if mv is None:
        return ev.pval(st, x)
    r, k = dims(ev, ty)
    return build_matrix(mview_read(ev, st, mv), int(mv.get('r').args[0]), int(mv.get('k').args[0]), r, k)


def arith_model(op, assign):
    def g(ev, st, a, c):
        k1, k2 = tcat(ev, c.argtys[0]), tcat(ev, c.argtys[1])
        if assign and mview(ev, st, a[0]) is not None:
            mv = mview(ev, st, a[0])
            old = mview_read(ev, st, mv)
            if op in ('mul', 'div') and k2 == 'num':
                k = ev.pval(st, a[1])
                new = [t.smul(x, k) if op == 'mul' else t.sdiv(x, k) for x in old]
            elif op in ('add', 'sub'):
                y = elements_of(ev, st, a[1], c.argtys[1], len(old))
                new = [t.sadd(x, z) if op == 'add' else t.ssub(x, z) for x, z in zip(old, y)]
            else:
                raise Undecided('operation on a view')
            mview_write(ev, st, mv, new)
            return t.UNIT
        x, y = [value_of_view(ev, st, q, ty) for q, ty in zip(a, c.argtys)]
        # crate operators
        if not assign:
            fn = None
            ty = deep(ev, c.argtys[0])
            if k1.startswith('adt:'):
                fn = find_impl(ev, 'core::ops::arith::' + c.name.split('::')[0], op, c.argtys[0], None)
            if fn is not None:
                return ev.call_body(st, fn, ev.F.body(fn), list(a))
        if k1 == 'mat' and k2 == 'mat':
            def bad(x, y):
                p, q = rows_cols(x), rows_cols(y)
                if not p or not q:
                    return FALSE
                if op == 'mul':
                    ok = p[1].op != 'num' or q[0].op != 'num' or p[1] is q[0]
                else:
                    ok = all(i.op != 'num' or j.op != 'num' or i is j for i, j in zip(p, q))
                return FALSE if ok else TRUE
            ev.panic_if(st, t.lift('dims', bad, x, y), 'dimensions of a matrix operation')
            if st.pc is FALSE:
                return BOT
        r = arith(op, k1, k2, x, y)
        if assign:
            ev.write_ref(st, a[0], r)
            return t.UNIT
        return r
    return g


for _op, _tr in (('add', 'Add'), ('sub', 'Sub'), ('mul', 'Mul'), ('div', 'Div')):
    M['%s::%s' % (_tr, _op)] = arith_model(_op, False)
    M['%sAssign::%s_assign' % (_tr, _op)] = arith_model(_op, True)


@model('Neg::neg')
def _(ev, st, a, c):
    x = ev.pval(st, a[0])
    k = tcat(ev, c.argtys[0])
    if k in ('num', 'int'):
        return t.sneg(x)
    return t.nneg(x)


# ------------------------------------------------------------------ panics
@model('panicking::panic', 'panicking::panic_fmt', 'panicking::begin_panic', 'panicking::assert_failed', 'panicking::panic_explicit',
       'rt::begin_panic', 'rt::panic_fmt', 'option::unwrap_failed', 'result::unwrap_failed', 'panicking::panic_display', 'panicking::unreachable_display',
       'process::abort', 'panicking::panic_str_2015', 'panicking::panic_nounwind', 'process::exit', 'panicking::assert_failed_inner',
       'panicking::panic_bounds_check', 'option::expect_failed')
def _(ev, st, a, c):
    ev.panic_if(st, TRUE, 'panic')
    return BOT


@model('log::max_level', 'log::log', '__private_api::log', '__private_api::loc', '__private_api::enabled', 'thread::sleep', 'stdio::_print', 'stdio::_eprint', 'io::_print')
def _(ev, st, a, c):
    return t.fn('logging')


# ------------------------------------------------------------------ nalgebra
def rows_cols(v):
    """concrete dimensions of a matrix term, (r, c) of terms or None"""
    o = v.op
    if o == 'dmat':
        return v.args[0], v.args[1]
    if o == 'cat' and all(k == 'e' for k in v.args[0]):
        return t.num(len(v.args) - 1), t.ONE
    if o == 'cat':
        return t.length(v), t.ONE
    if o in ('pinv', 'inv'):
        r = rows_cols(v.args[0])
        return (r[1], r[0]) if r else None
    if o == 'dident':
        return v.args[0], v.args[1]
    if o == 'nc':
        for w, cf in v.args[0]:
            if not w:
                continue
            a, b = rows_cols(w[0]), rows_cols(w[-1])
            if a and b:
                return a[0], b[1]
        return None
    if o == 'rem_row':
        r = rows_cols(v.args[0])
        return (t.ssub(r[0], t.ONE), r[1]) if r else None
    if o == 'rem_col':
        r = rows_cols(v.args[0])
        return (r[0], t.ssub(r[1], t.ONE)) if r else None
    if o == 'ins_row':
        r = rows_cols(v.args[0])
        return (t.sadd(r[0], t.ONE), r[1]) if r else None
    if o == 'apply':
        # a user function returns a vector as long as its argument (documented protocol)
        return t.length(v.args[1]), t.ONE
    if o == 'upd':
        return rows_cols(v.args[0])
    if o == 'vec':
        return t.num(len(v.args)), t.ONE
    if o == 'slice':
        return t.ssub(v.args[2], v.args[1]), t.ONE
    return None


def _len_mat(v):
    r = rows_cols(v)
    if r and r[1] is t.ONE:
        return r[0]
    return None


t.LEN_HOOK = _len_mat


def mat_nelem(ev, v, ty):
    r, k = dims(ev, ty)
    if r and k:
        return t.num(r * k)

    def f(v):
        x = rows_cols(v)
        return t.smul(x[0], x[1]) if x else t.raw('nelem', v)
    return t.lift('nelem', f, v)


@model('Matrix::nrows', 'Matrix::ncols', 'Matrix::shape')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    r, k = dims(ev, c.argtys[0])

    def f(i, fix):
        if fix:
            return t.num(fix)

        def g(v):
            x = rows_cols(v)
            return x[i] if x else t.raw('nrows' if i == 0 else 'ncols', v)
        return t.lift(('dim', i), g, v)
    if c.name.endswith('nrows'):
        return f(0, r)
    if c.name.endswith('ncols'):
        return f(1, k)
    return Agg('(2)', ('0', '1'), (f(0, r), f(1, k)))


def dmat(r, c, elems):
    """column major explicit matrix"""
    if c == 1:
        return mkseq(elems)
    return t.lift(('dmat', r, c), lambda *x: t.raw('dmat', t.num(r), t.num(c), *x), *elems)


def mat_elems(v):
    """(r, c, elements column major) of an explicit matrix leaf"""
    if v.op == 'dmat':
        return int(v.args[0].args[0]), int(v.args[1].args[0]), list(v.args[2:])
    if v.op == 'cat':
        xs = concrete_elems(v)
        if xs is not None:
            return len(xs), 1, xs
    return None


def inum(x):
    return x.isT and x.op == 'num'


@model('construction::from_fn')
def _(ev, st, a, c):
    r, k = dims(ev, c.retty)
    args = list(a)
    f = closure_arg(ev, st, args.pop())
    nd = [pack(x) for x in args]
    if r is None:
        r = nd.pop(0)
    else:
        r = t.num(r)
    if k is None:
        k = nd.pop(0)
    else:
        k = t.num(k)
    if not (inum(r) and inum(k)):
        # dimensions decided by conditions: split on them
        return split_on(ev, st, [r, k], lambda s, rk: from_fn_c(ev, s, rk[0], rk[1], f, c))
    return from_fn_c(ev, st, r, k, f, c)


def split_on(ev, st, vals, f):
    top = None
    for v in vals:
        if not v.isT and (top is None or v.var.order < top.order):
            top = v.var
    if top is None:
        if any(v is BOT for v in vals):
            return BOT
        return f(st, vals)
    states = []
    key = ('T', newid())
    for i, d in enumerate(top.dom):
        s = st.copy()
        s.pc = AND(st.pc, t.node_bool(top, d))
        if s.pc is FALSE:
            continue
        s.env[key] = split_on(ev, s, [t.cofactor(v, top, i) for v in vals], f)
        states.append(s)
    m = merge(states)
    if m is None:
        st.pc = FALSE
        return BOT
    st.become(m)
    return st.env.pop(key)


def from_fn_c(ev, st, r, k, f, c):
    if not (inum(r) and inum(k)):
        return t.unknown('from_fn', r, k)
    R, K = int(r.args[0]), int(k.args[0])
    elems = []
    for j in range(K):
        for i in range(R):
            elems.append(pack(ev.call_value(st, f, [t.num(i), t.num(j)])))
            if st.pc is FALSE:
                return BOT
    dr, dk = dims(ev, c.retty)
    if dk == 1 and dr:
        return t.vec(*elems)
    return dmat(R, K, elems)


@model('construction::zeros', 'construction::from_element', 'construction::repeat')
def _(ev, st, a, c):
    r, k = dims(ev, c.retty)
    args = [pack(x) for x in a]
    v = args.pop() if not c.name.endswith('zeros') else t.ZERO
    if r and k:
        if v is t.ZERO:
            return t.ZERO if k == 1 else t.raw('dmat', t.num(r), t.num(k), *([t.ZERO] * (r * k)))
        if k == 1:
            return t.vec(*([v] * r))
        return dmat(r, k, [v] * (r * k))
    rr = t.num(r) if r else args.pop(0)
    kk = t.num(k) if k else args.pop(0)

    def f(x, y, v):
        if x.op == 'num' and y.op == 'num':
            n = int(x.args[0]) * int(y.args[0])
            return mkseq([v] * n) if y is t.ONE else t.raw('dmat', x, y, *([v] * n))
        return t.raw('dfill', x, y, v)
    return t.lift('dfill', f, rr, kk, v)


@model('construction::identity')
def _(ev, st, a, c):
    r, k = dims(ev, c.retty)
    args = [pack(x) for x in a]
    if not args:
        if tcat(ev, c.retty) == 'iso':
            return t.ISO_ID
        return t.IDENT
    return t.lift('dident', lambda x, y: t.raw('dident', x, y), args[0], args[1] if len(args) > 1 else args[0])


@model('construction::from_vec', 'construction::from_row_slice', 'construction::from_column_slice', 'construction::from_slice', 'construction::from_iterator',
       'construction::from_vec_storage')
def _(ev, st, a, c):
    r, k = dims(ev, c.retty)
    src = a[-1]
    if c.name.endswith('from_iterator'):
        v = materialise(ev, st, as_iter(ev, st, src, c.argtys[-1]))
    else:
        v = ev.pval(st, src)
    if k == 1:
        if r:
            return seq_to_vec(v, r)
        return v
    args = [pack(x) for x in a[:-1]]
    rr = t.num(r) if r else args.pop(0)
    kk = t.num(k) if k else args.pop(0)

    def f(x, y, v):
        xs = concrete_elems(v)
        if x.op == 'num' and y.op == 'num' and xs is not None:
            R, K = int(x.args[0]), int(y.args[0])
            if len(xs) >= R * K:
                if 'row' in c.name:
                    xs = [xs[i * K + j] for j in range(K) for i in range(R)]
                return t.raw('dmat', x, y, *xs) if K != 1 else mkseq(xs[:R])
        return t.raw('unk', 'from_vec', x, y, v)
    return t.lift(c.name, f, rr, kk, v)


@model('construction::from_columns', 'construction::from_rows')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])

    def f(v):
        xs = concrete_elems(v)
        if xs is None or not xs:
            return t.raw('unk', 'from_columns', v)
        cols = []
        for x in xs:
            if x is t.ZERO:
                return t.raw('unk', 'from_columns', v)
            if x.op == 'vec':
                cols.append(list(x.args))
            else:
                e = mat_elems(x)
                if e is None:
                    return t.raw('unk', 'from_columns', v)
                cols.append(e[2])
        if 'rows' in c.name:
            cols = [list(x) for x in zip(*cols)]
        return t.raw('dmat', t.num(len(cols[0])), t.num(len(cols)), *[e for col in cols for e in col])
    return t.lift(c.name, f, v)


@model('construction::new', 'construction::x_axis', 'construction::y_axis', 'construction::z_axis', 'construction::x', 'construction::y', 'construction::z')
def _(ev, st, a, c):
    n = c.name.split('::')[1]
    if n != 'new':
        i = 'xyz'.index(n[0])
        return t.vec(*[t.ONE if j == i else t.ZERO for j in range(3)])
    r, k = dims(ev, c.retty)
    xs = [pack(x) for x in a]
    if r and k == 1:
        return t.vec(*xs)
    if r and k:
        return dmat(r, k, [xs[i * k + j] for j in range(k) for i in range(r)])
    return t.unknown('matnew', *xs)


def mat_index(ev, st, ref, ix, c, mut):
    mv = mview(ev, st, ref)
    if mv is not None:
        if isinstance(ix, Agg) or (ix.isT and ix.op == 'S'):
            i, j = pack(getfield(ix, '0', '(2)')), pack(getfield(ix, '1', '(2)'))
            ix = t.sadd(i, t.smul(mv.get('r'), j))
        ix = pack(ix)
        if not inum(ix):
            raise Undecided('element of a view')
        idx = mview_idx(mv)
        if not 0 <= int(ix.args[0]) < len(idx):
            ev.panic_if(st, TRUE, 'matrix index')
            return BOT
        if mut:
            return mview_place(mv, idx[int(ix.args[0])])
        return mview_read(ev, st, mv)[int(ix.args[0])]
    v = ev.pval(st, ref)
    r, k = dims(ev, c.argtys[0])
    if isinstance(ix, Agg) or (not isinstance(ix, Agg) and ix.isT and ix.op == 'S'):
        i, j = pack(getfield(ix, '0', '(2)')), pack(getfield(ix, '1', '(2)'))
        if k == 1:
            i2 = i
        else:
            def lin(v, i, j):
                e = rows_cols(v)
                if r:
                    return t.sadd(i, t.smul(t.num(r), j))
                if e is None:
                    return t.raw('unk', 'linidx', v, i, j)
                return t.sadd(i, t.smul(e[0], j))
            i2 = t.lift(('lin', r), lin, v, i, j)
    else:
        i2 = pack(ix)
    if r and k:
        ev.panic_if(st, NOT(t.irel(i2, t.num(r * k), 'lt')), 'matrix index')
    elif k == 1:
        ev.panic_if(st, NOT(t.irel(i2, t.length(v), 'lt')), 'matrix index')
    if mut:
        if r and k == 1:
            return t.lift(('pc', r), lambda rr, i: t.raw('pc', rr, i, r), ref, i2)
        return t.lift('pi', lambda rr, i: t.raw('pi', rr, i), ref, i2)
    if r and k == 1:
        return t.comp(v, i2)

    def f(v, i):
        if v.op == 'dmat' and i.op == 'num':
            return v.args[2 + int(i.args[0])] if int(i.args[0]) + 2 < len(v.args) else BOT
        return t.index(v, i)
    return t.lift('matelem', f, v, i2)


@model('Matrix::get', 'Matrix::get_unchecked')
def _(ev, st, a, c):
    raise Undecided('Matrix::get')


@model('Matrix::as_slice', 'Matrix::as_mut_slice', 'Matrix::data')
def _(ev, st, a, c):
    r, k = dims(ev, c.argtys[0])
    v = ev.pval(st, a[0])
    if c.name.endswith('as_mut_slice'):
        return a[0]
    if r and k == 1:
        return mkseq([t.comp(v, t.num(i)) for i in range(r)])
    return t.lift('as_slice', lambda x: mkseq(x.args[2:]) if x.op == 'dmat' else x, v)


@model('Matrix::clone_owned', 'Matrix::into_owned', 'Matrix::as_view', 'Matrix::clone', 'Unit::clone', 'Matrix::as_ref')
def _(ev, st, a, c):
    return ev.val(st, a[0])


@model('Matrix::transpose')
def _(ev, st, a, c):
    def f(v):
        e = mat_elems(v)
        if e is None:
            return v.args[0] if v.op == 'transpose' else t.raw('transpose', v)
        r, k, xs = e
        out = [xs[j * r + i] for i in range(r) for j in range(k)]
        return t.raw('dmat', t.num(k), t.num(r), *out) if r != 1 else mkseq(out)
    return t.lift('transpose', f, ev.pval(st, a[0]))


@model('edition::remove_row')
def _(ev, st, a, c):
    def f(v, i):
        e = mat_elems(v)
        if e is not None and i.op == 'num':
            r, k, xs = e
            q = int(i.args[0])
            if not 0 <= q < r:
                return BOT
            out = [xs[j * r + p] for j in range(k) for p in range(r) if p != q]
            return t.raw('dmat', t.num(r - 1), t.num(k), *out) if k != 1 else mkseq(out)
        return t.raw('rem_row', v, i)
    v, i = pack(ev.val(st, a[0])), pack(a[1])
    mat_bound(ev, st, v, i, 0, c)
    return t.lift('rem_row', f, v, i)


def mat_bound(ev, st, v, i, dim, c, incl=False):
    def g(v):
        x = rows_cols(v)
        return x[dim] if x else t.raw('nrows' if dim == 0 else 'ncols', v)
    n = t.lift(('dim', dim), g, v)
    ev.panic_if(st, NOT(t.irel(i, n, 'le' if incl else 'lt')), c.name)


@model('edition::remove_column')
def _(ev, st, a, c):
    def f(v, i):
        e = mat_elems(v)
        if e is not None and i.op == 'num':
            r, k, xs = e
            q = int(i.args[0])
            if not 0 <= q < k:
                return BOT
            out = [xs[j * r + p] for j in range(k) if j != q for p in range(r)]
            return t.raw('dmat', t.num(r), t.num(k - 1), *out) if k != 2 else mkseq(out)
        return t.raw('rem_col', v, i)
    v, i = pack(ev.val(st, a[0])), pack(a[1])
    mat_bound(ev, st, v, i, 1, c)
    return t.lift('rem_col', f, v, i)


@model('edition::insert_row')
def _(ev, st, a, c):
    def f(v, i, x):
        xs = concrete_elems(v)
        if xs is not None and i.op == 'num':
            q = int(i.args[0])
            if not 0 <= q <= len(xs):
                return BOT
            return mkseq(xs[:q] + [x] + xs[q:])
        rc = rows_cols(v)
        if rc and rc[0].op == 'num' and rc[1] is t.ONE and i.op == 'num':
            n = int(rc[0].args[0])
            q = int(i.args[0])
            es = [t.index(v, t.num(j)) for j in range(n)]
            if all(e.isT for e in es) and 0 <= q <= n:
                return mkseq(es[:q] + [x] + es[q:])
        return t.raw('ins_row', v, i, x)
    v, i = pack(ev.val(st, a[0])), pack(a[1])
    mat_bound(ev, st, v, i, 0, c, True)
    return t.lift('ins_row', f, v, i, pack(a[2]))


@model('edition::remove_rows_at', 'edition::remove_columns_at', 'edition::select_rows', 'edition::select_columns')
def _(ev, st, a, c):
    it = a[1]
    sel = 'select' in c.name
    if sel:
        idx = materialise(ev, st, as_iter(ev, st, it, c.argtys[1]))
    else:
        idx = ev.pval(st, it)
    rows = 'rows' in c.name

    def f(v, idx):
        e = mat_elems(v)
        ix = concrete_elems(idx)
        if e is None or ix is None or not all(x.op == 'num' for x in ix):
            return t.raw('unk', c.name, v, idx)
        r, k, xs = e
        ii = [int(x.args[0]) for x in ix]
        if rows:
            keep = ii if sel else [p for p in range(r) if p not in ii]
            out = [xs[j * r + p] for j in range(k) for p in keep]
            return t.raw('dmat', t.num(len(keep)), t.num(k), *out) if k != 1 else mkseq(out)
        keep = ii if sel else [p for p in range(k) if p not in ii]
        out = [xs[j * r + p] for j in keep for p in range(r)]
        return t.raw('dmat', t.num(r), t.num(len(keep)), *out) if len(keep) != 1 else mkseq(out)
    return t.lift(c.name, f, pack(ev.val(st, a[0])), idx)


@model('svd::pseudo_inverse')
def _(ev, st, a, c):
    v = t.lift('pinv', lambda m, e: t.raw('pinv', m, e), ev.pval(st, a[0]), pack(a[1]))
    return t.ok(v)


@model('decomposition::svd', 'SVD::new')
def _(ev, st, a, c):
    return t.lift('svd', lambda m, u, v: t.raw('svd', m, u, v), ev.pval(st, a[0]), *[as_leaf(x) for x in a[1:3]])


def as_leaf(x):
    return pack(x)


@model('SVD::solve')
def _(ev, st, a, c):
    def f(s, b, e):
        if s.op == 'svd' and s.args[1] is TRUE and s.args[2] is TRUE:
            return t.ok(t._nmul(t.raw('pinv', s.args[0], e), b))
        if s.op == 'svd':
            return t.err(t.raw('str', 'svd without u and v'))
        return t.raw('unk', 'svdsolve', s, b, e)
    return t.lift('svdsolve', f, ev.pval(st, a[0]), ev.pval(st, a[1]), pack(a[2]))


@model('SVD::pseudo_inverse')
def _(ev, st, a, c):
    def f(s, e):
        if s.op == 'svd' and s.args[1] is TRUE and s.args[2] is TRUE:
            return t.ok(t.raw('pinv', s.args[0], e))
        return t.raw('unk', 'svdpinv', s, e)
    return t.lift('svdpinv', f, ev.pval(st, a[0]), pack(a[1]))


@model('decomposition::lu', 'LU::new', 'decomposition::full_piv_lu')
def _(ev, st, a, c):
    n = 'lu' if 'full' not in c.name else 'fplu'
    return t.lift(n, lambda m: t.raw(n, m), ev.pval(st, a[0]))


@model('LU::solve', 'FullPivLU::solve')
def _(ev, st, a, c):
    def f(s, b):
        if s.op == 'lu':
            m = s.args[0]
            x = t._nmul(t.raw('inv', m), b)
            return ite(t.node_bool(t.getvar(t.raw('bool', t.raw('invertible', m)), (True, False)), True), t.some(x), t.NONE)
        return t.raw('unk', 'lusolve', s, b)
    return t.lift('lusolve', f, ev.pval(st, a[0]), ev.pval(st, a[1]))


@model('inverse::try_inverse')
def _(ev, st, a, c):
    def f(m):
        return ite(t.node_bool(t.getvar(t.raw('bool', t.raw('invertible', m)), (True, False)), True), t.some(t.raw('inv', m)), t.NONE)
    return t.lift('try_inverse', f, pack(ev.val(st, a[0])))


def matmul(x, y):
    def f(x, y):
        return t._nmul(x, y)
    return t.lift('nmul', f, x, y)


@model('Matrix::scale', 'Matrix::unscale')
def _(ev, st, a, c):
    k = pack(a[1])
    if c.name.endswith('unscale'):
        k = t.sdiv(t.ONE, k)
    return scaled(ev.pval(st, a[0]), k)


def scaled(v, k):
    def f(v, k):
        if v.op == 'dmat':
            return t.raw('dmat', v.args[0], v.args[1], *[t._smul(k, x) for x in v.args[2:]])
        return t._nscale(k, v)
    return t.lift('mscaled', f, v, k)


@model('Matrix::scale_mut', 'Matrix::unscale_mut')
def _(ev, st, a, c):
    k = pack(a[1])
    if c.name.startswith('Matrix::un'):
        k = t.sdiv(t.ONE, k)
    ev.write_ref(st, a[0], scaled(ev.pval(st, a[0]), k))
    return t.UNIT


@model('blas::axpy')
def _(ev, st, a, c):
    x, y = ev.pval(st, a[2]), ev.pval(st, a[0])
    r = t.nadd(scaled(x, pack(a[1])), scaled(y, pack(a[3])))
    ev.write_ref(st, a[0], r)
    return t.UNIT


# ---- views of parts of a matrix
def view_model(kind, fixed, mut):
    def g(ev, st, a, c):
        br, bk = dims(ev, c.argtys[0])
        base = ev.val(st, a[0])
        rr, rk = dims(ev, c.retty)
        if isinstance(base, Agg):
            raise Undecided('view of a view')
        base = pack(base)

        def dim(i, known):
            if known:
                return t.num(known)

            def f(v):
                x = rows_cols(v)
                return x[i] if x else t.raw('unk', 'dims', v)
            return t.lift(('viewdim', i), f, base)
        R, K = dim(0, br), dim(1, bk)
        xs = []
        for x in a[1:]:
            if isinstance(x, Agg):
                xs.extend(pack(v) for v in x.vals)
            else:
                p = pack(x)
                if p.isT and p.op == 'S':
                    xs.extend(p.args[2:])
                else:
                    xs.append(p)

        def go(s, vs):
            if not all(inum(v) for v in vs):
                raise Undecided('view with unknown bounds')
            R, K, *xs = [int(v.args[0]) for v in vs]
            r0, k0, nr, nk = 0, 0, R, K
            if kind == 'rows':
                r0, nr = xs[0], (rr if fixed else xs[1])
            elif kind == 'columns':
                k0, nk = xs[0], (rk if fixed else xs[1])
            elif kind == 'row':
                r0, nr = xs[0], 1
            elif kind == 'column':
                k0, nk = xs[0], 1
            elif fixed:
                r0, k0, nr, nk = xs[0], xs[1], rr, rk
            else:
                r0, k0, nr, nk = xs
            if r0 + nr > R or k0 + nk > K:
                ev.panic_if(s, TRUE, 'part of a matrix out of its bounds')
                return BOT
            idx = [(j * R + i) for j in range(k0, k0 + nk) for i in range(r0, r0 + nr)]
            if mut:
                return Agg('MView', ('ref', 'idx', 'r', 'k', 'comp'),
                           [a[0], mkseq([t.num(i) for i in idx]), t.num(nr), t.num(nk), t.num(br if br and bk == 1 else 0)])
            return build_matrix(read_part(base, idx, br if br and bk == 1 else 0), nr, nk, rr, rk)
        if all(inum(v) for v in [R, K] + xs):
            return go(st, [R, K] + xs)
        return split_on(ev, st, [R, K] + xs, go)
    return g


def read_part(base, idx, comp):
    if comp:
        return [t.comp(base, t.num(i)) for i in idx]

    def f(i):
        return lambda v: (v.args[2 + i] if v.op == 'dmat' else t.index(v, t.num(i)))
    return [t.lift(('part', i), f(i), base) for i in idx]


def build_matrix(xs, nr, nk, rr, rk):
    """rr, rk: static dimensions or None"""
    if rr and rk == 1:
        return t.vec(*xs)
    if nk == 1 and rk == 1:
        return mkseq(xs)
    return t.lift(('dmatx', nr, nk), lambda *x: t.raw('dmat', t.num(nr), t.num(nk), *x), *xs)


for _k in ('row', 'column', 'rows', 'columns', 'slice'):
    for _m in (False, True):
        M['matrix_slice::%s%s' % (_k, '_mut' if _m else '')] = view_model(_k, False, _m)
        if _k in ('rows', 'columns', 'slice'):
            M['matrix_slice::fixed_%s%s' % (_k, '_mut' if _m else '')] = view_model(_k, True, _m)


def mview(ev, st, x):
    v = x if isinstance(x, Agg) else ev.val(st, x)
    return v if isinstance(v, Agg) and v.name == 'MView' else None


def mview_idx(mv):
    return [int(x.args[0]) for x in concrete_elems(pack(mv.get('idx')))]


def mview_place(mv, i):
    n = int(mv.get('comp').args[0])
    if n:
        return t.lift(('pc', n), lambda rr, i: t.raw('pc', rr, i, n), mv.get('ref'), t.num(i))
    return t.lift('pi', lambda rr, i: t.raw('pi', rr, i), mv.get('ref'), t.num(i))


def mview_read(ev, st, mv):
    base = ev.pval(st, mv.get('ref'))
    return read_part(base, mview_idx(mv), int(mv.get('comp').args[0]))


def mview_write(ev, st, mv, xs):
    for i, x in zip(mview_idx(mv), xs):
        ev.write_ref(st, mview_place(mv, i), x)


def elements_of(ev, st, x, ty, n):
    """the n elements, column major, of a matrix value"""
    mv = mview(ev, st, x)
    if mv is not None:
        return mview_read(ev, st, mv)
    v = ev.pval(st, x)
    r, k = dims(ev, ty)
    if r and k == 1:
        return [t.comp(v, t.num(i)) for i in range(n)]
    return read_part(v, range(n), 0)


@model('Matrix::copy_from', 'Matrix::tr_copy_from', 'Matrix::copy_from_slice', 'edition::fill', 'Matrix::fill')
def _(ev, st, a, c):
    mv = mview(ev, st, a[0])
    fill = c.name.endswith('fill')
    if 'tr_' in c.name:
        raise Undecided(c.name)
    if mv is not None:
        n = len(mview_idx(mv))
        xs = [pack(a[1])] * n if fill else elements_of(ev, st, a[1], c.argtys[1], n)
        mview_write(ev, st, mv, xs)
        return t.UNIT
    r, k = dims(ev, c.argtys[0])
    old = ev.pval(st, a[0])

    def go(s, nk):
        if not all(inum(x) for x in nk):
            raise Undecided(c.name)
        nr, nc = int(nk[0].args[0]), int(nk[1].args[0])
        xs = [pack(a[1])] * (nr * nc) if fill else elements_of(ev, s, a[1], c.argtys[1], nr * nc)
        ev.write_ref(s, a[0], build_matrix(xs, nr, nc, r, k))
        return t.UNIT

    def dim(i, known):
        return t.num(known) if known else t.lift(('viewdim', i), lambda v: (rows_cols(v) or (t.raw('unk', 'dims', v),) * 2)[i], old)
    return split_on(ev, st, [dim(0, r), dim(1, k)], go)


@model('edition::set_column', 'edition::set_row')
def _(ev, st, a, c):
    col = c.name.endswith('column')
    r, k = dims(ev, c.argtys[0])
    old = ev.pval(st, a[0])
    if mview(ev, st, a[0]) is not None:
        raise Undecided(c.name + ' of a view')

    def dim(i, known):
        return t.num(known) if known else t.lift(('viewdim', i), lambda v: (rows_cols(v) or (t.raw('unk', 'dims', v),) * 2)[i], old)

    def go(s, vs):
        if not all(inum(x) for x in vs):
            raise Undecided(c.name)
        R, K, i = [int(v.args[0]) for v in vs]
        if i >= (K if col else R):
            ev.panic_if(s, TRUE, 'part of a matrix out of its bounds')
            return BOT
        idx = [i * R + p for p in range(R)] if col else [p * R + i for p in range(K)]
        xs = elements_of(ev, s, a[2], c.argtys[2], len(idx))
        mv = Agg('MView', ('ref', 'idx', 'r', 'k', 'comp'), [a[0], mkseq([t.num(j) for j in idx]), t.num(R), t.num(K), t.num(r if r and k == 1 else 0)])
        mview_write(ev, s, mv, xs)
        return t.UNIT
    return split_on(ev, st, [dim(0, r), dim(1, k), pack(a[1])], go)


@model('Matrix::cross')
def _(ev, st, a, c):
    return t.cross(ev.pval(st, a[0]), ev.pval(st, a[1]))


@model('blas::dot', 'Matrix::dot')
def _(ev, st, a, c):
    r, k = dims(ev, c.argtys[0])
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])
    if x is y:
        return square(t.norm(x))
    if r and k == 1:
        s = t.ZERO
        for i in range(r):
            s = t.sadd(s, t.smul(t.comp(x, t.num(i)), t.comp(y, t.num(i))))
        return s
    return t.fn('dot', x, y)


@model('norm::norm', 'norm::magnitude')
def _(ev, st, a, c):
    return t.norm(ev.pval(st, a[0]))


@model('min_max::amax', 'min_max::camax', 'min_max::amin', 'min_max::camin', 'Matrix::amax', 'Matrix::camax', 'Matrix::amin', 'Matrix::camin')
def _(ev, st, a, c):
    v = ev.pval(st, a[0])
    n = c.name.split('::')[1].replace('cam', 'am')
    return t.fn(n, v)


@model('norm::norm_squared', 'norm::magnitude_squared')
def _(ev, st, a, c):
    return square(t.norm(ev.pval(st, a[0])))


def square(n):
    return t.lift('square', lambda n: n.args[0] if n.op == 'root' else t._smul(n, n), n)


@model('ops::component_mul', 'componentwise::component_mul', 'cg::component_mul')
def _(ev, st, a, c):
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])

    def f(x, y):
        p, q = concrete_elems(x), concrete_elems(y)
        if p is not None and q is not None and len(p) == len(q):
            return mkseq([t._smul(u, v) for u, v in zip(p, q)])
        return t.raw('unk', 'component_mul', x, y)
    return t.lift('component_mul', f, x, y)


@model('Unit::new_normalize', 'norm::normalize', 'Unit::new_and_get_')
def _(ev, st, a, c):
    def f(v):
        d = t._ncdict(v)
        if v.op == 'vec' and sum(1 for x in v.args if x is t.ONE) == 1 and sum(1 for x in v.args if x is t.ZERO) == len(v.args) - 1:
            return v
        if v.op == 'normalize':
            return v
        return t.raw('normalize', v)
    return t.lift('normalize', f, ev.pval(st, a[0]))


@model('Isometry::from_parts')
def _(ev, st, a, c):
    return t.mkiso(pack(a[1]), pack(a[0]))


@model('isometry_construction::identity', 'Isometry::identity')
def _(ev, st, a, c):
    return t.ISO_ID


@model('isometry_construction::new', 'Isometry::new')
def _(ev, st, a, c):
    return t.mkiso(t.rexp(pack(a[1])), pack(a[0]))


@model('isometry_construction::translation')
def _(ev, st, a, c):
    return t.mkiso(t.IDENT, t.vec(*[pack(x) for x in a]))


@model('isometry_construction::rotation')
def _(ev, st, a, c):
    return t.mkiso(t.rexp(pack(a[0])), t.ZERO)


@model('Isometry::inverse')
def _(ev, st, a, c):
    return t.iso_inv(ev.pval(st, a[0]))


@model('Isometry::inv_mul')
def _(ev, st, a, c):
    return t.iso_mul(t.iso_inv(ev.pval(st, a[0])), ev.pval(st, a[1]))


@model('Isometry::transform_vector')
def _(ev, st, a, c):
    return t.nmul(t.iso_r(ev.pval(st, a[0])), ev.pval(st, a[1]))


@model('Isometry::transform_point')
def _(ev, st, a, c):
    x = ev.pval(st, a[0])
    return t.nadd(t.nmul(t.iso_r(x), ev.pval(st, a[1])), t.iso_t(x))


@model('Isometry::inverse_transform_vector')
def _(ev, st, a, c):
    return t.nmul(t.ninv(t.iso_r(ev.pval(st, a[0]))), ev.pval(st, a[1]))


@model('Isometry::append_translation_mut', 'Isometry::append_rotation_mut')
def _(ev, st, a, c):
    x = ev.pval(st, a[0])
    y = ev.pval(st, a[1])
    i = t.mkiso(t.IDENT, y) if 'translation' in c.name else t.mkiso(y, t.ZERO)
    ev.write_ref(st, a[0], t.iso_mul(i, x))


@model('Isometry::append_rotation_wrt_center_mut')
def _(ev, st, a, c):
    x = ev.pval(st, a[0])
    ev.write_ref(st, a[0], t.mkiso(t.nmul(ev.pval(st, a[1]), t.iso_r(x)), t.iso_t(x)))


@model('Unit::renormalize', 'Unit::renormalize_fast')
def _(ev, st, a, c):
    # a unit has the norm one in exact arithmetic
    return t.UNIT if c.name.endswith('fast') else t.ONE


@model('Matrix::map', 'Matrix::apply', 'Matrix::apply_into', 'Matrix::zip_map', 'Matrix::zip_apply')
def _(ev, st, a, c):
    n = c.name.split('::')[1]
    r, k = dims(ev, c.argtys[0])
    x = ev.pval(st, a[0])
    if not r or k != 1:
        xs = concrete_elems(x) if x.isT else None
        if xs is None or k not in (1, None):
            raise Undecided(c.name)
        r = None
    at = lambda v, i: t.comp(v, t.num(i)) if r else t.index(v, t.num(i))
    f = closure_arg(ev, st, a[-1])
    y = ev.pval(st, a[1]) if n.startswith('zip') else None
    out = [pack(ev.call_value(st, f, [at(x, i)] + ([at(y, i)] if y is not None else []))) for i in range(r or len(xs))]
    v = t.vec(*out) if r else mkseq(out)
    if n in ('apply', 'zip_apply'):
        ev.write_ref(st, a[0], v)
        return t.UNIT
    return v


@model('translation_construction::new', 'Translation::new', 'point_construction::new', 'OPoint::new')
def _(ev, st, a, c):
    return t.vec(*[pack(x) for x in a])


@model('translation_construction::identity', 'Translation::identity', 'OPoint::origin', 'point_construction::origin')
def _(ev, st, a, c):
    return t.ZERO


@model('Translation::inverse')
def _(ev, st, a, c):
    return t.nneg(ev.pval(st, a[0]))


@model('Translation::transform_point', 'OPoint::from')
def _(ev, st, a, c):
    return t.nadd(ev.pval(st, a[0]), ev.pval(st, a[1])) if len(a) > 1 else ev.val(st, a[0])


@model('quaternion_construction::identity', 'rotation_construction::identity', 'UnitQuaternion::identity')
def _(ev, st, a, c):
    return t.IDENT


@model('quaternion_construction::from_axis_angle', 'rotation_specialization::from_axis_angle', 'rotation_construction::from_axis_angle')
def _(ev, st, a, c):
    return t.rexp(t.nscale(turns(pack(a[1])), ev.pval(st, a[0])))


TURN = 2 * Fraction(math.pi)


def turns(x):
    """an angle without whole turns: k*2*pi for whole numbers k, and the remainder of a division by turns"""
    def f(x):
        p = {}
        for m, c in t._pdict(x).items():
            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].op == 'rem' and m[0][0].args[1].op == 'num' and (m[0][0].args[1].args[0] / TURN).denominator == 1:
                for n, d in t._pdict(m[0][0].args[0]).items():
                    p[n] = p.get(n, 0) + d
            elif m and (c / TURN).denominator == 1 and all(a.op in ('floor', 'ceil', 'round', 'trunc') for a, _ in m):
                continue
            else:
                p[m] = p.get(m, 0) + c
        return t._pterm({m: c for m, c in p.items() if c != 0})
    return t.lift('turns', f, x)


@model('Rem::rem')
def _(ev, st, a, c):
    if tcat(ev, c.argtys[0]) != 'num':
        raise Undecided(c.name)
    return t.fn('rem', ev.pval(st, a[0]), ev.pval(st, a[1]))


@model('quaternion_construction::from_scaled_axis', 'quaternion_construction::new', 'rotation_specialization::new', 'rotation_specialization::from_scaled_axis')
def _(ev, st, a, c):
    return t.rexp(ev.pval(st, a[0]))


@model('quaternion_construction::from_euler_angles', 'rotation_specialization::from_euler_angles')
def _(ev, st, a, c):
    return t.fn('rpy', *[pack(x) for x in a])


@model('quaternion_construction::from_rotation_matrix', 'quaternion::to_rotation_matrix', 'rotation_conversion::from', 'quaternion::into_inner')
def _(ev, st, a, c):
    return ev.val(st, a[0])


@model('quaternion::inverse', 'quaternion::conjugate', 'Rotation::inverse', 'rotation::inverse', 'Rotation::transpose')
def _(ev, st, a, c):
    return t.ninv(ev.pval(st, a[0]))


@model('quaternion::rotation_to', 'rotation_specialization::rotation_to', 'Rotation::rotation_to')
def _(ev, st, a, c):
    x, y = ev.pval(st, a[0]), ev.pval(st, a[1])
    return t.nmul(y, t.ninv(x))


@model('quaternion::scaled_axis', 'rotation_specialization::scaled_axis')
def _(ev, st, a, c):
    return t.rlog(ev.pval(st, a[0]))


@model('quaternion::angle', 'rotation_specialization::angle')
def _(ev, st, a, c):
    return t.norm(t.rlog(ev.pval(st, a[0])))


@model('quaternion::axis', 'quaternion::axis_angle', 'quaternion::euler_angles', 'quaternion::angle_to')
def _(ev, st, a, c):
    return t.fn(c.name, *[ev.pval(st, x) for x in a])


@model('quaternion::transform_vector', 'Rotation::transform_vector')
def _(ev, st, a, c):
    return t.nmul(ev.pval(st, a[0]), ev.pval(st, a[1]))


@model('utils::read_urdf_or_xacro', 'utils::read_file', 'funcs::read_file', 'funcs::read_from_string', 'urdf_rs::read_file')
def _(ev, st, a, c):
    """a reader: any error, or a robot with one joint "j" from link "base" to link "tip" (one visual and collision
    each), everything but these names unknown"""
    x = t.fn('extern_' + c.name, *[ev.pval(st, x) for x in a])
    p = lambda *w: t.fn('file', x, *[t.raw('str', str(i)) for i in w])
    links = mkseq([t.struct('urdf_rs::Link', [
        ('name', t.raw('str', n)), ('inertial', p(n, 'inertial')), ('visual', mkseq([p(n, 'visual')])),
        ('collision', mkseq([p(n, 'collision')]))]) for n in ('base', 'tip')])
    joint = t.struct('urdf_rs::Joint', [
        ('name', t.raw('str', 'j')), ('joint_type', p('joint_type')), ('origin', p('origin')),
        ('parent', t.struct('urdf_rs::LinkName', [('link', t.raw('str', 'base'))])),
        ('child', t.struct('urdf_rs::LinkName', [('link', t.raw('str', 'tip'))])),
        ('axis', p('axis')), ('limit', p('limit')), ('dynamics', p('dynamics')), ('mimic', t.NONE),
        ('safety_controller', p('safety'))])
    robot = t.struct('urdf_rs::Robot', [('name', p('name')), ('links', links), ('joints', mkseq([joint])), ('materials', t.EMPTYSEQ)])
    return ite(t.is_ok(x), t.ok(robot), t.err(err_of(x)))
