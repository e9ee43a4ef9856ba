"""Abstract interpreter over MIR.  Every place holds one canonical value of terms.py; control-flow
joins build decision diagrams over the branch conditions (gated values), calls of crate functions
are inlined, calls of std / nalgebra functions are interpreted by models.py."""
from fractions import Fraction
from . import terms as t
from .terms import TRUE, FALSE, BOT, AND, OR, NOT, ite, T, N
import re
import struct as _struct


Undecided = t.Undecided


class Agg:
    """unpacked struct / tuple / closure / iterator"""
    __slots__ = ('name', 'names', 'vals')

    def __init__(self, name, names, vals):
        self.name = name
        self.names = tuple(names)
        self.vals = list(vals)

    def get(self, n):
        return self.vals[self.names.index(n)]

    def with_(self, n, v):
        vals = list(self.vals)
        vals[self.names.index(n)] = v
        return Agg(self.name, self.names, vals)

    def __repr__(self):
        return '%s{%s}' % (self.name, ', '.join('%s: %r' % x for x in zip(self.names, self.vals)))


def pack(v):
    if isinstance(v, Agg):
        vs = [pack(x) for x in v.vals]
        if v.name == 'Isometry':
            return t.mkiso(vs[0], vs[1])
        return t.struct(v.name, list(zip(v.names, vs)))
    return v


def getfield(v, f, sname):
    if isinstance(v, Agg):
        if f not in v.names:
            raise Undecided('field %s of %s' % (f, v.name))
        return v.get(f)
    if sname == 'Isometry':
        return t.iso_r(v) if f == 'rotation' else t.iso_t(v)
    if v is BOT:
        return BOT
    return t.field(v, f, sname)


def unpack(v, name, names):
    if isinstance(v, Agg):
        return v
    return Agg(name, names, [getfield(v, n, name) for n in names])


def vite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isinstance(a, Agg) and isinstance(b, Agg) and a.name == b.name and a.names == b.names:
        return Agg(a.name, a.names, [vite(c, x, y) for x, y in zip(a.vals, b.vals)])
    if isinstance(a, Agg) and b is BOT:
        return Agg(a.name, a.names, [vite(c, x, BOT) for x in a.vals])
    if isinstance(b, Agg) and a is BOT:
        return Agg(b.name, b.names, [vite(c, BOT, x) for x in b.vals])
    return ite(c, pack(a), pack(b))


PLACE_OPS = frozenset(['pl', 'pt', 'ph', 'pf', 'pi', 'pv', 'pk', 'pc', 'pb', 'pq'])


def isref(v):
    return isinstance(v, T) and v.op in PLACE_OPS


def hasref(v):
    if isinstance(v, Agg):
        return False
    if v.isT:
        return v.op in PLACE_OPS
    return any(l.op in PLACE_OPS for l in t.leaves(v))


class St:
    __slots__ = ('env', 'pc')

    def __init__(self, env, pc):
        self.env = env
        self.pc = pc

    def copy(self):
        return St(dict(self.env), self.pc)

    def become(self, o):
        self.env = o.env
        self.pc = o.pc

    @property
    def dead(self):
        return self.pc is FALSE


HEAP = [None]


def merge(states):
    states = [s for s in states if s.pc is not FALSE]
    if not states:
        return None
    if len(states) == 1:
        return states[0]
    tot = t.ORS([s.pc for s in states])
    # conditions relative to the union (the rest is don't care)
    conds = [s.pc for s in states]
    keys = {}
    for s in reversed(states):
        for k in s.env:
            keys[k] = 1
    env = {}
    for k in keys:
        vals = [s.env.get(k) for s in states]
        if any(v is None for v in vals):
            # a cell of an input node that a branch has not touched still has its first value there; a fresh node or a
            # local that a branch has not got cannot be used in it
            d = HEAP[0](k[1], k[2]) if k[0] == 'H' and not (k[1].args and k[1].args[0] == 'fresh') else BOT
            vals = [d if v is None else v for v in vals]
        r = vals[-1]
        if all(v is r for v in vals):
            env[k] = r
            continue
        for v, c in zip(reversed(vals[:-1]), reversed(conds[:-1])):
            r = vite(c, v, r)
        env[k] = simplify(tot, r)
    return St(env, tot)


def simplify(care, v):
    if care is TRUE:
        return v
    if isinstance(v, Agg):
        return Agg(v.name, v.names, [simplify(care, x) for x in v.vals])
    if v.isT:
        return v
    return restrict(care, v)


_rm = {}


def restrict(care, v):
    """generalised cofactor: drop the branches of v outside of care (BOT leaves count as outside)"""
    if v.isT or care is TRUE:
        return v
    if care is FALSE:
        return BOT
    key = (care.id, v.id)
    r = _rm.get(key)
    if r is not None:
        return r
    cv, vv = care.var, v.var
    if cv.order < vv.order:
        # v does not depend on the first variable of care
        c = t.ORS(list(care.kids))
        r = restrict(c, v)
    else:
        kids = []
        for i in range(len(vv.dom)):
            c = care.kids[i] if cv is vv else care
            kids.append(restrict(c, v.kids[i]) if c is not FALSE else None)
        live = [k for k in kids if k is not None and k is not BOT]
        if not live:
            r = BOT
        elif all(k is live[0] for k in live):
            r = live[0]
        else:
            r = t.mk(vv, tuple(BOT if k is None else k for k in kids))
    _rm[key] = r
    return r


def short(d):
    """canonical short name of a definition path"""
    s = d
    if s.startswith('<') and ' as ' in s:
        # <X as Trait>::m
        m = re.match(r'^<.* as ([^<>]+?)(<.*>)?>::(\w+)$', s)
        if m:
            return m.group(1).split('::')[-1] + '::' + m.group(3)
    out = []
    depth = 0
    for c in s:
        if c == '<':
            depth += 1
        elif c == '>':
            if out and out[-1:] == ['-'] and depth == 0:
                continue
            depth -= 1
        elif depth == 0:
            out.append(c)
    parts = [p for p in ''.join(out).split('::') if p]
    return '::'.join(parts[-2:])


_shortc = {}


def shortc(d):
    r = _shortc.get(d)
    if r is None:
        r = _shortc[d] = short(d)
    return r


FREEZE_NO = {'core::cell::RefCell', 'core::cell::Cell', 'core::cell::UnsafeCell', 'std::sync::poison::mutex::Mutex',
             'std::sync::poison::rwlock::RwLock', 'core::cell::OnceCell', 'core::cell::once::OnceCell',
             'std::sync::once_lock::OnceLock', 'core::sync::atomic::Atomic'}
TRANSPARENT = {'nalgebra::base::unit::Unit', 'nalgebra::geometry::translation::Translation', 'alloc::boxed::Box',
               'core::mem::maybe_uninit::MaybeUninit', 'core::mem::manually_drop::ManuallyDrop',
               'core::mem::maybe_dangling::MaybeDangling', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull',
               'nalgebra::geometry::point::Point', 'nalgebra::geometry::point::OPoint',
               'nalgebra::geometry::rotation::Rotation', 'core::cell::RefCell', 'core::cell::Cell',
               'std::sync::poison::mutex::Mutex', 'std::sync::poison::rwlock::RwLock', 'core::cell::once::OnceCell',
               'std::sync::once_lock::OnceLock', 'core::sync::atomic::Atomic', 'core::num::wrapping::Wrapping'}

_idc = [0]


def newid():
    _idc[0] += 1
    return _idc[0]


def is_static(v):
    return v.isT and v.op == 'pt' and isinstance(v.args[0], str)


class Obl:
    """an obligation met during the evaluation of a contract"""
    __slots__ = ('kind', 'label', 'a', 'b')

    def __init__(self, kind, label, a, b):
        self.kind, self.label, self.a, self.b = kind, label, a, b

    def __repr__(self):
        return '%s(%s)' % (self.kind, self.label)


def lab(v):
    return v.args[0] if isinstance(v, T) and v.op == 'str' else repr(v)


class Ev:
    MAXITER = 24
    MAXDEPTH = 60

    def __init__(self, facts, mode='unroll', heap=None):
        self.F = facts
        self.mode = mode
        self.panics = []
        self.stack = []
        self.fnvals = []
        self.fnidx = {}
        self.frames = {}
        self.visited = {}      # fn path -> number of blocks evaluated
        self.calls = 0
        self.locks = None      # counters when locks are tracked
        self.turn = None       # [k, request]: another thread comes in before the k-th lock that is taken without holding one
        self.nested = set()
        self.bodies = {}
        self.born = {}
        self._lt = {}
        self._gl = {}
        self.obls = 0
        self.unknowns = {}
        self.heap = heap       # unroll mode: callable (node term, leaf) -> initial value
        HEAP[0] = heap
        self.fresh = 0
        self.care = TRUE
        self._freeze = {}
        self._leafs = {}
        self._implidx = None
        from . import models, fmt_models
        self.models = models

    # -------------------------------------------------------------- types
    def ty(self, i):
        return self.F.types[i]

    def freeze(self, i):
        r = self._freeze.get(i)
        if r is not None:
            return r
        self._freeze[i] = True
        ty = self.F.types[i]
        k = ty['k']
        r = True
        if k == 'adt':
            if ty['def'] in FREEZE_NO:
                r = False
            else:
                d = ty['def']
                a = self.F.adts.get(d)
                if d.startswith('alloc::rcs::') or d.startswith('std::sync::') or d.endswith('Guard') or d.endswith('::LocalKey'):
                    r = True
                elif d.startswith('alloc::') or (a is None or not a['local']):
                    r = all(self.freeze(x) for x in ty['args'] if isinstance(x, int))
                else:
                    for v in a['variants']:
                        for f in v['fields']:
                            if not self.freeze(f['ty']):
                                r = False
        elif k in ('tuple',):
            r = all(self.freeze(x) for x in ty['tys'])
        elif k in ('array', 'slice'):
            r = self.freeze(ty['ty'])
        elif k == 'closure':
            r = True
        self._freeze[i] = r
        return r

    def sname(self, adtdef):
        a = self.F.adts.get(adtdef)
        last = adtdef.split('::')[-1]
        if a is not None and a['local']:
            return last
        top = adtdef.split('::')[0]
        if top in ('core', 'alloc', 'std', 'nalgebra'):
            return last
        return top + '::' + last

    def enumdom(self, adtdef):
        a = self.F.adts[adtdef]
        return tuple(v['name'] for v in a['variants'])

    def declare(self, adtdef):
        a = self.F.adts[adtdef]
        n = self.sname(adtdef)
        if ('#', n) not in t._nullary:
            t._nullary[('#', n)] = True
            t.declare_enum(n, [(v['name'], len(v['fields'])) for v in a['variants']])
        return n

    # -------------------------------------------------------------- heap layout
    def nodeimpl(self):
        for d, a in self.F.adts.items():
            if a['local'] and d.split('::')[-1] == 'NodeImpl':
                return a
        raise Undecided('NodeImpl not found')

    def leafs(self):
        """ordered list of (path tuple) of the leaf cells behind a node"""
        if self._leafs:
            return self._leafs['l']
        out = []

        def go(a, pre):
            for f in a['variants'][0]['fields']:
                ty = self.F.types[f['ty']]
                sub = self.F.adts.get(ty['def']) if ty['k'] == 'adt' else None
                if sub is not None and sub['local'] and sub['kind'] == 'struct' and ty['def'].split('::')[-1] == 'Joint':
                    go(sub, pre + (f['name'],))
                else:
                    out.append(pre + (f['name'],))
        go(self.nodeimpl(), ())
        self._leafs['l'] = out
        return out

    def heap_read(self, st, node, leaf):
        if isinstance(node, Agg):
            node = pack(node)
        if not node.isT:
            key = (node.id, leaf)
            kids = [self.heap_read(st, k, leaf) for k in node.kids]
            return t.mk(node.var, tuple(pack(k) for k in kids))
        if node is BOT:
            return BOT
        k = ('H', node, leaf)
        v = st.env.get(k)
        if v is None:
            if node.op != 'node':
                raise Undecided('heap access through an unknown node %r' % (node,))
            v = self.heap(node, leaf)
            st.env[k] = v
        return v

    def heap_write(self, st, node, leaf, v, cond=TRUE):
        if isinstance(node, Agg):
            node = pack(node)
        if not node.isT:
            for i, kid in enumerate(node.kids):
                c = AND(cond, t.node_bool(node.var, node.var.dom[i]))
                if c is not FALSE:
                    self.heap_write(st, kid, leaf, v, c)
            return
        if node is BOT:
            return
        if node.op != 'node':
            raise Undecided('heap write through an unknown node')
        if cond is not TRUE:
            v = vite(cond, v, self.heap_read(st, node, leaf))
        st.env[('H', node, leaf)] = v

    def new_node(self, st, content):
        self.fresh += 1
        n = t.raw('node', 'fresh', self.fresh)
        for leaf in self.leafs():
            st.env[('H', n, leaf)] = t.unknown('uninit')
        self.born[n] = self.operation()
        self.write_ref(st, t.raw('ph', n), content)
        return n

    # -------------------------------------------------------------- references
    def refkey(self, r):
        """(basekind, base, path) ; path elements as tuples"""
        path = []
        while r.op in ('pf', 'pi', 'pv', 'pk', 'pc', 'pq'):
            if r.op == 'pq':
                pass
            elif r.op == 'pf':
                path.append(('f', r.args[1], r.args[2], r.args[3]))
            elif r.op == 'pi':
                path.append(('i', r.args[1]))
            elif r.op == 'pk':
                path.append(('k', r.args[1]))
            elif r.op == 'pc':
                path.append(('c', r.args[1], r.args[2]))
            else:
                path.append(('v', r.args[1], r.args[2], r.args[3]))
            r = r.args[0]
        path.reverse()
        return r, path

    def read_ref(self, st, r):
        if isinstance(r, Agg):
            return r
        if not r.isT:
            kids = [pack(self.read_ref(st, k)) for k in r.kids]
            return t.mk(r.var, tuple(kids))
        if r.op not in PLACE_OPS:
            return r
        base, path = self.refkey(r)
        if base.op == 'ph':
            node = base.args[0]
            v, path = self.read_heap_path(st, node, path)
        else:
            key = ('L', base.args[0], base.args[1]) if base.op == 'pl' else ('T', base.args[0])
            v = st.env.get(key)
            if v is None:
                return BOT
        for p in path:
            v = self.step(v, p)
        return v

    def read_heap_path(self, st, node, path):
        pre = []
        i = 0
        ls = self.leafs()
        while i < len(path) and path[i][0] == 'f':
            pre.append(path[i][1])
            i += 1
            if tuple(pre) in ls:
                return self.heap_read(st, node, tuple(pre)), path[i:]
            if not any(l[:len(pre)] == tuple(pre) for l in ls):
                raise Undecided('unknown heap path %s' % (pre,))
        # a whole struct
        return self.heap_struct(st, node, tuple(pre)), path[i:]

    def heap_struct(self, st, node, pre):
        a = self.nodeimpl()
        for f in pre:
            fld = [x for x in a['variants'][0]['fields'] if x['name'] == f][0]
            a = self.F.adts[self.F.types[fld['ty']]['def']]
        names = [x['name'] for x in a['variants'][0]['fields']]
        vals = []
        ls = self.leafs()
        for n in names:
            if pre + (n,) in ls:
                vals.append(self.heap_read(st, node, pre + (n,)))
            else:
                vals.append(self.heap_struct(st, node, pre + (n,)))
        return Agg(a['def'].split('::')[-1], names, vals)

    def step(self, v, p):
        if p[0] == 'f':
            return getfield(v, p[1], p[2])
        v = pack(v)
        if p[0] == 'i':
            return t.index(v, p[1])
        if p[0] == 'c':
            return t.comp(v, p[1])
        if p[0] == 'k':
            return t.unsome(t.map_get(v, p[1]))
        return t.proj(v, p[1], p[2], p[3])

    def write_ref(self, st, r, v, cond=TRUE):
        if isinstance(r, Agg):
            raise Undecided('write through a value')
        if not r.isT:
            for i, kid in enumerate(r.kids):
                c = AND(cond, t.node_bool(r.var, r.var.dom[i]))
                if c is not FALSE and kid is not BOT:
                    self.write_ref(st, kid, v, c)
            return
        if r is BOT:
            return
        if r.op not in PLACE_OPS:
            raise Undecided('write through a value %r' % (r,))
        base, path = self.refkey(r)
        if base.op == 'ph':
            node = base.args[0]
            ls = self.leafs()
            pre = []
            i = 0
            while i < len(path) and path[i][0] == 'f' and tuple(pre) not in ls:
                pre.append(path[i][1])
                i += 1
            pre = tuple(pre)
            if pre in ls:
                if i < len(path):
                    old = self.heap_read(st, node, pre)
                    v = self.setpath(old, path[i:], v)
                self.heap_write(st, node, pre, v, cond)
            else:
                self.write_heap_struct(st, node, pre, v, cond)
            return
        key = ('L', base.args[0], base.args[1]) if base.op == 'pl' else ('T', base.args[0])
        old = st.env.get(key, BOT)
        new = self.setpath(old, path, v) if path else v
        if cond is not TRUE:
            new = vite(cond, new, old)
        st.env[key] = new

    def write_heap_struct(self, st, node, pre, v, cond):
        ls = self.leafs()
        names = []
        for l in ls:
            if l[:len(pre)] == pre and l[len(pre)] not in names:
                names.append(l[len(pre)])
        a = self.nodeimpl()
        for f in pre:
            fld = [x for x in a['variants'][0]['fields'] if x['name'] == f][0]
            a = self.F.adts[self.F.types[fld['ty']]['def']]
        sn = a['def'].split('::')[-1]
        for n in names:
            x = getfield(v, n, sn)
            if pre + (n,) in ls:
                self.heap_write(st, node, pre + (n,), x, cond)
            else:
                self.write_heap_struct(st, node, pre + (n,), x, cond)

    def setpath(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == 'f':
            if isinstance(v, Agg):
                return v.with_(p[1], self.setpath(v.get(p[1]), path[1:], new))
            names = p[3]
            if v is BOT:
                v = Agg(p[2], names, [BOT] * len(names))
            else:
                v = Agg(p[2], names, [getfield(v, n, p[2]) for n in names])
            r = v.with_(p[1], self.setpath(v.get(p[1]), path[1:], new))
            return r
        v = pack(v)
        if p[0] == 'i':
            old = t.index(v, p[1]) if len(path) > 1 else None
            return t.update(v, p[1], pack(self.setpath(old, path[1:], new)))
        if p[0] == 'c':
            n = p[2]
            if n is None:
                return t.update(v, p[1], pack(new))
            comps = [t.comp(v, t.num(i)) for i in range(n)]
            r = None
            for i in range(n):
                c = t.irel(p[1], t.num(i), 'eq')
                comps[i] = ite(c, pack(new), comps[i])
            return t.vec(*comps)
        if p[0] == 'k':
            old = t.unsome(t.map_get(v, p[1])) if len(path) > 1 else None
            return t.map_insert(v, p[1], pack(self.setpath(old, path[1:], new)))
        # enum payload
        _, variant, i, ar = p
        args = [t.proj(v, variant, j, ar) for j in range(ar)]
        args[i] = pack(self.setpath(args[i], path[1:], new))
        return t.ctor(variant, *args)

    # -------------------------------------------------------------- places
    def place(self, st, fr, body, p):
        """-> (kind, x): ('r', reference value) or ('v', value)"""
        cur = ('r', t.raw('pl', fr, p['l']))
        tid = body.locals[p['l']]
        variant = None
        for e in p['p']:
            k = e[0]
            if k == 'deref':
                ty = self.F.types[tid]
                v = self.rd(st, cur)
                if not isinstance(v, Agg) and hasref(v):
                    cur = ('r', v)
                else:
                    cur = ('v', v)
                tid = ty.get('ty') if ty['k'] in ('ref', 'ptr') else (ty['args'][0] if ty['k'] == 'adt' else tid)
                if tid is None:
                    raise Undecided('deref type')
                variant = None
            elif k == 'field':
                cur = self.fieldstep(cur, tid, variant, e[1])
                tid = e[2]
                variant = None
            elif k == 'index':
                idx = pack(st.env[('L', fr, e[1])])
                cur = self.idxstep(cur, idx)
                tid = self.F.types[tid].get('ty')
            elif k == 'cindex':
                if e[2]:
                    v = pack(self.rd(st, cur))
                    idx = t.ssub(t.length(v), t.num(e[1]))
                else:
                    idx = t.num(e[1])
                cur = self.idxstep(cur, idx)
                tid = self.F.types[tid].get('ty')
            elif k == 'downcast':
                variant = e[1]
            elif k == 'subslice':
                v = pack(self.rd(st, cur))
                end = t.ssub(t.length(v), t.num(e[2])) if e[3] else t.num(e[2])
                cur = ('v', self.models.slice_seq(v, t.num(e[1]), end))
            else:
                raise Undecided('projection ' + k)
        return cur, tid

    def idxstep(self, cur, idx):
        if cur[0] == 'v':
            return ('v', t.index(pack(cur[1]), idx))
        return ('r', t.lift('pi', lambda r, i: t.raw('pi', r, i), cur[1], idx))

    def fieldstep(self, cur, tid, variant, i):
        ty = self.F.types[tid]
        k = ty['k']
        if k == 'tuple':
            n = len(ty['tys'])
            return self.pf(cur, str(i), '(%d)' % n, tuple(str(j) for j in range(n)))
        if k == 'closure':
            n = len(ty.get('upvars') or ty.get('tys') or [])
            return self.pf(cur, str(i), 'closure:' + ty['def'], tuple(str(j) for j in range(n)))
        if k == 'adt':
            d = ty['def']
            if d in TRANSPARENT:
                return cur
            a = self.F.adts.get(d)
            if a is None:
                raise Undecided('adt ' + d)
            if a['kind'] == 'enum':
                vr = a['variants'][variant]
                self.declare(d)
                ar = len(vr['fields'])
                if cur[0] == 'v':
                    return ('v', t.proj(pack(cur[1]), vr['name'], i, ar))
                return ('r', t.lift(('pv', vr['name'], i, ar), lambda r: t.raw('pv', r, vr['name'], i, ar), cur[1]))
            fields = a['variants'][0]['fields']
            last = d.split('::')[-1]
            if d.startswith('nalgebra::base::coordinates::') or d.startswith('nalgebra::base::quaternion'):
                n = len(fields)
                if cur[0] == 'v':
                    return ('v', t.comp(pack(cur[1]), t.num(i)))
                return ('r', t.lift(('pc', n), lambda r: t.raw('pc', r, t.num(i), n), cur[1]))
            return self.pf(cur, fields[i]['name'], self.sname(d), tuple(f['name'] for f in fields))
        raise Undecided('field of ' + ty['s'])

    def pf(self, cur, f, sn, names):
        if cur[0] == 'v':
            return ('v', getfield(cur[1], f, sn))
        return ('r', t.lift(('pf', f, sn), lambda r: t.raw('pf', r, f, sn, names), cur[1]))

    def rd(self, st, cur):
        return self.read_ref(st, cur[1]) if cur[0] == 'r' else cur[1]

    def val(self, st, v):
        """the value behind a (possibly not erased) reference"""
        n = 0
        while not isinstance(v, Agg) and hasref(v):
            v = self.read_ref(st, v)
            n += 1
            if n > 10:
                raise Undecided('reference cycle')
        return v

    def pval(self, st, v):
        return pack(self.val(st, v))

    # -------------------------------------------------------------- operands / rvalues
    def operand(self, st, fr, body, o):
        if o[0] in ('copy', 'move'):
            cur, tid = self.place(st, fr, body, o[1])
            v = self.rd(st, cur)
            if self.locks is not None and o[0] == 'move' and self.lockty(o[1]['t']):
                self.gone(st, fr, body, o[1])
            return v
        if o[0] == 'rtcheck':
            return FALSE
        return self.const(st, body, o[1])

    def const(self, st, body, c):
        k = c['c']
        if k == 'fn':
            return self.fnval(c['fn'])
        ty = self.F.types[c['t']] if c.get('t') is not None else None
        if k == 'scalar':
            return self.scalar(c, ty)
        if k == 'str':
            return t.raw('str', c['v'])
        if k == 'zst':
            if ty and ty['k'] == 'fndef':
                return self.fnval(ty.get('fn') or {'def': ty.get('def'), 'name': ty['s'], 'args': [], 'res': None})
            if ty and ty['k'] == 'closure':
                return Agg('closure:' + ty['def'], (), ())
            if ty and ty['k'] == 'adt':
                a = self.F.adts.get(ty['def'])
                if a and a['kind'] == 'enum' and len(a['variants']) == 1:
                    return t.nullary(a['variants'][0]['name'])
                return Agg(self.sname(ty['def']), (), ())
            return t.UNIT
        if k == 'promoted':
            fn = self.F.fns.get(c['of'])
            v = self.run_const(st, fn, c['i'])
            while not isinstance(v, Agg) and hasref(v) and not is_static(v):
                v = self.read_ref(st, v)
            return v
        if k == 'static':
            return self.static(st, c['def'])
        if k == 'named' and ty and ty['k'] == 'adt' and ty['def'].endswith('::LocalKey'):
            return t.raw('lkey', c['def'])
        if k == 'named':
            fn = self.F.fns.get(c['def'])
            if fn is not None and fn.body is not None:
                return self.val(st, self.run_const(st, fn, None))
            if c.get('bits') is not None:
                return self.scalar(c, ty)
            return t.raw('constname', c['def'].split('::')[-1] + '/' + c['def'].split('::')[-2])
        v = str(c.get('v'))
        if v[:1] == '"' and v[-1:] == '"' and len(v) > 1 and ty and ty['s'].endswith('str') and '\\' not in v:
            return t.raw('str', v[1:-1])
        return t.raw('constopq', str(c.get('v')), ty['s'] if ty else '')

    def static(self, st, d):
        """the place of a static item; its first value is that of its initializer"""
        r = t.raw('pt', 'static ' + d)
        key = ('T', 'static ' + d)
        if key not in st.env:
            raise Undecided('static ' + d)
        return r

    def init_statics(self, st):
        """the static items of the crate as a program finds them"""
        for p, fn in self.F.fns.items():
            kind = fn.d.get('kind') or ''
            if fn.body is None or '__RUST_STD_INTERNAL' in p:
                continue
            try:
                if kind.startswith('Static'):
                    st.env[('T', 'static ' + p)] = self.val(st, self.run_const(st, fn, None))
                elif kind == 'Const':
                    ty = self.F.types[fn.body['locals'][0]]
                    if ty['k'] == 'adt' and ty['def'].endswith('::LocalKey'):
                        i = self.F.fns.get(p + '::__rust_std_internal_init_fn') or self.F.fns.get(p + '::__RUST_STD_INTERNAL_INIT')
                        if i is not None:
                            b = self.F.body(i)
                            st.env[('T', 'static ' + p)] = self.val(st, self.call_body(st, i, b, [t.UNIT] * b.args))
            except Undecided:
                pass
        self.visited = {}
        self.calls = 0
        self.unknowns = {}
        self.panics = []

    def run_const(self, st, fn, promoted):
        b = self.F.body(fn, promoted)
        return self.call_body(st, fn, b, [])

    def scalar(self, c, ty):
        bits = int(c['bits'])
        k = ty['k'] if ty else 'uint'
        if k == 'bool':
            return TRUE if bits else FALSE
        if k == 'float':
            if ty['s'] == 'f64':
                f = _struct.unpack('<d', _struct.pack('<Q', bits))[0]
            else:
                f = _struct.unpack('<f', _struct.pack('<I', bits))[0]
            if f != f or f in (float('inf'), float('-inf')):
                return t.raw('fconst', repr(f))
            return t.num(Fraction(f))
        if k == 'int':
            w = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128}.get(ty['s'], 64)
            if bits >= 1 << (w - 1):
                bits -= 1 << w
            return t.num(bits)
        if k == 'char':
            return t.raw('char', bits)
        if k == 'adt':
            a = self.F.adts.get(ty['def'])
            if a and a['kind'] == 'enum':
                for v in a['variants']:
                    if int(v['discr']) % 256 == bits % 256:
                        self.declare(ty['def'])
                        return t.nullary(v['name'])
        return t.num(bits)

    def fnval(self, f):
        key = (f['def'], (f.get('res') or {}).get('def'), tuple(f.get('args') or []))
        i = self.fnidx.get(key)
        if i is None:
            i = len(self.fnvals)
            self.fnvals.append(f)
            self.fnidx[key] = i
        return t.raw('fnval', f['def'], i)

    # -------------------------------------------------------------- locks that are held
    def lockty(self, tid):
        """do values of the type own a lock guard"""
        r = self._lt.get(tid)
        if r is None:
            r = self._lt[tid] = ownsguard(self.F, tid)
        return r

    def guardlocals(self, body):
        r = self._gl.get(id(body))
        if r is None:
            r = self._gl[id(body)] = [i for i, ty in enumerate(body.locals) if self.lockty(ty)]
        return r

    def gone(self, st, fr, body, p):
        """the place gives up the guards that it owns"""
        if not p['p']:
            st.env[('L', fr, p['l'])] = GONE
            return
        if not self.lockty(body.locals[p['l']]):
            return
        try:
            cur, tid = self.place(st, fr, body, p)
            if cur[0] == 'r':
                self.write_ref(st, cur[1], GONE)
                return
        except Undecided:
            pass
        st.env[('L', fr, p['l'])] = GONE

    def held(self, st):
        """[(condition, node, function)] of the guards owned by the locals of the functions of the crate that are active"""
        out = []
        for path, fr in self.stack:
            if CONTRACT.match(path):
                continue
            body = self.bodies.get(fr)
            if body is None:
                continue
            for i in self.guardlocals(body):
                v = st.env.get(('L', fr, i))
                if v is not None:
                    out += [(c, n, path) for c, n in guards(v)]
        return out

    def others(self, st):
        """a request of another thread comes in here, if no lock is held"""
        if self.turn is None or any(AND(st.pc, c) is not FALSE for c, h, owner in self.held(st)):
            return
        k, f = self.turn
        if k > 0:
            self.turn[0] -= 1
            return
        self.turn = None
        self.arrived = True
        st.env[('T', 'came')] = TRUE
        self.call_value(st, f, [])

    def locked(self, st, n):
        """the lock of node n is taken"""
        path = self.stack[-1][0]
        self.locks['taken'] = self.locks.get('taken', 0) + 1
        hs = self.held(st)
        if not hs:
            return
        for ca, a in leafconds(n):
            for c, h, owner in hs:
                c = AND(ca, c)
                if AND(st.pc, c) is FALSE:
                    continue
                self.nested.add((path, owner))
                if a.op == 'pq' or h.op == 'pq':
                    if a.op == h.op and a.args[0] is h.args[0] and (a.args[1], h.args[1]) != ('read', 'read'):
                        self.panics.append((AND(st.pc, c), Obl('lock', '%s takes a lock that is already held by %s' % (path, owner), TRUE, TRUE)))
                    continue
                if h is a:
                    self.panics.append((AND(st.pc, c), Obl('lock', '%s locks a node that is already locked by %s' % (path, owner), TRUE, TRUE)))
                    continue
                if self.own(a) or self.own(h):
                    # no other thread knows a node that this operation has created
                    continue
                # the only order in which two locks may be taken: a node that mimics no other one, then one of its followers
                mp = pack(self.heap_read(st, h, ('mimic_parent',)))
                free = t.lift('isnone', lambda x: t.const_bool(x is t.NONE) if x.op == 'ctor' else t.unknown('isnone', x), mp)
                mc = pack(self.heap_read(st, h, ('mimic_children',)))
                among = FALSE
                for cc, s in leafconds(mc):
                    if s.op == 'cat' and any(self.isnode(st, x, a) for x in s.args[1:]):
                        among = OR(among, cc)
                bad = AND(c, NOT(AND(drop_bot(free), among)))
                if AND(st.pc, bad) is not FALSE:
                    self.panics.append((AND(st.pc, bad), Obl('lock', '%s locks a node while %s holds the lock of another one, which is not one that mimics it' % (path, owner), TRUE, TRUE)))

    def operation(self):
        for path, fr in self.stack:
            if not CONTRACT.match(path):
                return fr

    def own(self, n):
        return n in self.born and self.born[n] == self.operation()

    def isnode(self, st, x, a):
        try:
            v = x.args[2] if x.isT and x.op == 'S' and x.args[0] == 'Node' else x
        except IndexError:
            v = x
        return v is a

    def rvalue(self, st, fr, body, r, destty):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, body, r[1])
        if k == 'ref':
            cur, tid = self.place(st, fr, body, r[2])
            if cur[0] == 'v':
                return cur[1]
            if r[1]:
                return cur[1]
            if not self.freeze(tid):
                return cur[1]
            return self.read_ref(st, cur[1])
        if k == 'rawptr':
            cur, tid = self.place(st, fr, body, r[2])
            if cur[0] == 'v':
                return cur[1]
            if 'Const' in r[1] and self.freeze(tid):
                return self.read_ref(st, cur[1])
            return cur[1]
        if k == 'bin':
            a = self.operand(st, fr, body, r[2])
            b = self.operand(st, fr, body, r[3])
            return self.binop(st, r[1], a, b, self.optype(body, r[2]) or self.optype(body, r[3]))
        if k == 'un':
            a = pack(self.operand(st, fr, body, r[2]))
            if r[1] == 'Not':
                ty = self.optype(body, r[2])
                if ty and ty['k'] == 'bool':
                    return NOT(a)
                return t.fn('bitnot', a)
            if r[1] == 'Neg':
                return t.sneg(a)
            if r[1] == 'PtrMetadata':
                v = self.pval(st, a)
                return t.length(v)
            raise Undecided('unop ' + r[1])
        if k == 'cast':
            v = self.operand(st, fr, body, r[2])
            if 'ReifyFn' in r[1] or 'ClosureFn' in r[1]:
                return v
            if r[1] in ('FloatToInt',):
                return t.fn('trunc', pack(v))
            if 'Unsize' in r[1]:
                return self.unsized(body, r[2], v)
            if r[1] == 'IntToInt':
                return self.narrowed(self.optype(body, r[2]), self.F.types[r[3]], v)
            if r[1] == 'FloatToFloat' and self.F.types[r[3]]['s'] == 'f32':
                return t.lift('f32', lambda x: x if x is BOT or x.op == 'num' and _struct.unpack('f', _struct.pack('f', float(x.args[0])))[0] == x.args[0]
                              else t.raw('f32', x), pack(v))
            return v
        if k == 'discr':
            cur, tid = self.place(st, fr, body, r[1])
            v = pack(self.rd(st, cur))
            return self.discr(v, tid)
        if k == 'agg':
            vals = [self.operand(st, fr, body, o) for o in r[2]]
            kind = r[1]
            if kind[0] == 'array':
                return t.cat(*[('e', pack(v)) for v in vals])
            if kind[0] == 'tuple':
                if not vals:
                    return t.UNIT
                n = len(vals)
                return Agg('(%d)' % n, [str(i) for i in range(n)], vals)
            if kind[0] == 'closure':
                return Agg('closure:' + kind[1], [str(i) for i in range(len(vals))], vals)
            if kind[0] == 'adt':
                d, vi, active = kind[1], kind[2], kind[3]
                d = self.adtkey(d)
                if d in TRANSPARENT:
                    return vals[0] if vals else t.UNIT
                a = self.F.adts[d]
                if a['kind'] == 'enum':
                    self.declare(d)
                    return t.ctor(a['variants'][vi]['name'], *[pack(v) for v in vals])
                if active is not None:
                    return vals[0]
                names = [f['name'] for f in a['variants'][0]['fields']]
                return self.mkstruct(d, names, vals)
            raise Undecided('aggregate %s' % kind)
        if k == 'repeat':
            v = pack(self.operand(st, fr, body, r[1]))
            n = int(r[2]) if r[2] is not None else None
            if n is None:
                raise Undecided('repeat')
            return t.cat(*[('e', v)] * n)
        if k == 'len':
            cur, tid = self.place(st, fr, body, r[1])
            return t.length(pack(self.rd(st, cur)))
        raise Undecided('rvalue ' + k)

    def narrowed(self, a, b, v):
        """a whole number in a type that may not hold it"""
        ra, rb = intrange(a), intrange(b)
        if ra is None or rb is None or rb[0] <= ra[0] and ra[1] <= rb[1] or isinstance(v, Agg):
            return v
        lo, size = rb[0], rb[1] - rb[0] + 1

        def wrap(x):
            if x is BOT:
                return x
            if x.op == 'num' and x.args[0].denominator == 1:
                return t.num((int(x.args[0]) - lo) % size + lo)
            return x if size >= 1 << 31 else t.raw('wrapped', x, t.num(lo), t.num(size))
        return t.lift(('wrap', lo, size), wrap, pack(v))

    def unsized(self, body, o, v):
        """a reference to an array that becomes one to a slice keeps its length"""
        ty = self.optype(body, o)
        if ty is None or ty['k'] != 'ref':
            return v
        a = self.F.types[ty['ty']]
        if a['k'] != 'array' or not str(a.get('len')).isdigit() or int(a['len']) > 64:
            return v
        if isinstance(v, Agg) or hasref(v):
            return v
        size = int(a['len'])

        def known(x):
            if x is BOT or x.op == 'cat' or t.length(x) is t.num(size):
                return x
            return t.cat(*[('e', t.index(x, t.num(i))) for i in range(size)])
        return t.lift(('unsize', size), known, v)

    def adtkey(self, d):
        if d in self.F.adts:
            return d
        if d.startswith('crate::') and d[7:] in self.F.adts:
            return d[7:]
        raise Undecided('adt ' + d)

    def mkstruct(self, d, names, vals):
        sn = self.sname(d)
        if sn == 'Isometry':
            m = dict(zip(names, vals))
            return t.mkiso(pack(m['rotation']), pack(m['translation']))
        return Agg(sn, names, vals)

    def optype(self, body, o):
        if o[0] in ('copy', 'move'):
            return self.F.types[o[1]['t']]
        if o[0] == 'const' and o[1].get('t') is not None:
            return self.F.types[o[1]['t']]
        return None

    def discr(self, v, tid):
        ty = self.F.types[tid]
        if ty['k'] != 'adt':
            raise Undecided('discriminant of ' + ty['s'])
        d = ty['def']
        a = self.F.adts[d]
        en = self.declare(d)
        dom = tuple(x['name'] for x in a['variants'])
        num = {x['name']: t.num(int(x['discr'])) for x in a['variants']}

        def f(x):
            if x.op == 'ctor':
                if x.args[0] not in num:
                    return BOT
                return num[x.args[0]]
            if x is BOT:
                return BOT
            if x.op == 'unk':
                pass
            return t.mk(t.getvar(t.raw('discr', x, en), dom), tuple(num[n] for n in dom))
        return t.lift(('discr', en), f, v)

    def binop(self, st, op, a, b, ty):
        k = ty['k'] if ty else 'uint'
        if k in ('ptr', 'ref', 'fnptr'):
            a, b = pack(a), pack(b)
            if op == 'Eq':
                return self.ptreq(a, b)
            if op == 'Ne':
                return NOT(self.ptreq(a, b))
            return t.unknown('ptrop')
        a, b = pack(a), pack(b)
        if k == 'bool':
            if op in ('BitAnd',):
                return AND(a, b)
            if op == 'BitOr':
                return OR(a, b)
            if op in ('BitXor', 'Ne'):
                return ite(t.as_cond(a), NOT(b), t.as_cond(b))
            if op == 'Eq':
                return ite(t.as_cond(a), t.as_cond(b), NOT(b))
            if op == 'Lt':
                return AND(NOT(a), b)
            if op == 'Gt':
                return AND(a, NOT(b))
            if op == 'Le':
                return OR(NOT(a), b)
            if op == 'Ge':
                return OR(a, NOT(b))
        isf = k in ('float', 'param')
        cmpname = {'Eq': 'eq', 'Ne': 'ne', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge'}.get(op)
        if cmpname:
            if k == 'char':
                r = t.eq(a, b)
                return r if op == 'Eq' else NOT(r) if op == 'Ne' else t.unknown('chcmp', a, b)
            return t.frel(a, b, cmpname) if isf else t.irel(a, b, cmpname)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base == 'Add':
            r = t.sadd(a, b)
            fl = FALSE
        elif base == 'Sub':
            r = t.ssub(a, b)
            fl = t.irel(a, b, 'lt') if (k == 'uint' and op != 'Sub') else FALSE
        elif base == 'Mul':
            r = t.smul(a, b)
            fl = FALSE
        elif base == 'Div' and isf:
            return t.sdiv(a, b)
        elif base in ('Div', 'Rem'):
            def f(x, y):
                if x.op == 'num' and y.op == 'num' and y.args[0] != 0:
                    q = int(x.args[0]) // int(y.args[0])
                    return t.num(q if base == 'Div' else int(x.args[0]) - q * int(y.args[0]))
                return t.raw('i' + base, x, y)
            return t.lift('i' + base, f, a, b)
        else:
            def g(x, y):
                if x.op == 'num' and y.op == 'num':
                    p, q = int(x.args[0]), int(y.args[0])
                    if base == 'BitAnd':
                        return t.num(p & q)
                    if base == 'BitOr':
                        return t.num(p | q)
                    if base == 'BitXor':
                        return t.num(p ^ q)
                    if base == 'Shl':
                        return t.num(p << q)
                    if base == 'Shr':
                        return t.num(p >> q)
                return t.raw('unk', 'op' + base, x, y)
            return t.lift('op' + base, g, a, b)
        if op.endswith('WithOverflow'):
            return Agg('(2)', ('0', '1'), (r, fl))
        return r

    def ptreq(self, a, b):
        def f(x, y):
            if x.op == 'node' and y.op == 'node':
                return t.const_bool(x is y)
            if x.op in PLACE_OPS and y.op in PLACE_OPS and x.op == 'ph' and y.op == 'ph':
                return f(x.args[0], y.args[0])
            if x.op == 'unk' or y.op == 'unk':
                return t.node_bool(t.getvar(t.raw('bool', t.raw('unk', 'ptreq', x, y)), (True, False)), True)
            return t.nodeeq(x, y)
        return t.lift('ptreq', f, a, b)

    # -------------------------------------------------------------- control
    def panic_if(self, st, cond, why=''):
        cond = t.as_cond(cond)
        if cond is FALSE:
            return
        p = AND(st.pc, cond)
        if p is not FALSE:
            self.panics.append((p, why))
        st.pc = AND(st.pc, NOT(cond))

    def call_body(self, st, fn, body, args):
        """inline; st is updated in place; returns the value"""
        if len(self.stack) > self.MAXDEPTH:
            raise Undecided('call depth')
        self.calls += 1
        fr = newid()
        self.stack.append((fn.path, fr))
        saved = self.panics
        self.panics = []
        inner = St(st.env, TRUE)
        if self.locks is not None:
            for i in self.guardlocals(body):
                inner.env[('L', fr, i)] = GONE
            self.bodies[fr] = body
        for i, a in enumerate(args):
            inner.env[('L', fr, i + 1)] = a
        self.visited[fn.path] = self.visited.get(fn.path, 0) + 1
        care = self.care
        self.care = AND(care, st.pc)
        try:
            rets = self.region(inner, fr, body, 0, None)[0]
        finally:
            self.care = care
            self.stack.pop()
            pan = self.panics
            self.panics = saved
        outer = st.pc
        for p, why in pan:
            q = AND(outer, p)
            if q is not FALSE:
                self.panics.append((q, why or fn.path))
        m = merge(rets)
        if m is None:
            st.pc = FALSE
            return BOT
        ret = m.env.get(('L', fr, 0), t.UNIT)
        env = m.env
        for i in range(len(body.locals)):
            env.pop(('L', fr, i), None)
        st.env = env
        st.pc = AND(outer, m.pc)
        return ret

    def region(self, st, fr, body, entry, within):
        """evaluate from entry; within=None: whole body; else set of blocks of the loop with header
        entry.  Returns (return states, back-edge states, exit edges [(target, state)])"""
        pend = {entry: [st]}
        rets = []
        backs = []
        exits = []
        order = body.rpo
        start = body.rpoidx[entry]

        def edge(src, dst, s):
            if s.pc is FALSE:
                return
            if within is not None:
                if dst == entry:
                    backs.append(s)
                    return
                if dst not in within:
                    exits.append((dst, s))
                    return
            if body.rpoidx[dst] <= body.rpoidx[src] and dst not in body.loops:
                raise Undecided('irreducible control flow')
            pend.setdefault(dst, []).append(s)

        for b in order[start:]:
            if b not in pend:
                continue
            if within is not None and b not in within:
                continue
            m = merge(pend.pop(b))
            if m is None:
                continue
            if b in body.loops and not (within is not None and b == entry):
                for dst, s in self.run_loop(m, fr, body, b):
                    edge(b, dst, s)
                continue
            for dst, s in self.block(m, fr, body, b, rets, entry if within is not None else None):
                edge(b, dst, s)
        return rets, backs, exits

    def run_loop(self, st, fr, body, header):
        """unroll until the back edges are infeasible"""
        blocks = body.loops[header]
        out = []
        cur = st
        n = 0
        while cur is not None and cur.pc is not FALSE:
            n += 1
            if n > self.MAXITER:
                raise Undecided('loop in %s does not end within the shape' % (body.fn.path,))
            rets, backs, exits = self.region(cur, fr, body, header, blocks)
            assert not rets
            out.extend(exits)
            cur = merge(backs)
        return out

    def block(self, st, fr, body, b, rets, loophead):
        blk = body.blocks[b]
        for s in blk['s']:
            k = s[0]
            if k == 'assign':
                self.assign(st, fr, body, s[1], s[2])
            elif k == 'dead':
                if self.locks is not None and s[1] in self.guardlocals(body):
                    st.env[('L', fr, s[1])] = GONE
                else:
                    st.env.pop(('L', fr, s[1]), None)
            elif k == 'setdiscr':
                raise Undecided('set discriminant')
        tm = blk['t']
        k = tm[0]
        if k == 'goto':
            return [(tm[1], st)]
        if k == 'drop':
            if self.locks is not None and self.lockty(tm[1]['t']):
                self.gone(st, fr, body, tm[1])
            return [(tm[2], st)]
        if k == 'return':
            rets.append(st)
            return []
        if k == 'unreachable' or k == 'resume':
            return []
        if k == 'switch':
            return self.switch(st, fr, body, tm)
        if k == 'assert':
            kind = tm[3]
            if kind in ('bounds', 'divzero', 'overflow'):
                c = pack(self.operand(st, fr, body, tm[1]))
                bad = t.as_cond(c)
                if tm[2]:
                    bad = NOT(bad)
                self.panic_if(st, bad, '%s in %s' % (kind, body.fn.path))
            return [(tm[4], st)] if st.pc is not FALSE else []
        if k == 'call':
            return self.call_term(st, fr, body, b, tm, loophead)
        raise Undecided('terminator ' + k)

    def assign(self, st, fr, body, place, rv):
        v = self.rvalue(st, fr, body, rv, place['t'])
        if not place['p']:
            st.env[('L', fr, place['l'])] = v
            return
        cur, tid = self.place(st, fr, body, place)
        if cur[0] == 'v':
            raise Undecided('assignment through a value in ' + body.fn.path)
        self.write_ref(st, cur[1], v)

    def switch(self, st, fr, body, tm):
        v = pack(self.operand(st, fr, body, tm[1]))
        out = []
        rest = TRUE
        ty = self.optype(body, tm[1])
        isbool = ty and ty['k'] == 'bool'
        todo = []
        if isbool:
            c = t.as_cond(v)
            for val, dst in tm[2]:
                cc = c if val != '0' else NOT(c)
                todo.append((cc, dst))
                rest = AND(rest, NOT(cc))
        else:
            for val, dst in tm[2]:
                cc = self.switcheq(v, int(val), ty)
                todo.append((cc, dst))
                rest = AND(rest, NOT(cc))
        todo.append((rest, tm[3]))
        bydst = {}
        for cc, dst in todo:
            bydst[dst] = OR(bydst[dst], cc) if dst in bydst else cc
        for dst, cc in bydst.items():
            pc = AND(st.pc, cc)
            if pc is FALSE or pc is BOT:
                continue
            if body.blocks[dst]['t'][0] == 'unreachable' and not body.blocks[dst]['s']:
                continue
            s = st.copy()
            s.pc = drop_bot(pc)
            if s.pc is FALSE:
                continue
            out.append((dst, s))
        return out

    def switcheq(self, v, val, ty):
        def f(x):
            if x.op == 'num':
                a = int(x.args[0])
                return t.const_bool(a == val or (a < 0 and any(a % (1 << w) == val for w in (8, 16, 32, 64, 128))))
            if x.op == 'char':
                return t.const_bool(x.args[0] == val)
            return t.irel(x, t.num(val), 'eq')
        return t.lift(('sweq', val), f, v)

    def call_term(self, st, fr, body, b, tm, loophead):
        fo = tm[1]
        args = [self.operand(st, fr, body, a) for a in tm[2]]
        argtys = [(a[1]['t'] if a[0] in ('copy', 'move') else (a[1].get('t') if a[0] == 'const' else None)) for a in tm[2]]
        dest, target = tm[3], tm[4]
        if fo[0] == 'const' and fo[1]['c'] == 'fn':
            f = fo[1]['fn']
            if f['def'] == 'core::iter::traits::iterator::Iterator::next' and isref(args[0]) \
                    and not (f.get('res') and f['res']['local']):
                return self.next_term(st, fr, body, b, args, dest, target, loophead)
            v = self.call(st, f, args, argtys, dest['t'], body)
        else:
            fv = self.operand(st, fr, body, fo)
            v = self.call_value(st, fv, args)
        if target is None or st.pc is FALSE:
            return []
        self.write_dest(st, fr, body, dest, v)
        return [(target, st)]

    def write_dest(self, st, fr, body, dest, v):
        if not dest['p']:
            st.env[('L', fr, dest['l'])] = v
        else:
            cur, tid = self.place(st, fr, body, dest)
            if cur[0] == 'v':
                raise Undecided('call result through a value')
            self.write_ref(st, cur[1], v)

    def next_term(self, st, fr, body, b, args, dest, target, loophead):
        """Iterator::next on a std iterator.  An element skipped by a filter goes back to the loop
        header when the header does nothing else than calling next"""
        ref = args[0]
        it = self.read_ref(st, ref)
        outs = self.models.it_next(self, st, it)
        somes = []
        skips = []
        for tag, s, i2, v in outs:
            if s.pc is FALSE:
                continue
            self.write_ref(s, ref, i2)
            if tag == 'some':
                self.write_dest(s, fr, body, dest, t.some(pack(v)))
                somes.append(s)
            elif tag == 'none':
                self.write_dest(s, fr, body, dest, t.NONE)
                somes.append(s)
            else:
                skips.append(s)
        res = []
        if skips:
            if loophead is not None and loophead == b and all(
                    s[0] != 'assign' or s[2][0] == 'ref' for s in body.blocks[b]['s']):
                for s in skips:
                    res.append((b, s))
            else:
                n = 0
                cur = merge(skips)
                while cur is not None and cur.pc is not FALSE:
                    n += 1
                    if n > self.MAXITER:
                        raise Undecided('filter')
                    it = self.read_ref(cur, ref)
                    nxt = []
                    for tag, s, i2, v in self.models.it_next(self, cur, it):
                        if s.pc is FALSE:
                            continue
                        self.write_ref(s, ref, i2)
                        if tag == 'skip':
                            nxt.append(s)
                        else:
                            self.write_dest(s, fr, body, dest, t.some(pack(v)) if tag == 'some' else t.NONE)
                            somes.append(s)
                    cur = merge(nxt)
        # keep the outcomes apart: the switch that follows separates them again anyway
        m = merge(somes)
        if m is not None:
            res.append((target, m))
        return res

    # -------------------------------------------------------------- calls
    def call(self, st, f, args, argtys=None, retty=None, body=None):
        d = f['def']
        res = f.get('res')
        if res and res['local'] and res.get('def') in self.F.fns:
            fn = self.F.fns[res['def']]
            if res['def'].startswith('crate::kcommon::') and self.marker(st, fn.name, args, body):
                return t.UNIT
            if res['def'] == 'crate::kcommon::came':
                self.turn = None
                return st.env.get(('T', 'came'), FALSE)
            if fn.d['kind'] == 'Closure':
                pass            # called through Fn*: the arguments come as a tuple
            elif not self.models.override(fn):
                return self.call_body(st, fn, self.F.body(fn), args)
        elif res is None and d in self.F.fns and self.F.fns[d].body and not f.get('trait'):
            fn = self.F.fns[d]
            return self.call_body(st, fn, self.F.body(fn), args)
        return self.models.call_model(self, st, f, args, argtys or [None] * len(args), retty)

    def marker(self, st, name, args, body):
        """vocabulary of the contract files"""
        if name == 'same':
            a, b = self.pval(st, args[0]), self.pval(st, args[1])
            self.obls += 1
            self.panics.append((st.pc, Obl('same', lab(args[2]), a, b)))
        elif name == 'must':
            c = drop_bot(t.as_cond(self.pval(st, args[0])))
            self.obls += 1
            p = AND(st.pc, NOT(c))
            if p is not FALSE:
                self.panics.append((p, Obl('must', lab(args[1]), c, TRUE)))
        elif name == 'never':
            self.obls += 1
            self.panics.append((st.pc, Obl('never', lab(args[0]), FALSE, TRUE)))
        elif name == 'assume':
            st.pc = AND(st.pc, drop_bot(t.as_cond(self.pval(st, args[0]))))
        elif name == 'meanwhile':
            k = pack(args[0])
            if k.op != 'num':
                raise Undecided('turn of another thread')
            if self.locks is None:
                self.locks = {}
            self.turn = [int(k.args[0]), args[1]]
            st.env[('T', 'came')] = FALSE
        elif name == 'may_panic':
            self.panics.append((AND(st.pc, drop_bot(t.as_cond(self.pval(st, args[0])))), Obl('may', '', TRUE, TRUE)))
        else:
            return False
        return True

    def call_value(self, st, fv, args):
        """call a closure / function value with a list of arguments"""
        ref = fv
        v = self.val(st, fv)
        if isinstance(v, Agg) and v.name.startswith('closure:'):
            path = v.name[8:]
            fn = self.F.fns.get(path) or self.F.fns.get('crate::' + path)
            if fn is None:
                raise Undecided('closure ' + path)
            b = self.F.body(fn)
            selfty = self.F.types[b.locals[1]]
            if selfty['k'] == 'ref':
                if isinstance(ref, Agg) or not hasref(ref):
                    if selfty['mut']:
                        k = newid()
                        st.env[('T', k)] = v
                        ref = t.raw('pt', k)
                    else:
                        ref = v
                else:
                    # strip one level at a time until the reference points to the closure itself
                    while True:
                        x = self.read_ref(st, ref)
                        if isinstance(x, Agg) or not hasref(x):
                            break
                        ref = x
                slf = ref
            else:
                slf = v
            return self.call_body(st, fn, b, [slf] + list(args))
        if not isinstance(v, Agg) and v.isT and v.op == 'fnval':
            f = self.fnvals[v.args[1]]
            return self.call(st, f, list(args))
        if not isinstance(v, Agg) and not v.isT:
            # several possible functions
            states = []
            for i, kid in enumerate(v.kids):
                s = st.copy()
                s.pc = AND(st.pc, t.node_bool(v.var, v.var.dom[i]))
                if s.pc is FALSE or kid is BOT:
                    continue
                r = self.call_value(s, kid, args)
                k = ('T', 'ret%d' % len(self.stack))
                s.env[k] = r
                states.append(s)
            m = merge(states)
            if m is None:
                st.pc = FALSE
                return BOT
            st.become(m)
            return st.env.pop(('T', 'ret%d' % len(self.stack)))
        if not isinstance(v, Agg) and v.isT and v.op in ('struct',):
            pass
        if isinstance(v, Agg):
            raise Undecided('call of ' + v.name)
        if v.op == 'S' and v.args[0].startswith('closure:'):
            names = v.args[1] if len(v.args) > 1 else ()
            return self.call_value(st, Agg(v.args[0], names, v.args[2:]), args)
        # opaque function given by the user: a pure function of its arguments
        if v is BOT:
            return BOT
        if self.locks is not None:
            for c, h, owner in self.held(st):
                if AND(st.pc, c) is not FALSE:
                    self.panics.append((AND(st.pc, c), Obl('lock', '%s calls a function of the user while %s holds a lock' % (self.stack[-1][0], owner), TRUE, TRUE)))
        if len(args) == 1:
            # a sub-task function answers one value per joint (its documented protocol)
            def one(f, q):
                r = t.raw('apply', f, q)
                if q.op == 'cat' and all(k == 'e' for k in q.args[0]):
                    return t.cat(*[('e', t.raw('answer', r, t.num(i))) for i in range(len(q.args) - 1)])
                return r
            return t.lift('apply', one, v, self.pval(st, args[0]))
        return t.fn('apply', v, *[self.pval(st, a) for a in args])

    # -------------------------------------------------------------- branching helpers for models
    def branch(self, st, cond, fthen, felse):
        """evaluate fthen(st1) / felse(st2) under cond and merge; returns the value"""
        cond = t.as_cond(cond)
        cond = drop_bot(cond)
        if cond is TRUE:
            return fthen(st)
        if cond is FALSE:
            return felse(st)
        a, b = st.copy(), st.copy()
        a.pc = AND(st.pc, cond)
        b.pc = AND(st.pc, NOT(cond))
        k = ('T', 'br%d' % newid())
        if a.pc is not FALSE:
            a.env[k] = fthen(a)
        if b.pc is not FALSE:
            b.env[k] = felse(b)
        m = merge([a, b])
        if m is None:
            st.pc = FALSE
            return BOT
        st.become(m)
        return st.env.pop(k, t.UNIT)

    def loop(self, st, step):
        """step(st) -> (list of states that continue, list of (tag, state)); returns exits"""
        out = []
        cur = st
        n = 0
        while cur is not None and cur.pc is not FALSE:
            n += 1
            if n > self.MAXITER * 4:
                raise Undecided('iteration does not end within the shape')
            conts, exits = step(cur)
            out.extend(e for e in exits if e[1].pc is not FALSE)
            cur = merge(conts)
        return out


CONTRACT = re.compile(r'^crate::(kcommon|ikref|c\d\d)::')
GONE = t.raw('gone')
GUARDS = ('MutexGuard', 'MappedMutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'ReentrantLockGuard')


def intrange(ty):
    if ty is None or ty['k'] not in ('int', 'uint'):
        return None
    d = ''.join(ch for ch in ty['s'] if ch.isdigit())
    n = int(d) if d else 64
    return (0, (1 << n) - 1) if ty['k'] == 'uint' else (-(1 << n - 1), (1 << n - 1) - 1)


def ownsguard(F, tid, seen=None):
    seen = set() if seen is None else seen
    if tid is None or tid in seen:
        return False
    seen.add(tid)
    ty = F.types[tid]
    k = ty['k']
    if k == 'adt':
        d = ty['def']
        if d.split('::')[-1] in GUARDS and ('sync' in d or 'lock_api' in d or 'parking_lot' in d):
            return True
        if d.split('::')[-1] == 'PhantomData':
            return False
        if any(ownsguard(F, a, seen) for a in ty.get('args') or [] if isinstance(a, int)):
            return True
        a = F.adts.get(d)
        if a is not None and a['local']:
            return any(ownsguard(F, f['ty'], seen) for v in a['variants'] for f in v['fields'])
        return False
    if k == 'tuple':
        return any(ownsguard(F, x, seen) for x in ty['tys'])
    if k in ('array', 'slice'):
        return ownsguard(F, ty.get('ty'), seen)
    if k == 'closure':
        return any(ownsguard(F, x, seen) for x in ty.get('upvars') or [])
    return False


def leafconds(v, c=TRUE):
    if v.isT:
        return [] if v is BOT else [(c, v)]
    out = []
    for i, kid in enumerate(v.kids):
        k = AND(c, t.node_bool(v.var, v.var.dom[i]))
        if k is not FALSE:
            out += leafconds(kid, k)
    return out


def guards(v, c=TRUE):
    if isinstance(v, Agg):
        return [g for x in v.vals for g in guards(x, c)]
    out = []
    for k, l in leafconds(v, c):
        if l.op == 'ph':
            out.append((k, l.args[0]))
        elif l.op == 'pq':
            out.append((k, l))
        elif l.op in ('ctor', 'S', 'cat', 'struct'):
            for x in l.args:
                if isinstance(x, (t.T, t.N)):
                    out += guards(x, k)
    return out


def drop_bot(c):
    """a condition that is undefined on unreachable branches: take false there"""
    if c.isT:
        return FALSE if c is BOT else c
    if any(l is BOT for l in t.leaves(c)):
        return t.lift('dropbot', lambda x: FALSE if x is BOT else x, c) if False else _db(c)
    return c


_dbm = {}


def _db(c):
    if c.isT:
        return FALSE if c is BOT else c
    r = _dbm.get(c.id)
    if r is None:
        r = t.mk(c.var, tuple(_db(k) for k in c.kids))
        _dbm[c.id] = r
    return r
