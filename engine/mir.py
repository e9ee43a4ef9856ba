"""Access to the facts exported by the compiler driver (types, ADTs, MIR of every function)."""
import json
import re


class Fn:
    __slots__ = ('d', 'path', 'name', 'body', 'crate', 'promoted', 'key', '_loops', '_rpo')

    def __init__(self, d, crate):
        self.d = d
        self.path = d['path']
        self.name = d['name']
        self.body = d.get('body')
        self.promoted = d.get('promoted') or []
        self.crate = crate
        self.key = None
        self._loops = None
        self._rpo = None


class Body:
    """a MIR body plus control-flow information"""

    def __init__(self, fn, b, label):
        self.fn = fn
        self.b = b
        self.label = label
        self.args = b['args']
        self.locals = b['locals']
        self.blocks = b['blocks']
        self.succ = [self._succ(i) for i in range(len(self.blocks))]
        self._cfg()

    def _succ(self, i):
        t = self.blocks[i]['t']
        k = t[0]
        if k == 'goto':
            return [t[1]]
        if k == 'switch':
            out = []
            for _, b in t[2]:
                if b not in out:
                    out.append(b)
            if t[3] not in out:
                out.append(t[3])
            return out
        if k == 'call':
            return [t[4]] if t[4] is not None else []
        if k == 'drop':
            return [t[2]]
        if k == 'assert':
            return [t[4]]
        return []

    def _cfg(self):
        n = len(self.blocks)
        seen = [False] * n
        post = []
        st = [(0, iter(self.succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = list(reversed(post))
        self.rpoidx = {b: i for i, b in enumerate(self.rpo)}
        # dominators
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in self.succ[b]:
                pred[s].append(b)
        self.pred = pred
        idom = {self.rpo[0]: self.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                new = ps[0]
                for p in ps[1:]:
                    x, y = p, new
                    while x != y:
                        while self.rpoidx[x] > self.rpoidx[y]:
                            x = idom[x]
                        while self.rpoidx[y] > self.rpoidx[x]:
                            y = idom[y]
                    new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.rpo[0]:
                    return False
                b = idom[b]
        # natural loops
        self.loops = {}
        self.irreducible = False
        for b in self.rpo:
            for s in self.succ[b]:
                if self.rpoidx[s] <= self.rpoidx[b]:
                    if not dom(s, b):
                        self.irreducible = True
                        continue
                    body = self.loops.setdefault(s, set([s]))
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])

    def span(self, i):
        return self.blocks[i]['t'][-1]


ISO = r'^core::cell::(Ref)?Cell<core::option::Option<nalgebra::geometry::isometry::Isometry<.*>>>$'
PRIVATE = {
    'crate::joint::joint::Joint': [('position', r'^T$'), ('velocity', r'^T$'), ('origin', r'^nalgebra::geometry::isometry::Isometry<'),
                                   ('world_transform_cache', ISO), ('world_velocity_cache', r'^core::cell::(Ref)?Cell<core::option::Option<joint::velocity::Velocity<T>>>$')],
    'crate::node::NodeImpl': [('parent', r'^core::option::Option<alloc::\S*Weak<.*NodeImpl<T>>>>$'), ('mimic_parent', r'^core::option::Option<alloc::\S*Weak<.*NodeImpl<T>>>>$'),
                              ('children', r'^alloc::vec::Vec<node::Node<T>>$'), ('mimic_children', r'^alloc::vec::Vec<node::Node<T>>$'),
                              ('mimic', r'^core::option::Option<joint::mimic::Mimic<T>>$'), ('joint', r'^joint::joint::Joint<T>$'), ('link', r'^core::option::Option<link::Link<T>>$')],
    'crate::chain::Chain': [('nodes', r'^alloc::vec::Vec<node::Node<T>>$'), ('movable_nodes', r'^alloc::vec::Vec<node::Node<T>>$'), ('dof', r'^usize$')],
    'crate::chain::SerialChain': [('inner', r'^chain::Chain<T>$')],
    'crate::ik::JacobianIkSolver': [('nullspace_function', r'^core::option::Option<alloc::boxed::Box<dyn ')],
    'crate::link::Inertial': [('origin', r'^nalgebra::geometry::isometry::Isometry<'), ('world_transform_cache', r'^core::option::Option<nalgebra::geometry::isometry::Isometry<')],
    'crate::link::Collision': [('origin', r'^nalgebra::geometry::isometry::Isometry<'), ('world_transform_cache', r'^core::option::Option<nalgebra::geometry::isometry::Isometry<')],
    'crate::link::Visual': [('origin', r'^nalgebra::geometry::isometry::Isometry<'), ('world_transform_cache', r'^core::option::Option<nalgebra::geometry::isometry::Isometry<')],
}


STATE = ('Joint', 'NodeImpl', 'Chain', 'SerialChain', 'Inertial', 'Collision', 'Visual', 'Link', 'Range', 'Mimic', 'Velocity', 'Material', 'JacobianIkSolver', 'Constraints')


class Facts:
    def __init__(self, path):
        F = json.load(open(path))
        self.types = F['types']
        self.adts = {a['def']: a for a in F['adts']}
        for a in F['adts']:
            # variants of enums of other crates may share their names with variants of this crate's enums
            top = a['def'].split('::')[0]
            if a['kind'] == 'enum' and not a['local'] and top not in ('core', 'alloc', 'std', 'nalgebra'):
                for v in a['variants']:
                    v['name'] = top + '::' + v['name']
        self.roles()
        self.impls = F['impls']
        self.unsafes = F.get('unsafes', [])
        self.fns = {}
        self.byname = {}
        for d in F['fns']:
            f = Fn(d, self)
            self.fns.setdefault(f.path, f)
        self._bodies = {}
        self._res = {}

    def roles(self):
        """private fields are known by what they are for, not by their names: a field that this analysis does not know
        takes the place of a known field of the same struct and type that is not there"""
        self.renamed = []
        for d, known in PRIVATE.items():
            a = self.adts.get(d)
            if a is None or len(a['variants']) != 1:
                continue
            fs = a['variants'][0]['fields']
            have = {f['name'] for f in fs}
            for name, ty in known:
                if name in have:
                    continue
                xs = [f for f in fs if f['name'] not in [n for n, _ in known] and (d.endswith('NodeImpl') or not f.get('pub')) and re.search(ty, self.tstr(f['ty']))]
                missing = [n for n, y in known if y == ty and n not in have]
                if len(xs) == len(missing):
                    for f, n in zip(xs, missing):
                        self.renamed.append((d, f['name'], n))
                        f['name'] = n
                        have.add(n)
        # private state that this analysis has no meaning for
        self.unmodelled = set()
        for d, a in self.adts.items():
            if d.split('::')[0] != 'crate' or a['kind'] != 'struct' or len(a['variants']) != 1 or d.split('::')[-1] not in STATE:
                continue
            known = [n for n, _ in PRIVATE.get(d, [])]
            for f in a['variants'][0]['fields']:
                if not f.get('pub') and f['name'] not in known:
                    self.unmodelled.add((d.split('::')[-1], f['name']))

    def ty(self, i):
        return self.types[i]

    def tstr(self, i):
        return self.types[i]['s']

    def body(self, fn, promoted=None):
        key = (fn.path, promoted)
        b = self._bodies.get(key)
        if b is None:
            raw = fn.body if promoted is None else fn.promoted[promoted]
            if raw is None:
                return None
            b = Body(fn, raw, key)
            self._bodies[key] = b
        return b

    def adt(self, tid):
        t = self.types[tid]
        if t['k'] == 'adt':
            return self.adts.get(t['def'])
        return None

    # ------------------------------------------------------------ printing
    def pplace(self, p):
        s = '_%d' % p['l']
        for e in p['p']:
            if e[0] == 'deref':
                s = '(*%s)' % s
            elif e[0] == 'field':
                s += '.%s' % e[1]
            elif e[0] == 'index':
                s += '[_%s]' % e[1]
            elif e[0] == 'downcast':
                s = '(%s as %s)' % (s, e[1])
            else:
                s += str(e)
        return s

    def pop(self, o):
        if o[0] in ('copy', 'move'):
            return o[0] + ' ' + self.pplace(o[1])
        c = o[1]
        if c['c'] == 'fn':
            f = c['fn']
            r = f.get('res')
            return 'fn<%s%s>' % (f['def'], (' -> ' + r['def'] + ('' if not r['local'] else ' (local)')) if r else ' UNRES')
        return 'const %s' % json.dumps({k: v for k, v in c.items() if k != 't'})

    def prv(self, r):
        out = []
        for x in r:
            if isinstance(x, dict) and 'l' in x:
                out.append(self.pplace(x))
            elif isinstance(x, list) and x and x[0] in ('copy', 'move', 'const'):
                out.append(self.pop(x))
            elif isinstance(x, list):
                out.append('[' + ', '.join(self.pop(y) if isinstance(y, list) and y and y[0] in ('copy', 'move', 'const') else str(y) for y in x) + ']')
            else:
                out.append(str(x))
        return ' '.join(out)

    def dump(self, path):
        fn = self.fns[path]
        b = fn.body
        out = ['fn %s args=%d' % (path, b['args'])]
        for i, t in enumerate(b['locals']):
            out.append('  _%d: %s' % (i, self.tstr(t)))
        for i, blk in enumerate(b['blocks']):
            if blk.get('c'):
                continue
            out.append(' bb%d:' % i)
            for s in blk['s']:
                if s[0] == 'assign':
                    out.append('    %s = %s' % (self.pplace(s[1]), self.prv(s[2])))
                elif s[0] in ('live', 'dead'):
                    pass
                else:
                    out.append('    ' + str(s))
            t = blk['t']
            if t[0] == 'call':
                out.append('    %s = call %s(%s) -> bb%s' % (self.pplace(t[3]), self.pop(t[1]), ', '.join(self.pop(a) for a in t[2]), t[4]))
            elif t[0] == 'switch':
                out.append('    switch %s %s else bb%s' % (self.pop(t[1]), t[2], t[3]))
            elif t[0] == 'drop':
                out.append('    drop %s -> bb%s' % (self.pplace(t[1]), t[2]))
            elif t[0] == 'assert':
                out.append('    assert %s %s %s -> bb%s' % (self.pop(t[1]), t[2], t[3], t[4]))
            else:
                out.append('    ' + str(t))
        return '\n'.join(out)


if __name__ == '__main__':
    import sys
    F = Facts(sys.argv[1])
    for p in F.fns:
        if sys.argv[2] in p:
            print(F.dump(p))
