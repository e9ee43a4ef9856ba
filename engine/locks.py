"""Lock discipline of all functions of the crate, read off their MIR: which functions may take a node's lock
(directly or through what they call), where that happens while a guard may be alive, and guards that are never
released."""
import re
from .evalr import ownsguard, CONTRACT

TAKES = re.compile(r'(^|::)(Mutex|RwLock|ReentrantLock|FairMutex)(::<.*>)?::(lock|read|write|lock_arc|read_arc|write_arc)$')
WAITS = re.compile(r'(Condvar|Barrier|JoinHandle|Receiver|Once|OnceLock|LazyLock)(::<.*>)?::(wait\w*|join|recv\w*|call_once\w*|get_or_init|force)$')
FORGETS = re.compile(r'(mem::forget|ManuallyDrop::(<.*>::)?new|Box::(<.*>::)?(leak|into_raw)|MaybeUninit::(<.*>::)?new)$')
IMPLICIT = ('Iterator', 'DoubleEndedIterator', 'ExactSizeIterator', 'IntoIterator', 'PartialEq', 'Eq', 'PartialOrd', 'Ord', 'Hash', 'Clone', 'Default', 'Deref',
            'DerefMut', 'From', 'Into', 'FromIterator', 'Extend', 'AsRef', 'Borrow')
PRINT = ('Display', 'Debug')


class Locks:
    def __init__(self, F):
        self.F = F
        self.fns = {p: f for p, f in F.fns.items() if not contract_fn(F, f) and f.body is not None}
        self.impls = {}                 # (trait name, adt) -> [fn path]
        for p, f in self.fns.items():
            tr = f.d.get('impltrait')
            if tr and f.d.get('implself') is not None:
                ty = F.types[f.d['implself']]
                if ty['k'] == 'adt':
                    self.impls.setdefault((tr['def'].split('::')[-1], ty['def']), []).append(p)
        self._own = {}
        self._ty = {}
        self.takes = set()
        self.edges = {}
        for p, f in self.fns.items():
            es = set()
            for b, tm in calls(f.body):
                x = self.callees(f, tm)
                es |= x
            for blk in f.body['blocks']:
                tm = blk['t']
                if tm[0] == 'drop' and not blk.get('c'):
                    es |= self.drops(tm[1]['t'])
            self.edges[p] = es
        self.may = set(p for p in self.fns if 'LOCK' in self.edges[p])
        ch = True
        while ch:
            ch = False
            for p in self.fns:
                if p not in self.may and self.edges[p] & self.may:
                    self.may.add(p)
                    ch = True

    def own(self, tid):
        r = self._own.get(tid)
        if r is None:
            r = self._own[tid] = ownsguard(self.F, tid)
        return r

    def mentions(self, tid, seen=None):
        """local types, closures and functions that a type mentions"""
        r = self._ty.get(tid)
        if r is None:
            r = self._ty[tid] = set()
            walk(self.F, tid, r, set())
        return r

    def drops(self, tid):
        out = set()
        for kind, d in self.mentions(tid):
            if kind == 'adt':
                out |= set(self.impls.get(('Drop', d), ()))
        return out

    def callees(self, f, tm):
        fo = tm[1]
        if not (fo[0] == 'const' and fo[1]['c'] == 'fn'):
            return set()
        c = fo[1]['fn']
        res = c.get('res')
        name = (res or c)['def']
        if TAKES.search(name) or TAKES.search(c['def']):
            return {'LOCK'}
        if WAITS.search(name):
            return {'LOCK'}
        if res and res['local'] and res['def'] in self.F.fns:
            out = {res['def']}
            # functions given to a function of the crate
            for a in c.get('args') or []:
                out |= {d for k, d in self.mentions(a) if k in ('closure', 'fn')}
            return out
        if res is None and c['def'] in self.F.fns and self.F.fns[c['def']].body is not None and not c.get('trait'):
            return {c['def']}
        out = set()
        kinds = set(IMPLICIT)
        tr = (c.get('trait') or '')
        tr = (tr.get('def') if isinstance(tr, dict) else tr) or ''
        tr = tr.split('::')[-1]
        if re.search(r'display|debug|to_string|fmt|ToString|panic|unwrap|expect', c['def']):
            kinds |= set(PRINT)
        if tr in IMPLICIT and tr not in ('Iterator', 'DoubleEndedIterator', 'IntoIterator', 'FromIterator', 'Extend', 'From', 'Into'):
            kinds = {tr}
        tys = list(c.get('args') or []) + [a[1]['t'] for a in tm[2] if a[0] in ('copy', 'move')]
        for a in tys:
            for k, d in self.mentions(a):
                if k in ('closure', 'fn'):
                    out.add(d)
                elif k == 'adt':
                    for kd in kinds:
                        if kd in ('Clone', 'Default') and 'clone' not in c['def'] and 'default' not in c['def'] and 'cloned' not in c['def']:
                            continue
                        if (kd, d) in self.impls:
                            out |= set(self.impls[(kd, d)])
                elif k == 'param' and tr:
                    pass
        return out

    # ------------------------------------------------------------ guards alive at calls
    def nested(self, p):
        """[(span, what is called)] where a lock may be taken while a local owns a guard"""
        f = self.fns[p]
        b = f.body
        L = b['locals']
        G = {i for i, ty in enumerate(L) if self.own(ty)}
        if not G:
            return [], []
        init = frozenset(i for i in G if 1 <= i <= b['args'])
        state = {0: init}
        work = [0]
        out = {}
        lost = {}
        while work:
            i = work.pop()
            cur = set(state[i])
            blk = b['blocks'][i]

            def moved(o):
                if o[0] == 'move' and o[1]['l'] in G and self.own(o[1]['t']):
                    cur.discard(o[1]['l'])

            for s in blk['s']:
                if s[0] == 'assign':
                    for o in operands(s[2]):
                        moved(o)
                    if s[1]['l'] in G and self.own(s[1]['t']):
                        cur.add(s[1]['l'])
                elif s[0] == 'dead':
                    cur.discard(s[1])
            tm = blk['t']
            k = tm[0]
            succ = []
            if k == 'goto':
                succ = [tm[1]]
            elif k == 'switch':
                succ = [x for _, x in tm[2]] + [tm[3]]
            elif k == 'assert':
                succ = [tm[4]]
            elif k == 'drop':
                if tm[1]['l'] in G:
                    cur.discard(tm[1]['l'])
                succ = [tm[2]]
                cs = self.drops(tm[1]['t'])
                if cur and cs & self.may:
                    out[i] = (span(tm), 'drop')
            elif k == 'call':
                for o in tm[2]:
                    moved(o)
                cs = self.callees(f, tm)
                if cur and ('LOCK' in cs or cs & self.may):
                    out[i] = (span(tm), callee_name(tm))
                if any(o[0] in ('move', 'copy') and self.own(o[1]['t']) for o in tm[2]) and FORGETS.search(callee_name(tm)):
                    lost[i] = (span(tm), callee_name(tm))
                if tm[3]['l'] in G:
                    cur.add(tm[3]['l'])
                succ = [tm[4]] if tm[4] is not None else []
            for s in succ:
                if s is None or b['blocks'][s].get('c'):
                    continue
                old = state.get(s)
                new = frozenset(cur) if old is None else old | cur
                if new != old:
                    state[s] = new
                    work.append(s)
        return sorted(set(out.values())), sorted(set(lost.values()))


def contract_fn(F, f):
    return CONTRACT.match(f.path) is not None or f.d['span'].startswith('/')


def calls(body):
    for i, blk in enumerate(body['blocks']):
        if blk['t'][0] == 'call' and not blk.get('c'):
            yield i, blk['t']


def operands(r):
    for x in r[1:]:
        if isinstance(x, list) and x and x[0] in ('copy', 'move'):
            yield x
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, list) and y and y[0] in ('copy', 'move') and len(y) > 1 and isinstance(y[1], dict):
                    yield y


def span(tm):
    return tm[-1] if isinstance(tm[-1], str) else ''


def callee_name(tm):
    fo = tm[1]
    if fo[0] == 'const' and fo[1]['c'] == 'fn':
        c = fo[1]['fn']
        return (c.get('res') or c)['def']
    return 'a function value'


def walk(F, tid, out, seen):
    if tid is None or tid in seen or not isinstance(tid, int):
        return
    seen.add(tid)
    ty = F.types[tid]
    k = ty['k']
    if k == 'adt':
        a = F.adts.get(ty['def'])
        if a is not None and a['local']:
            out.add(('adt', ty['def']))
        for x in ty.get('args') or []:
            walk(F, x, out, seen)
    elif k == 'closure':
        out.add(('closure', ty['def']))
        for x in ty.get('upvars') or []:
            walk(F, x, out, seen)
    elif k == 'fndef':
        fn = ty.get('fn') or {}
        d = (fn.get('res') or {}).get('def') or fn.get('def') or ty.get('def')
        if d in F.fns:
            out.add(('fn', d))
    elif k == 'tuple':
        for x in ty['tys']:
            walk(F, x, out, seen)
    elif k in ('ref', 'ptr', 'array', 'slice'):
        walk(F, ty.get('ty'), out, seen)
