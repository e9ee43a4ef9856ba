"""What a user of the crate can reach: types in public signatures, public fields, functions that get called back."""
import re
from .evalr import ownsguard
from .locks import contract_fn, walk, calls

LOCKS = ('Mutex', 'RwLock', 'MutexGuard', 'RwLockReadGuard', 'RwLockWriteGuard', 'MappedMutexGuard')
CELLS = ('RefCell', 'Cell', 'UnsafeCell', 'OnceCell', 'OnceLock', 'LazyCell', 'LazyLock', 'RefMut')


class Api:
    def __init__(self, F):
        self.F = F
        self.fns = {p: f for p, f in F.fns.items() if f.body is not None and not contract_fn(F, f)}
        # types that stand for shared nodes: they own a lock or a guard of one, directly or through other types of the crate
        self._shared = {}
        self.state = self.protected()

    def protected(self):
        """types of the crate that are kept behind a lock"""
        F = self.F
        out = set()
        for ty in F.types:
            if ty['k'] == 'adt' and ty['def'].split('::')[-1] in ('Mutex', 'RwLock'):
                for a in ty.get('args') or []:
                    if isinstance(a, int):
                        w = set()
                        walk(F, a, w, set())
                        out |= {d for k, d in w if k == 'adt' and not self.hidden(d)}
        todo = list(out)
        while todo:
            d = todo.pop()
            a = F.adts.get(d)
            for v in a['variants'] if a else ():
                for f in v['fields']:
                    w = set()
                    walk(F, f['ty'], w, set())
                    for k, x in w:
                        if k == 'adt' and x not in out and not self.handle(x):
                            out.add(x)
                            todo.append(x)
        return out

    def hidden(self, d):
        a = self.F.adts.get(d)
        return a is None or not a['local'] or a['span'].startswith('/')

    def handle(self, d, seen=()):
        """values of the type refer to a node through its lock"""
        if d in self._shared:
            return self._shared[d]
        if d in seen:
            return False
        a = self.F.adts.get(d)
        r = False
        if a is not None and a['local']:
            for v in a['variants']:
                for f in v['fields']:
                    if self.handle_ty(f['ty'], seen + (d,)):
                        r = True
        if not seen:
            self._shared[d] = r
        return r

    def handle_ty(self, tid, seen=()):
        ty = self.F.types[tid]
        k = ty['k']
        if k == 'adt':
            if ty['def'].split('::')[-1] in LOCKS:
                return True
            a = self.F.adts.get(ty['def'])
            if a is not None and a['local']:
                return self.handle(ty['def'], seen)
            return any(self.handle_ty(x, seen) for x in ty.get('args') or [] if isinstance(x, int))
        if k == 'tuple':
            return any(self.handle_ty(x, seen) for x in ty['tys'])
        if k in ('ref', 'ptr', 'slice', 'array'):
            return self.handle_ty(ty['ty'], seen)
        if k == 'closure':
            return any(self.handle_ty(x, seen) for x in ty.get('upvars') or [])
        return False

    def touches(self, tid, seen=None):
        """does the type contain protected data (by value or behind references), not through a handle"""
        w = set()
        walk(self.F, tid, w, set())
        return any(k == 'adt' and d in self.state and not self.handle(d) for k, d in w) or self.raw(tid)

    def raw(self, tid):
        w = set()
        walk(self.F, tid, w, set())
        return any(k == 'adt' and d in self.state and self.nodeimpl(d) for k, d in w)

    def nodeimpl(self, d):
        """the type that is directly behind the lock"""
        return any(ty['k'] == 'adt' and ty['def'].split('::')[-1] in ('Mutex', 'RwLock') and any(
            isinstance(a, int) and self.F.types[a]['k'] == 'adt' and self.F.types[a]['def'] == d for a in ty.get('args') or []) for ty in self.F.types)

    def leaks(self, tid, mut, path='', seen=None):
        """reasons why a public value of the type gives more than reading; mut: the value is behind &mut of a shared handle"""
        seen = set() if seen is None else seen
        ty = self.F.types[tid]
        k = ty['k']
        if (tid, mut) in seen:
            return
        seen.add((tid, mut))
        if k == 'ref':
            yield from self.leaks(ty['ty'], mut or bool(ty['mut']), path + ('&mut ' if ty['mut'] else '&'), seen)
        elif k == 'ptr':
            yield from self.leaks(ty['ty'], mut, path + '*', seen)
        elif k in ('slice', 'array'):
            yield from self.leaks(ty['ty'], mut, path + '[]', seen)
        elif k == 'tuple':
            for x in ty['tys']:
                yield from self.leaks(x, mut, path + '()', seen)
        elif k == 'adt':
            last = ty['def'].split('::')[-1]
            a = self.F.adts.get(ty['def'])
            if last in LOCKS:
                yield 'a %s (%s)' % (last, path + ty['s'])
                return
            if last in CELLS:
                yield 'a %s (%s)' % (last, path + ty['s'])
                return
            if a is not None and a['local']:
                if self.nodeimpl(ty['def']):
                    yield 'what is behind the lock (%s)' % (path + ty['s'])
                    return
                if mut and ty['def'] in self.state and not self.handle(ty['def']):
                    yield 'mutable access to %s' % (path + ty['s'])
                    return
                if a['exported']:
                    for v in a['variants']:
                        for f in v['fields']:
                            if f['pub'] or a['kind'] == 'enum':
                                yield from self.leaks(f['ty'], mut, path + ty['def'].split('::')[-1] + '.' + f['name'] + ': ', seen)
                return
            mu = mut or last in ('IterMut', 'ChunksMut', 'Drain', 'ValuesMut', 'PeekMut')
            for x in ty.get('args') or []:
                if isinstance(x, int):
                    yield from self.leaks(x, mu, path + last + '<', seen)
