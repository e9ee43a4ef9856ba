"""substitution in canonical terms, renormalising"""
from . import terms as t
from .terms import T, N


def subst(x, a, b, memo=None):
    """x[a := b] for a term a"""
    if memo is None:
        memo = {}
    if x is a:
        return b
    r = memo.get(x.id)
    if r is not None:
        return r
    if not x.isT:
        r = t.mk(x.var, tuple(subst(k, a, b, memo) for k in x.kids))
    elif x.op == 'poly':
        r = t.ZERO
        for m, c in x.args[0]:
            p = t.num(c)
            for f, e in m:
                g = subst(f, a, b, memo)
                for _ in range(abs(e)):
                    p = t.smul(p, g) if e > 0 else t.sdiv(p, g)
            r = t.sadd(r, p)
    elif x.op == 'nc':
        r = t.ZERO
        for w, c in x.args[0]:
            p = t.IDENT
            for f in w:
                p = t.nmul(p, subst(f, a, b, memo))
            r = t.nadd(r, t.nscale(subst(c, a, b, memo), p))
    else:
        args = []
        ch = False
        for y in x.args:
            if isinstance(y, (T, N)):
                z = subst(y, a, b, memo)
                ch = ch or z is not y
                args.append(z)
            else:
                args.append(y)
        if not ch:
            r = x
        elif x.op == 'S' and x.args[0] == 'Isometry':
            r = t.mkiso(args[2], args[3])
        elif x.op == 'ctor':
            r = t.ctor(*args)
        elif x.op == 'cat':
            r = t.cat(*zip(args[0], args[1:]))
        elif any(isinstance(y, N) for y in args):
            r = t.lift(('sub', x.op) + tuple(y if not isinstance(y, (T, N)) else None for y in args),
                       lambda *z: _rb(x.op, args, z), *[y for y in args if isinstance(y, (T, N))])
        else:
            r = t.raw(x.op, *args)
    memo[x.id] = r
    return r


def _rb(op, args, z):
    z = iter(z)
    return t.raw(op, *[next(z) if isinstance(y, (T, N)) else y for y in args])
