"""Runs the contract functions of /verif/spec on the abstract interpreter and turns the recorded
obligations into verdicts."""
import os
import pickle
import resource
import signal
import sys
import time
import traceback
from . import terms as t, evalr, feas
from .evalr import Ev, St, TRUE, FALSE, BOT, AND, OR, NOT, Undecided, Agg, newid, pack, Obl
from .subst import subst
from .terms import raw


class Arg:
    """how a parameter of a contract function is supplied"""


def seqof(name, n):
    return t.cat(*[('e', raw('param', name, i)) for i in range(n)])


def clip(x, n=1500):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '…'


def arg_value(ev, st, shape, name, tid, spec, built=None):
    """spec: the entry of the obligation for this parameter, or None"""
    ty = ev.F.types[tid]
    if isinstance(spec, tuple) and spec and spec[0] == 'len':
        v = seqof(name, spec[1])
    elif isinstance(spec, bool):
        v = t.const_bool(spec)
    elif isinstance(spec, int):
        v = t.num(spec)
    elif isinstance(spec, str):
        v = raw('str', spec)
    elif isinstance(spec, (list, tuple)) and spec and all(isinstance(i, int) and not isinstance(i, bool) for i in spec) and name.startswith('n'):
        v = shape.seq(spec)
    elif callable(spec):
        v = spec(ev, st, shape)
    elif spec is None and shape is not None and is_nodes(ev, ty):
        v = shape.seq(range(len(shape.nodes)))
    elif spec is None and built is not None and ty['k'] == 'adt' and ty['def'] == 'crate::joint::joint::Joint':
        v = build_joint(ev, st, name, built)
    else:
        v = raw('param', name)
    if ty['k'] == 'ref' and ty['mut']:
        k = newid()
        st.env[('T', k)] = v
        return raw('pt', k)
    if ty['k'] == 'ref' and not ev.freeze(ty['ty']):
        k = newid()
        st.env[('T', k)] = v
        return raw('pt', k)
    return v


def is_nodes(ev, ty):
    if ty['k'] == 'ref':
        u = ev.F.types[ty['ty']]
        if u['k'] == 'slice':
            w = ev.F.types[u['ty']]
            return w['k'] == 'adt' and w['def'].split('::')[-1] == 'Node'
    return False


class Built:
    """a shape whose nodes were made by the crate's own public interface"""

    def __init__(self, shape, nodes):
        self.shape = shape
        self.nodes = shape.nodes
        self.name = shape.name
        self.vals = nodes

    def node(self, i):
        return t.field(self.vals[i], '0', 'Node')

    def nodeval(self, i):
        return self.vals[i]

    def sym(self, i, *what):
        return self.shape.sym(i, *what)

    def seq(self, idxs):
        return t.cat(*[('e', self.vals[i]) for i in idxs])


def call(ev, st, path, **vals):
    fn = ev.F.fns[path]
    body = ev.F.body(fn)
    names = {}
    for nm, pl in body.b['names']:
        if not pl['p'] and 1 <= pl['l'] <= body.args:
            names[pl['l']] = nm
    args = []
    for i in range(1, body.args + 1):
        v = vals[names[i]]
        ty = ev.F.types[body.locals[i]]
        if ty['k'] == 'ref' and not ev.freeze(ty['ty']):
            k = newid()
            st.env[('T', k)] = v
            v = raw('pt', k)
        args.append(v)
    return pack(ev.call_body(st, fn, body, args))


def seqv(xs):
    return t.cat(*[('e', x) for x in xs])


def build_nodes(ev, st, shape, mode):
    n = len(shape.nodes)
    for d in shape.nodes:
        if d.get('master') is not None and d.get('mimic', 'some') == 'none':
            raise Undecided('a mimic relation without parameters cannot be built')
        if d.get('wv') == 'none' or d.get('wt') == 'none':
            raise Undecided('caches that are known to be empty')
    if any(d.get('wt') == 'some' for d in shape.nodes) and mode != 1:
        return None
    leaf = lambda i, *l: shape.heap(shape.node(i), l)
    order, seen = [], set()

    def visit(i):
        if i in seen:
            return
        seen.add(i)
        p = shape.nodes[i].get('parent')
        if p is not None:
            visit(p)
        order.append(i)
    for i in range(n):
        visit(i)
    rel = [(p, c) for p in range(n) for c in shape.children[p]]
    mim = [(m, f) for m in range(n) for f in shape.followers[m]]
    R = range(n)
    out = call(ev, st, 'crate::kcommon::kbuild',
               names=seqv([leaf(i, 'joint', 'name') for i in R]), jts=seqv([leaf(i, 'joint', 'joint_type') for i in R]),
               limits=seqv([leaf(i, 'joint', 'limits') for i in R]),
               o0=seqv([shape.sym(i, 'origin0') for i in R]), o1=seqv([leaf(i, 'joint', 'origin') for i in R]),
               p0=seqv([shape.sym(i, 'position0') for i in R]), p1=seqv([leaf(i, 'joint', 'position') for i in R]),
               v0=seqv([shape.sym(i, 'velocity0') for i in R]), v1=seqv([leaf(i, 'joint', 'velocity') for i in R]),
               links=seqv([leaf(i, 'link') for i in R]), order=seqv([t.num(i) for i in order]),
               pars=seqv([t.num(p) for p, c in rel]), kids=seqv([t.num(c) for p, c in rel]),
               masters=seqv([t.num(m) for m, f in mim]), fols=seqv([t.num(f) for m, f in mim]),
               mimics=seqv([t.unsome(leaf(f, 'mimic')) for m, f in mim]), mode=t.num(mode))
    vals = [t.index(out, t.num(i)) for i in R]
    return Built(shape, vals)


def build_joint(ev, st, name, mode):
    p = lambda w: raw('param', name, w)
    return call(ev, st, 'crate::kcommon::kjoint', name=p('name'), jt=p('joint_type'), limits=p('limits'), o0=p('origin0'), o1=p('origin'),
                p0=p('position0'), p1=p('position'), v=p('velocity'), mode=t.num(mode))


MODES = (0, 1, 2, 3, 4)


def run_contract(facts, path, shape=None, params=None, locks=False):
    """-> dict(status=ok/violation/undecided, ...)"""
    t.UNMODELLED.clear()
    t.UNMODELLED.update(facts.unmodelled)
    res, new = run_once(facts, path, shape, params, locks)
    if not new:
        return res
    # private state that the analysis does not know: it starts as the crate itself makes it
    first = res
    rs = []
    for m in MODES:
        try:
            r, _ = run_once(facts, path, shape, params, locks, m)
        except Undecided as e:
            r = dict(first, status='undecided', why=first['why'] + '; robots made by the public interface: %s' % e)
        if r is not None:
            for f in r.get('fails', []):
                f['what'] += ' (robot made by the public interface, history %d)' % m
            rs.append(r)
            if r['status'] != 'ok':
                break
    if not rs:
        return first
    for st in ('violation', 'undecided', 'ok'):
        for r in rs:
            if r['status'] == st:
                return r
    return first


def run_once(facts, path, shape, params, locks, mode=None):
    params = params or {}
    ev = Ev(facts, heap=shape.heap if shape is not None and mode is None else nohp)
    ev.turns = locks == 'turns'
    sizes = [len(shape.nodes)] if shape is not None else []
    sizes += [v[1] for v in params.values() if isinstance(v, tuple) and v[:1] == ('len',)]
    ev.MAXITER = max([ev.MAXITER] + [n + 8 for n in sizes])
    if locks:
        ev.locks = {}
    st = St({}, TRUE)
    ev.init_statics(st)
    fn = facts.fns[path]
    body = facts.body(fn)
    names = {}
    for nm, pl in body.b['names']:
        if not pl['p'] and 1 <= pl['l'] <= body.args:
            names[pl['l']] = nm
    if mode is not None and shape is not None:
        shape = build_nodes(ev, st, shape, mode)
        if shape is None:
            return None, False
    try:
        args = []
        for i in range(1, body.args + 1):
            nm = names.get(i, 'a%d' % i)
            args.append(arg_value(ev, st, shape, nm, body.locals[i], params.get(nm), mode))
        ev.call_body(st, fn, body, args)
    except Undecided as e:
        return dict(status='undecided', why='not analysed: %s' % e, at=[p for p, _ in ev.stack][-3:], **stats(ev)), isinstance(e, t.Unmodelled)
    try:
        return judge(ev, st), False
    except feas.TooMany:
        return dict(status='undecided', why='too many paths', **stats(ev)), False


def nohp(node, leaf):
    raise Undecided('no heap')


def stats(ev):
    return dict(visited=dict((k, v) for k, v in ev.visited.items()), calls=ev.calls, obls=ev.obls if ev.locks is None or ev.turns else ev.locks.get('taken', 0),
                unknowns=dict(ev.unknowns), nested=sorted(ev.nested), came=getattr(ev, 'arrived', False))


def judge(ev, st):
    allowed = FALSE
    for p, why in ev.panics:
        if isinstance(why, Obl) and why.kind == 'may':
            allowed = OR(allowed, p)
    out = []
    und = []
    for p, why in ev.panics:
        if ev.locks is not None and ev.turns == (isinstance(why, Obl) and why.kind == 'lock'):
            continue
        if isinstance(why, Obl):
            if why.kind == 'may':
                continue
            if why.kind == 'lock':
                r = check_reach(p, why.label)
            elif why.kind == 'same':
                r = check_same(p, why)
            else:
                r = check_reach(p, 'obligation "%s" can be false' % why.label)
        else:
            q = AND(p, NOT(allowed))
            if q is FALSE:
                continue
            r = check_reach(q, 'panic: %s' % (why,))
        if r is None:
            continue
        (und if r.get('und') else out).append(r)
    s = stats(ev)
    if out:
        return dict(status='violation', fails=out, **s)
    if und:
        return dict(status='undecided', why='; '.join(u['what'] + ' — ' + u['why'] for u in und[:3]), **s)
    if allowed is not FALSE and (ev.locks is None or ev.turns):
        # a panic is required exactly under the condition
        r = AND(st.pc, allowed)
        for c, leaf in feas.cubes(r, lambda l: l is TRUE):
            if feas.feasible(c):
                return dict(status='violation', fails=[dict(what='returns although it has to panic', path=pathstr(c))], **s)
    return dict(status='ok', returns=st.pc is not FALSE, **s)


def tainted(c):
    return any(v.term.flags & 1 for v, _ in c)


def pathstr(c):
    return '; '.join('%s = %s' % (clip(v.term, 300), d) for v, d in c)[:3000]


def check_reach(p, what):
    und = None
    p = evalr.drop_bot(p)
    for c, leaf in feas.cubes(p, lambda l: l is TRUE or l is not FALSE):
        if not feas.feasible(c):
            continue
        if tainted(c) or leaf.flags & 1:
            und = dict(und=True, what=what, why='depends on a value that the analysis does not model', path=pathstr(c))
            continue
        return dict(what=what, path=pathstr(c))
    return und


def nef(x, y):
    if x is y:
        return TRUE
    return raw('ne', x, y)


def check_same(p, o):
    a, b = o.a, o.b
    if a is b:
        return None
    d = t.lift('ne', nef, a, b)
    e = t.mask(p, d)
    if e is TRUE or e is BOT:
        return None
    d = t.ite(t.as_cond(p), d, BOT)     # with every condition of the path
    und = None
    for c, leaf in feas.cubes(d, lambda l: l.op == 'ne', settled=lambda l, c: agree(l.args[0], l.args[1], c)):
        if not feas.feasible(c):
            continue
        x, y = leaf.args
        if agree(x, y, c):
            continue
        e = t.eq(x, y)
        what = '"%s": the two values differ' % o.label
        r = dict(what=what, path=pathstr(c), left=clip(x), right=clip(y))
        fl = (x.flags | y.flags) & 1
        if tainted(c) or fl or e is TRUE:
            r.update(und=True, why='depends on a value that the analysis does not model')
            und = r
            continue
        return r
    return und


def agree(x, y, cube):
    for a, b in feas.equalities(cube):
        x, y = subst(x, a, b), subst(y, a, b)
        if x is y:
            return True
    if not x.isT or not y.isT:
        d = t.lift('ne', nef, x, y)
        return d is TRUE
    return False


# ---------------------------------------------------------------- process isolation
def isolated(facts, ob, mem=6 << 30, secs=300):
    """run one obligation in a forked process; returns (pid, fd)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            child(facts, ob, mem, secs, r, w)
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def child(facts, ob, mem, secs, r, w):
    if True:
        os.close(r)
        try:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            signal.alarm(secs)
            t0 = time.time()
            try:
                res = run_contract(facts, ob['path'], ob.get('shape'), ob.get('params'), ob.get('locks', False))
            except MemoryError:
                res = dict(status='undecided', why='memory limit')
            except RecursionError:
                res = dict(status='undecided', why='recursion limit')
            except Exception:
                res = dict(status='undecided', why='analyser: ' + traceback.format_exc(limit=-4))
            res['secs'] = round(time.time() - t0, 2)
            data = pickle.dumps(res)
        except BaseException:
            data = pickle.dumps(dict(status='undecided', why='analyser failed'))
        with os.fdopen(w, 'wb') as f:
            f.write(data)


def run_all(facts, obs, jobs=8, mem=7 << 29, secs=300, total=None, enough=None, grace=20):
    """obs: list of dicts; returns list of results in order.  After enough(obligation, result) was true for three results
    (violations that will be reported anyway), or for one and two minutes have passed, nothing new is started, and what
    runs is given a little time to end"""
    import gc
    import select
    import signal
    found, stop, first = 0, None, None
    gc.collect()
    gc.freeze()     # the children share the facts
    res = [None] * len(obs)
    running = {}
    t0 = time.time()
    nxt = 0
    bufs = {}
    while nxt < len(obs) or running:
        if stop is None and (found >= 3 or found and time.time() - first > 6 * grace):
            stop = time.time() + grace
        if stop is not None and time.time() > stop:
            for pid, i in running.values():
                try:
                    os.kill(pid, signal.SIGKILL)
                except OSError:
                    pass
        while nxt < len(obs) and len(running) < jobs:
            if stop is not None:
                res[nxt] = dict(status='undecided', why='not analysed any more, violations were found before')
                nxt += 1
                continue
            if total is not None and time.time() - t0 > total:
                res[nxt] = dict(status='undecided', why='time budget of the check used up')
                nxt += 1
                continue
            left = secs if total is None else max(1, min(secs, int(total - (time.time() - t0)) + 1))
            pid, fd = isolated(facts, obs[nxt], mem, left)
            running[fd] = (pid, nxt)
            bufs[fd] = b''
            nxt += 1
        if not running:
            continue
        rd, _, _ = select.select(list(running), [], [], 5)
        for fd in rd:
            x = os.read(fd, 1 << 16)
            if x:
                bufs[fd] += x
                continue
            os.close(fd)
            pid, i = running.pop(fd)
            os.waitpid(pid, 0)
            try:
                res[i] = pickle.loads(bufs.pop(fd))
            except Exception:
                res[i] = dict(status='undecided', why='time or memory limit')
            if enough is not None and enough(obs[i], res[i]):
                found += 1
                first = first or time.time()
    return res
