"""Checks that are not contract functions: serialization, locking, visibility."""
import itertools
import time
from engine import evalr, mir, terms as t
from engine import serde_models as sm
from engine.evalr import Ev, St, TRUE, Undecided, pack
from engine.terms import raw


def row(name, status, fails=None, why=None, ev=None, obls=1):
    r = dict(status=status, obls=obls, fails=fails or [], calls=ev.calls if ev else 0, visited=dict(ev.visited) if ev else {})
    if why:
        r['why'] = why
    return dict(fn=name, shape=None, params={}), r


FLAGS = ['position_x', 'position_y', 'position_z', 'rotation_x', 'rotation_y', 'rotation_z']
FIELDS = FLAGS + ['ignored_joint_names']


def nohp(n, l):
    raise Undecided('no heap')


def read_back(F, fn, fields, form, ident):
    """Constraints as deserialized from the given fields"""
    ev = Ev(F, heap=nohp)
    ev.serde = sm.Input(fields, form, ident, FIELDS)
    st = St({}, TRUE)
    v = ev.call_body(st, fn, F.body(fn), [raw('serde', 'input')])
    v = pack(v)
    bad = [why for p, why in ev.panics]
    return ev, st, v, bad


def c26(F, table, res):
    out = []
    fns = [f for f in F.fns.values() if f.name == 'deserialize' and (f.d.get('impltrait') or {}).get('def', '').endswith('de::Deserialize')
           and F.tstr(f.d['implself']).split('::')[-1] == 'Constraints']
    if len(fns) != 1:
        return [row('Deserialize for Constraints', 'violation', [dict(what='constraints cannot be deserialized with the feature on', path='')])]
    fn = fns[0]
    given = {n: raw('param', 'given', n) for n in FIELDS}
    default = dict({n: TRUE for n in FLAGS}, ignored_joint_names=t.EMPTYSEQ)
    cases = []
    for k in range(2 ** len(FIELDS)):
        cases.append(([n for i, n in enumerate(FIELDS) if k >> i & 1], 'map', 'str'))
    cases += [(list(reversed(FIELDS)), 'map', 'str'), (FIELDS, 'map', 'bytes'), (FIELDS, 'map', 'u64'), (['rotation_y', 'ignored_joint_names', 'position_z'], 'map', 'str'),
              (['rotation_y', 'ignored_joint_names', 'position_z'], 'map', 'bytes'), (['rotation_y', 'ignored_joint_names', 'position_z'], 'map', 'u64')]
    for k in range(len(FIELDS) + 1):
        cases.append((FIELDS[:k], 'seq', 'str'))
    groups = {}
    for names, form, ident in cases:
        g = '%s of fields named by %s' % (form, ident) if form == 'map' else 'sequence'
        rec = groups.setdefault(g, dict(n=0, fails=[], und=[], ev=None, calls=0))
        rec['n'] += 1
        try:
            ev, st, v, bad = read_back(F, fn, [(n, given[n]) for n in names], form, ident)
        except Undecided as e:
            rec['und'].append('%s: %s' % (names, e))
            continue
        rec['ev'] = ev
        rec['calls'] += ev.calls
        where = 'Deserialize for Constraints (%s) given %s' % (fn.d['span'], ', '.join(names) or 'nothing')
        if bad or st.pc is not TRUE:
            rec['fails'].append(dict(what='reading constraints panics', path=where))
            continue
        for f in FIELDS:
            want = given[f] if f in names else default[f]
            got = t.lift(('okfield', f), lambda x: t.raw('none') if not (x.op == 'ctor' and x.args[0] == 'Ok') else t.field(x.args[1], f, 'Constraints'), v)
            if got is not want:
                rec['fails'].append(dict(what='field %s is not %s' % (f, 'the given one' if f in names else 'the default'), path=where,
                                         left=repr(got)[:300], right=repr(want)))
    for g, rec in groups.items():
        status = 'violation' if rec['fails'] else 'undecided' if rec['und'] else 'ok'
        a, r = row('read ' + g, status, rec['fails'][:5], '; '.join(rec['und'][:2]), rec['ev'], rec['n'] * len(FIELDS))
        r['calls'] = rec['calls']
        r['returns'] = True
        out.append((a, r))
    # what is written is what is read
    ser = [f for f in F.fns.values() if f.name == 'serialize' and (f.d.get('impltrait') or {}).get('def', '').endswith('ser::Serialize')
           and F.tstr(f.d['implself']).split('::')[-1] == 'Constraints']
    if len(ser) == 1:
        ev = Ev(F, heap=nohp)
        st = St({}, TRUE)
        me = t.struct('Constraints', [(n, given[n]) for n in FIELDS])
        try:
            ev.call_body(st, ser[0], F.body(ser[0]), [me, raw('serde', 'output')])
            w = st.env.get(('T', 'serdeout'), t.EMPTYSEQ)
            fails = []
            if w.isT and w.op == 'cat' and all(k == 'e' for k in w.args[0]):
                d = {}
                for e in w.args[1:]:
                    d[repr(t.field(e, 'name', 'entry'))] = t.field(e, 'value', 'entry')
                for n in FIELDS:
                    got = d.get(repr(raw('str', n)))
                    if got is not given[n]:
                        fails.append(dict(what='field %s is not written as it is' % n, path='Serialize for Constraints (%s)' % ser[0].d['span'],
                                          left=repr(got), right=repr(given[n])))
                a, r = row('write', 'violation' if fails else 'ok', fails, None, ev, len(FIELDS))
            else:
                a, r = row('write', 'undecided', why='written fields are not a plain list', ev=ev)
        except Undecided as e:
            a, r = row('write', 'undecided', why=str(e), ev=ev)
        r['returns'] = True
        out.append((a, r))
    return out


def c19(F, table, res):
    """every function of the crate: no lock is taken while a guard may be alive, except at the places whose order the
    contracts have decided; no guard is lost"""
    from engine import locks
    L = locks.Locks(F)
    seen = {}
    for o, r in zip(table, res):
        if r['status'] == 'ok':
            for p, n in r.get('visited', {}).items():
                seen[p] = seen.get(p, 0) + n
    out = []
    fails, lost, sites, dec = [], [], 0, []
    open_ = any(r['status'] == 'undecided' for r in res)      # a contract without answer may be the one that decides a site
    for p in sorted(L.fns):
        nest, gone = L.nested(p)
        f = L.fns[p]
        sites += sum(1 for _ in locks.calls(f.body))
        for sp, what in nest:
            if p in seen:
                dec.append('%s at %s calls %s' % (p, sp, what))
            else:
                fails.append(dict(what='%s may lock a node while it holds the lock of one, through %s' % (p, what), path='%s, call at %s' % (p, sp)))
        for sp, what in gone:
            lost.append(dict(what='%s never releases a lock: %s' % (p, what), path='%s, call at %s' % (p, sp)))
    if fails and open_:
        a, r = row('nested locks in all functions', 'undecided', why='; '.join(x['what'] for x in fails[:3]) + ' - left to contracts without answer', obls=sites)
    else:
        a, r = row('nested locks in all functions', 'violation' if fails else 'ok', fails, obls=sites)
    r['visited'] = {p: 1 for p in L.fns}
    r['returns'] = True
    r['note'] = 'functions that may lock: %d of %d; nested sites decided by the contracts: %s' % (len(L.may), len(L.fns), '; '.join(dec))
    out.append((a, r))
    a, r = row('guards that are never released', 'violation' if lost else 'ok', lost, obls=sites)
    r['returns'] = True
    out.append((a, r))
    return out


def c20(F, table, res):
    """what public signatures and fields give away"""
    from engine import api, locks
    A = api.Api(F)
    out = []
    # no unsafe code
    fails = [dict(what='unsafe code', path=s) for s in F.unsafes if not s.startswith('/')]
    fails += [dict(what='unsafe function %s' % p, path=f.d['span']) for p, f in A.fns.items() if f.d['unsafe']]
    out.append(row('no unsafe code', 'violation' if fails else 'ok', fails, obls=len(A.fns)))
    # return types of public functions
    fails = []
    n = 0
    for p, f in sorted(A.fns.items()):
        if not f.d['exported'] or f.d['kind'] == 'Closure' or '{closure' in p:
            continue
        n += 1
        b = f.body
        args = b['locals'][1:b['args'] + 1]
        shared = any(A.handle_ty(x) for x in args)
        for why in A.leaks(b['locals'][0], False):
            if why.startswith('mutable access') and not shared:
                continue        # of something that the caller owns
            if ' a RefMut' in why or why.startswith('a Cell') or why.startswith('a RefCell'):
                pass
            fails.append(dict(what='%s hands out %s' % (p, why), path=f.d['span']))
    out.append(row('results of public functions', 'violation' if fails else 'ok', fails, obls=n))
    # public fields
    fails = []
    n = 0
    for d, a in sorted(F.adts.items()):
        if not a['local'] or not a['exported'] or a['span'].startswith('/') or A.nodeimpl(d):
            continue
        for v in a['variants']:
            for fl in v['fields']:
                n += 1
                if not fl['pub'] and a['kind'] != 'enum':
                    continue
                for why in A.leaks(fl['ty'], False):
                    fails.append(dict(what='the public field %s of %s is %s' % (fl['name'], d, why), path=a['span']))
                # state with a setter of its own: numbers, poses and velocities of joints, poses of link parts
                if d in A.state and a['kind'] == 'struct' and has_setter(A, d, fl['name']) and fl['ty'] in state_types(A, d):
                    fails.append(dict(what='%s of %s is a public field although it has a setter' % (fl['name'], d), path=a['span']))
    out.append(row('public fields', 'violation' if fails else 'ok', fails, obls=n))
    # data that can be changed through a shared reference
    fails = []
    n = 0
    for d in sorted(A.state):
        a = F.adts[d]
        if A.nodeimpl(d):
            continue
        for v in a['variants']:
            for fl in v['fields']:
                n += 1
                ty = F.types[fl['ty']]
                if cellish(F, fl['ty']) and not cache(F, fl['ty']):
                    fails.append(dict(what='%s of %s can be changed through a shared reference' % (fl['name'], d), path=a['span']))
    out.append(row('state behind shared references', 'violation' if fails else 'ok', fails, obls=n))
    # functions of the user that get mutable access
    fails = []
    n = 0
    for p, f in sorted(A.fns.items()):
        for b, tm in locks.calls(f.body):
            fo = tm[1]
            c = fo[1]['fn'] if fo[0] == 'const' and fo[1]['c'] == 'fn' else None
            if c is not None and c['name'] not in ('call', 'call_mut', 'call_once'):
                continue
            if c is not None and F.types[locks_self(F, f, tm)]['k'] == 'closure':
                continue
            n += 1
            for o in tm[2]:
                tid = o[1].get('t') if isinstance(o[1], dict) else None
                if tid is None:
                    continue
                for why in A.leaks(tid, False):
                    if locks_self(F, f, tm) == tid:
                        continue
                    fails.append(dict(what='%s gives a function of the caller %s' % (p, why), path='%s, call at %s' % (f.d['span'], tm[-1])))
    out.append(row('functions given by users', 'violation' if fails else 'ok', fails, obls=n))
    for a, r in out:
        r['returns'] = True
    return out


def locks_self(F, f, tm):
    o = tm[2][0] if tm[2] else None
    tid = o[1].get('t') if o is not None and isinstance(o[1], dict) else None
    while tid is not None and F.types[tid]['k'] == 'ref':
        tid = F.types[tid]['ty']
    return tid if tid is not None else f.body['locals'][0]


def state_types(A, d):
    """types of the fields of d that hold numbers, poses or velocities"""
    F = A.F
    out = set()
    for v in F.adts[d]['variants']:
        for fl in v['fields']:
            if numeric(F, fl['ty']):
                out.add(fl['ty'])
    return out


def numeric(F, tid):
    ty = F.types[tid]
    if ty['k'] in ('param', 'float'):
        return True
    if ty['k'] == 'adt':
        last = ty['def'].split('::')[-1]
        if last in ('Isometry', 'Velocity', 'Translation'):
            return True
        if last in ('Option', 'RefCell', 'Cell'):
            return any(numeric(F, a) for a in ty.get('args') or [] if isinstance(a, int))
    return False


def has_setter(A, d, field):
    return any(f.d['exported'] and f.d.get('implself') is not None and A.F.types[f.d['implself']].get('def') == d and f.name.startswith('set_')
               and (field in f.name or f.name[4:] in field) for f in A.fns.values()) or 'cache' in field


def cellish(F, tid):
    from engine.api import CELLS
    ty = F.types[tid]
    if ty['k'] == 'adt':
        if ty['def'].split('::')[-1] in CELLS or 'Atomic' in ty['def'].split('::')[-1]:
            return True
        return any(cellish(F, a) for a in ty.get('args') or [] if isinstance(a, int))
    if ty['k'] == 'tuple':
        return any(cellish(F, a) for a in ty['tys'])
    return False


GEOMETRY = ('Isometry', 'Velocity', 'Unit', 'Translation', 'Rotation', 'Quaternion', 'Matrix', 'Similarity')


def args_of(ty):
    return [x for x in ty.get('args') or [] if isinstance(x, int)]


def parts(F, ty):
    """what a tuple, an array or a struct of the crate consists of"""
    if ty['k'] == 'tuple':
        return ty['tys']
    if ty['k'] == 'array':
        return [ty['ty']]
    a = F.adts.get(ty.get('def')) if ty['k'] == 'adt' else None
    if a is not None and a['local'] and a['kind'] == 'struct' and ty['def'].split('::')[-1] != 'Velocity':
        return [f['ty'] for v in a['variants'] for f in v['fields']]
    return None


def result(F, tid):
    """a pose or a velocity, possibly with what it was computed from"""
    ty = F.types[tid]
    if ty['k'] == 'adt' and ty['def'].split('::')[-1] in GEOMETRY:
        return True
    ps = parts(F, ty)
    return bool(ps) and any(result(F, p) for p in ps)


def kept(F, tid):
    """results that may be absent, and flags and counters: nothing that a setter is needed for"""
    ty = F.types[tid]
    if ty['k'] in ('bool', 'int', 'uint'):
        return True
    if ty['k'] == 'adt' and ty['def'].split('::')[-1] == 'Option':
        return any(result(F, x) or kept(F, x) for x in args_of(ty))
    if ty['k'] == 'adt' and ty['def'].split('::')[-1] in ('RefCell', 'Cell', 'OnceCell'):
        return cache(F, tid)
    ps = parts(F, ty)
    return bool(ps) and all(kept(F, p) for p in ps)


def cache(F, tid):
    """a cell that may be empty: a computed result that is kept"""
    ty = F.types[tid]
    a = args_of(ty)
    if ty['k'] == 'adt' and 'Atomic' in ty['def'].split('::')[-1]:
        return True
    if ty['k'] != 'adt' or ty['def'].split('::')[-1] not in ('RefCell', 'Cell', 'OnceCell') or not a:
        return False
    if ty['def'].split('::')[-1] == 'OnceCell':
        return result(F, a[0]) or kept(F, a[0])
    return kept(F, a[0])


CHECKS = {'C20': (c20, ()), 'C19': (c19, ()), 'C26': (c26, ('serde-serialize',))}
MANIFEST = {
    'C20': ('visibility and type analysis of the public interface, plus trait probes evaluated by abstract interpretation',
            'Every public function, public field and callback of the crate as type-checked; what dependencies allow with the values they get is outside. '
            'A new public function that changes state under a lock is a setter and not judged here.'),
    'C19': ('lock-order analysis: guard ownership and lock order by abstract interpretation of MIR, plus a guard-liveness dataflow and may-lock summaries over all functions',
            'Every library operation is interpreted on the robot shapes listed in the evidence while the guards owned by live locals are tracked; the only nested order accepted is a node '
            'without a mimic master, then one of its followers, and nodes that no other thread can know. Functions that no contract reaches may not lock under a guard at all. '
            'Guards that users hold, and locks inside libraries, are outside.'),
    'C26': ('abstract interpretation of MIR with a model of the serde data format, plus contracts for defaults',
            'Every subset of the fields, presented as a map (names as text, bytes or numbers) or as a sequence, through the derived code of the crate with its serde feature on. '
            'Trusts the models of serde and std in engine/serde_models.py and engine/models.py. The format itself (for example JSON) is not part of the crate.'),
}
