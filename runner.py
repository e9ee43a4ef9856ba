import json
import os
import re
import sys
import time
from engine import facts as fx
from engine import mir, contract
import obligations
import static_checks

VERIF = os.path.dirname(os.path.abspath(__file__))


def known():
    p = os.path.join(VERIF, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: '):
                d = {}
                head, _, text = l[9:].partition(' :: ')
                for kv in head.split(' '):
                    k, _, v = kv.partition('=')
                    d[k] = v
                d['text'] = text
                out.append(d)
    return out


def listed(kf, o, f):
    """the known finding that covers a failure of contract o"""
    return next((k for k in kf if k.get('contract') == o['fn'] and k.get('label', '').replace('_', ' ') in f['what']), None)


def run(a):
    pid = a.property
    t0 = time.time()
    table = obligations.OBLIGATIONS[pid]() if pid in obligations.OBLIGATIONS else []
    extra, features = static_checks.CHECKS.get(pid, (None, ()))
    if a.tier != 'thorough':
        table = [o for o in table if not o.get('deep')]
    if a.only:
        table = [o for o in table if a.only in o['fn'] + '/' + (o['shape'].name if o['shape'] else '')]
    mod = pid.lower()
    spec = [os.path.join(VERIF, 'spec', f + '.rs') for f in ['kcommon'] + obligations.EXTRA.get(pid, []) + [mod]] if table else []
    ev = dict(property=pid, tier=a.tier, started=time.strftime('%Y-%m-%dT%H:%M:%S'))
    out = os.path.join(fx.TARGET, 'facts-%s.json' % pid)
    try:
        fx.extract(spec, out, features=features)
    except fx.BuildError as e:
        print('NOT DECIDED property=%s: the crate together with its contracts does not compile:\n%s' % (pid, e))
        finish(pid, a, [], [], t0, note='the crate together with the contract file does not compile')
        return 0
    F = mir.Facts(out)
    tb = time.time() - t0
    for o in table:
        o['path'] = 'crate::%s::%s' % (o.get('mod', mod), o['fn'])
        if o['path'] not in F.fns:
            raise SystemExit('no contract ' + o['path'])
    budget = 700 if a.tier != 'thorough' else 6000
    kf = [k for k in known() if k.get('property') == pid]
    res = contract.run_all(F, table, jobs=a.jobs, total=budget - tb, secs=250 if a.tier != 'thorough' else 2500,
                           enough=lambda o, r: any(listed(kf, o, f) is None for f in r.get('fails', [])))
    if extra:
        for o, r in extra(F, table, res):
            if not a.only or a.only in o['fn']:
                table.append(o)
                res.append(r)
    return finish(pid, a, table, res, t0, F)


def where(F, visited):
    """the crate functions that were analysed"""
    out = []
    for p in sorted(visited):
        if p in F.fns and not re.search(r'crate::(kcommon|ikref|c\d\d)::', p):
            out.append('%s (%s)' % (p, F.fns[p].d['span']))
    return out


def finish(pid, a, table, res, t0, F=None, note=None):
    viol = []
    kf = [k for k in known() if k.get('property') == pid]
    und = []
    rows = []
    visited = {}
    for o, r in zip(table, res):
        name = (o['mod'].upper() + ' ' if o.get('mod', pid.lower()) != pid.lower() else '') + o['fn'] + (' on ' + o['shape'].name if o['shape'] else '') + (' ' + str({k: v for k, v in o['params'].items() if not callable(v)}) if o['params'] else '')
        row = dict(obligation=name, status=r['status'], obligations=r.get('obls', 0), seconds=r.get('secs'))
        if r.get('note'):
            row['note'] = r['note']
        if o.get('locks') == 'turns':
            row['the_other_request_came'] = bool(r.get('came'))
        if r['status'] == 'undecided':
            row['why'] = r['why']
            und.append(name)
        if a.v:
            print(r['status'].upper(), name, r.get('secs'), 'obls', r.get('obls'), r.get('why', ''), *(['came'] if r.get('came') else []))
            if r.get('unknowns'):
                print('    unmodelled:', r['unknowns'])
            if r['status'] == 'ok' and not r.get('returns'):
                print('    VACUOUS')
        for f in r.get('fails', []):
            k = listed(kf, o, f)
            if k:
                k['hit'] = True
                continue
            viol.append((o, name, f, r))
        if r['status'] == 'violation':
            row['fails'] = [dict(f) for f in r['fails']]
        rows.append(row)
        for k, v in r.get('visited', {}).items():
            visited[k] = visited.get(k, 0) + v
    for k in kf:
        if k.get('hit'):
            print('KNOWN-FINDING: property=%s %s' % (pid, k['text']))
    code = 0
    if viol:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        rp = os.path.join(VERIF, 'evidence', '%s-violation.txt' % pid)
        shown = 0
        with open(rp, 'w') as w:
            for o, name, f, r in viol:
                s = 'contract %s\n  %s\n' % (name, f['what'])
                s += '  on the path: %s\n' % (f.get('path') or '(every path)')
                if 'left' in f:
                    s += '  value 1: %s\n  value 2: %s\n' % (f['left'], f['right'])
                fns = [x for x in where(F, r.get('visited', {}))]
                s += '  functions analysed: %s\n' % ', '.join(fns[:40])
                s += '  again: python3 %s/check.py %s -v --only %s\n' % (VERIF, pid, o['fn'])
                w.write(s + '\n')
                if shown < 3:
                    print(s)
                shown += 1
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        code = 1
    ok = [r for r in res if r['status'] == 'ok']
    print('%s: %d obligations hold, %d not decided, %d violated; %.1f s' % (
        pid, len(ok), len(und), len(set(id(v[3]) for v in viol)), time.time() - t0))
    write_evidence(pid, a, table, res, rows, und, visited, F, t0, note, len(viol), [k['text'] for k in kf if k.get('hit')])
    return code


ASSUME = [
    'reals: floating point arithmetic is read as exact real arithmetic (NaN is kept apart: every comparison may be unordered)',
    'dependencies (std, nalgebra, simba, urdf-rs) behave as the models of engine/models.py describe them',
    'locks: a contract runs without interference of other threads, except for the contracts of C34 (C19 and C20 cover locking)',
]
HOW = ('static analysis of the type-checked MIR of the crate as it is in the working tree: an abstract interpreter whose '
       'domain are canonical gated value graphs (decision diagrams over the conditions the code tests, one node per distinct '
       'value, joined at every control-flow join) computes what each operation returns, stores and refuses for all values of '
       'its inputs at once, and compares it with a contract written in Rust; no path of the program is run or handed to a solver. '
       'Robot shapes (number of nodes, tree and mimic relations) and vector lengths are the ones listed, everything else is unbounded.')


def write_evidence(pid, a, table, res, rows, und, visited, F, t0, note, bad, found=()):
    fns = where(F, visited) if F is not None else []
    n = sum(r.get('obls', 0) for r in res)
    good = sum(r.get('obls', 0) for r in res if r['status'] == 'ok')
    cov = dict(explanation=HOW, contracts=len(table), contracts_holding=sum(r['status'] == 'ok' for r in res),
               contracts_not_decided=len(und), obligations=n, discharged=good,
               calls_analysed=sum(r.get('calls', 0) for r in res),
               functions_analysed=len(fns), functions=fns,
               rule=(table and (obligations.DOC.get(pid) or '')) or '', results=rows[:400])
    if note:
        cov['note'] = note
    if found:
        cov['known_findings'] = list(found)
    e = dict(property=pid, tier='thorough' if a.tier == 'thorough' else 'quick', seed=int(os.environ.get('VERIF_SEED', '1')),
             level='other', coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 2),
             violations=bad)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as w:
        json.dump(e, w, indent=1)
