"""Which contract functions decide which property, and on which shapes of robots.

An obligation is (contract function, shape, parameters).  A shape fixes which nodes exist, their tree
and mimic relations and the kind of every joint; everything else - positions, velocities, limits,
origins, axes, names, cached values, link data - stays symbolic, so one obligation covers all values
of these at once."""
from engine.shape import Shape, tree

F, R, L = 'Fixed', 'Rotational', 'Linear'


def ob(fn, shape=None, **params):
    return dict(fn=fn, shape=shape, params=params)


def shapes_small():
    return [
        tree('single', [None]),
        tree('pair', [None, 0]),
        tree('fork', [None, 0, 0], [R, F, L]),
        tree('line4', [None, 0, 1, 2], [F, R, L, R]),
        tree('tree5', [None, 0, 1, 1, 0], [R, L, F, R, L]),
        tree('forest', [None, 0, None], [L, R, R]),
    ]


def big(names=None):
    """robots larger than any a local slip would need to show: long lines, deep trees, wide stars, several roots"""
    k = lambda n: [(R, L, F, R, R, L, R)[i % 7] for i in range(n)]
    out = [tree('line9', [None] + list(range(8)), k(9)),
           tree('line13', [None] + list(range(12)), k(13)),
           tree('star10', [None] + [0] * 9, k(10)),
           tree('binary15', [None] + [(i - 1) // 2 for i in range(1, 15)], k(15)),
           tree('hand11', [None, 0, 0, 2, 2, 4, 4, 6, 6, 8, 8], k(11)),
           tree('comb12', [None, 0, 1, 2, 3, 4, 0, 1, 2, 3, 4, 5], k(12)),
           tree('forest10', [None, 0, 1, None, 3, 3, None, 6, 7, 7], k(10))]
    return [s for s in out if names is None or s.name in names]


def huge(n):
    """large robots: what only happens above some size"""
    return [tree('line%d' % n, [None] + list(range(n - 1)), kinds_of(n)), tree('star%d' % n, [None] + [0] * (n - 1), kinds_of(n, 1)),
            tree('binary%d' % n, [None] + [(i - 1) // 2 for i in range(1, n)], kinds_of(n, 2))]


def at_sizes(f):
    """f(shape) -> obligations; 34 nodes in the quick tier, 70 in the thorough one"""
    out = []
    for s in huge(34):
        out += f(s)
    for s in huge(70):
        out += [deep(o) for o in f(s)]
    return out


def movables(s):
    return sum(d['kind'] != F for d in s.nodes)


def all_trees(n):
    """every tree with n nodes listed parents first (as parent lists)"""
    out = [[None]]
    for i in range(1, n):
        out = [p + [j] for p in out for j in range(i)]
    return out


def kinds_of(n, k=0):
    return [(R, L, F, R, R, L, R)[(i + k) % 7] for i in range(n)]


def every_tree(lo, hi):
    """thorough tier: every tree with lo to hi nodes, the kinds of the joints shifting from tree to tree"""
    out = []
    for n in range(lo, hi + 1):
        for k, p in enumerate(all_trees(n)):
            out.append(tree('t%d_%s' % (n, ''.join(str(x) for x in p[1:])), p, kinds_of(n, k)))
    return out


def with_links(s):
    """the same robot with links on some of its nodes"""
    out = Shape(s.name, [dict(d, link=link_of(1, 1) if i % 4 == 0 else link_of(0, 0, True) if i % 4 == 1 else False) for i, d in enumerate(s.nodes)])
    out.children = s.children
    return out


def deep(o):
    return dict(o, deep=True)


OBLIGATIONS = {}
EXTRA = {p: ['ikref'] for p in ('C11', 'C12', 'C13', 'C14')}
DOC = {}


def prop(pid):
    def d(f):
        OBLIGATIONS[pid] = f
        DOC[pid] = f.__doc__
        return f
    return d


@prop('C01')
def c01():
    out = [ob('update_transforms', s) for s in shapes_small()]
    out.append(ob('update_transforms', tree('sub', [None, 0, 1, 1], wt={0: 'some'}), ns=some([1, 2, 3])))
    out += [ob('end_transform', s) for s in (
        tree('single', [None]), tree('pair', [None, 0]), tree('line4', [None, 0, 1, 2], [F, R, L, R]),
        tree('line5', [None, 0, 1, 2, 3], [R, F, L, F, R]), *big(('line9', 'line13')))]
    out += [ob('update_transforms', s) for s in big()]
    for s in (tree('fork', [None, 0, 0], [R, F, L]), tree('tree5', [None, 0, 1, 1, 0], [R, L, F, R, L]), *big(('binary15', 'line9'))):
        out.append(ob('used_chain', with_links(s)))
    out += [ob('moved_node', with_links(tree('tree5', [None, 0, 1, 1, 0], [R, L, F, R, L])), c=c, p=p) for c, p in ((4, 1), (4, 3), (3, 2), (2, 0))]
    out += [ob('used_arm', with_links(s)) for s in (tree('line4', [None, 0, 1, 2], [F, R, L, R]), *big(('line9',)))]
    out += at_sizes(lambda s: [ob('update_transforms', s)] + ([ob('end_transform', s)] if s.name.startswith('line') else []))
    out += [deep(ob('update_transforms', s)) for s in every_tree(2, 6)]
    return out


@prop('C02')
def c02():
    return [ob('local_transform', tree('single', [None])), ob('local_transform', tree('fixed', [None], [F])),
            ob('local_transform', tree('rotational', [None], [R])), ob('local_transform', tree('linear', [None], [L]))]


@prop('C03')
def c03():
    return [ob('joint_position'), ob('joint_velocity'),
            ob('node_position', tree('single', [None])), ob('node_position', tree('fork', [None, 0, 0]))]


@prop('C04')
def c04():
    out = [ob('joint_clamped'), ob('joint_unchecked')]
    for s in (tree('single', [None]), tree('fork', [None, 0, 0])):
        out += [ob('node_clamped', s), ob('node_unchecked', s)]
    return out


@prop('C05')
def c05():
    return [ob('new'), ob('from_inclusive'), ob('valid'), ob('clamp')]


@prop('C06')
def c06():
    two = lambda **k: tree('two', [None, 0], [R, L], **k)
    three = tree('three', [None, 0, 0], [R, L, R])
    free = two(limits='none')
    return [ob('followers', two(), m=('len', 1)), ob('followers', tree('pair', [None, 0]), m=('len', 1)),
            ob('followers', three, m=('len', 2)), *[ob('followers', tree('many%d' % n, [None] + [0] * n, kinds_of(n + 1, 3)), m=('len', n)) for n in (3, 4, 6, 12, 34)],
            ob('followers', tree('scattered', [None, 0, 1, 2, None], [L, R, R, L, R]), m=('len', 4)), ob('direct', tree('pair', [None, None])),
            ob('no_parameters', tree('broken', [None, 0], [R, L], master={1: 0}, mimic={1: 'none'})),
            ob('parameters'), ob('chain_checked', free), ob('node_clamped', free), ob('node_unchecked', free),
            ob('chain_clamped', free), ob('chain_unchecked', free)] + [
                ob(f, free, clamped=c) for f in ('node_stays', 'chain_stays') for c in (True, False)]


@prop('C07')
def c07():
    out = [ob('dof', tree('pair', [None, 0])), ob('dof', tree('open4', [None, 0, 1, 1])), ob('dof', Shape('empty', [])),
           ob('read', Shape('empty', [])), ob('set_checked', Shape('empty', []), v=('len', 0))]
    for kinds, par in (([R], [None]), ([F], [None]), ([F, R, L], [None, 0, 1]), ([R, F, L, F, R], [None, 0, 1, 1, 0]), ([R, R, R, R], [None, 0, 1, 2])):
        s = tree('x'.join(k[0] for k in kinds), par, kinds)
        n = sum(k != F for k in kinds)
        out += [ob('read', s), ob('set_clamped', s, v=('len', n)), ob('set_unchecked', s, v=('len', n)),
                ob('set_checked', s, v=('len', n)), ob('round_trip', s, v=('len', n)), ob('set_back', s, v=('len', n), w=('len', n))]
        out += [ob('wrong_length', s, v=('len', k)) for k in (0, n - 1, n + 1, n + 3) if k >= 0 and k != n]
    for s in big():
        n = sum(d['kind'] != F for d in s.nodes)
        out += [ob('dof', s), ob('read', s), ob('set_clamped', s, v=('len', n)), ob('set_unchecked', s, v=('len', n)),
                ob('set_checked', s, v=('len', n)), ob('round_trip', s, v=('len', n))]
        out += [ob('wrong_length', s, v=('len', k)) for k in (0, n - 1, n + 1, len(s.nodes))]
        out += [ob('read_used', with_links(s))]
        if len(s.nodes) < 11:
            out += [ob('set_used', with_links(s), v=('len', n), w=('len', n))]
    out += at_sizes(lambda s: [ob('dof', s), ob('read', s)] + [ob(f, s, v=('len', movables(s))) for f in ('set_checked', 'set_clamped', 'set_unchecked', 'round_trip')]
                    + [ob('wrong_length', s, v=('len', k)) for k in (movables(s) - 1, movables(s) + 1)])
    for s in every_tree(1, 5):
        n = sum(d['kind'] != F for d in s.nodes)
        out += [deep(o) for o in (ob('read', s), ob('set_clamped', s, v=('len', n)), ob('set_unchecked', s, v=('len', n)), ob('set_checked', s, v=('len', n)), ob('round_trip', s, v=('len', n)))]
    return out


def graphs():
    return [tree('line4', [None, 0, 1, 2]), tree('star', [None, 0, 0, 0]), tree('tree6', [None, 0, 0, 1, 1, 2]),
            tree('forest', [None, 0, None, 2, 2]), tree('shuffled', [2, 0, None, 2, 1])]


@prop('C08')
def c08():
    out = []
    for s in graphs():
        n = len(s.nodes)
        for i in range(n):
            out += [ob('from_root', s, at=i), ob('descendants', s, at=i), ob('ancestors', s, at=i), ob('from_end', s, at=i)]
            for j in range(n):
                if s.name in ('line4', 'shuffled'):
                    out.append(ob('from_end_to_root', s, at=i, to=j))
        out.append(ob('from_nodes', s))
    for s in (tree('single', [None]), tree('four', [None, 0, 0, 1]), Shape('empty', [])):
        out += [ob('find', s), ob('links', s)]
    out += [ob('links', tree('some', [None, 0, 0], link=[True, False, True]))]
    for s in big():
        n = len(s.nodes)
        out += [ob('from_root', s, at=0), ob('descendants', s, at=0), ob('from_end', s, at=n - 1), ob('ancestors', s, at=n - 1), ob('from_end_to_root', s, at=n - 1, to=0),
                ob('from_root', s, at=2), ob('from_end_to_root', s, at=n - 2, to=1), ob('from_nodes', s), ob('links', s)]
    def large(s):
        n = len(s.nodes)
        return [ob('from_root', s, at=0), ob('descendants', s, at=0), ob('from_end', s, at=n - 1), ob('ancestors', s, at=n - 1),
                ob('from_end_to_root', s, at=n - 1, to=0), ob('from_root', s, at=1), ob('from_nodes', s)]
    out += at_sizes(large)
    out += [ob('find_again', with_links(tree('four', [None, 0, 0, 1]))), ob('links_used', with_links(tree('four', [None, 0, 0, 1]))), ob('links_used', tree('comes', [None, 0, 0], link=False))]
    out += [ob('find', tree('line7', [None] + list(range(6)))), ob('find', tree('star8', [None] + [0] * 7))]
    for s in every_tree(2, 6):
        n = len(s.nodes)
        for i in range(n):
            out += [deep(ob(f, s, at=i)) for f in ('from_root', 'descendants', 'ancestors', 'from_end')]
            if n < 6:
                out += [deep(ob('from_end_to_root', s, at=i, to=j)) for j in range(n)]
    return out


@prop('C09')
def c09():
    out = []
    for s in (tree('forest', [None, 0, 0, None]), tree('line4', [None, 0, 1, 2]), tree('loose', [None, None, None])):
        n = len(s.nodes)

        def below(a, b):
            while a is not None:
                if a == b:
                    return True
                a = s.nodes[a]['parent']
            return False
        for c in range(n):
            for p in range(n):
                if c != p:
                    out.append(ob('remove_parent', s, c=c, p=p))
                if not below(p, c):
                    out += [ob('set_parent', s, c=c, p=p), ob('set_then_remove', s, c=c, p=p)]
                    out += [ob('set_parent_twice', s, c=c, p=p, q=q) for q in range(n) if not below(q, c)]
    for s in big(('star10', 'binary15', 'forest10')):
        n = len(s.nodes)
        out.append(ob('roots_and_ends', s))
        out += [ob('remove_parent', s, c=n - 2, p=s.nodes[n - 2]['parent']), ob('set_parent', s, c=n - 1, p=1), ob('set_parent_twice', s, c=5, p=1, q=2), ob('remove_parent', s, c=4, p=2)]
    out += at_sizes(lambda s: [ob('roots_and_ends', s), ob('remove_parent', s, c=len(s.nodes) - 2, p=s.nodes[len(s.nodes) - 2]['parent']),
                               ob('set_parent', s, c=len(s.nodes) - 1, p=1)])
    for s in every_tree(2, 4):
        n = len(s.nodes)
        for c in range(n):
            for p in range(n):
                up, k = [], p
                while k is not None:
                    up.append(k)
                    k = s.nodes[k]['parent']
                if c != p:
                    out.append(deep(ob('remove_parent', s, c=c, p=p)))
                if c not in up:
                    out += [deep(ob('set_parent', s, c=c, p=p)), deep(ob('set_then_remove', s, c=c, p=p))]
    for s in graphs():
        out.append(ob('roots_and_ends', s))
    out += [ob('connect2', tree('two', [None, None])), ob('connect4', tree('four', [None] * 4)),
            ob('mimic', tree('three', [None, 0, 1], [R, L, R], limits='none')),
            ob('mimic_again', tree('two', [None, 0], [R, L], limits='none'))]
    return out


@prop('C10')
def c10():
    out = []
    some = lambda i: (lambda ev, st, sh: sh.seq(i))
    for s in (tree('single', [None]), tree('pair', [None, 0]), tree('tree5', [None, 0, 0, 1, 1]), tree('line4', [None, 0, 1, 2]),
              tree('order', [None, 0, 0, 0], children={0: [3, 1, 2]})):
        out.append(ob('clone', s, nx=some([])))
    s = tree('mimics', [None, 0, 0, 1], master={2: 1, 3: 1})
    out.append(ob('clone', s, nx=some([])))
    s = tree('partly', [None, 0, 0, 1, 2], master={1: 4})
    out.append(ob('clone', s, ns=some([0, 1, 3]), nx=some([2, 4])))
    s = tree('backwards', [None, 0, 1], master={1: 2})
    out.append(ob('clone', s, nx=some([])))
    out += [ob('clone', s, nx=some([])) for s in big()]
    out += [ob('used_chain', with_links(s)) for s in (tree('fork', [None, 0, 0], [R, F, L]), tree('tree5', [None, 0, 1, 1, 0], [R, L, F, R, L]))]
    out.append(ob('clone', tree('manymimics', [None, 0, 0, 1, 1, 2, 2, 3], kinds_of(8), master={2: 1, 3: 1, 4: 3, 6: 0, 7: 5}), nx=some([])))
    out.append(ob('clone', tree('reordered', [None, 0, 0, 0, 1, 1, 0, 6], children={0: [6, 3, 1, 2], 1: [5, 4]}), nx=some([])))
    out.append(ob('clone', tree('within', [None, 0, 0, 1, 1, 3, 3, 2], kinds_of(8), master={3: 2, 4: 0, 6: 3}), ns=some([0, 1, 3, 4, 6]), nx=some([2, 5, 7])))
    out += at_sizes(lambda s: [ob('clone', s, nx=some([]))])
    out += [deep(ob('clone', s, nx=some([]))) for s in every_tree(2, 5)]
    s = tree('line', [None, 0, 1], [R, F, L])
    out.append(ob('independent', s, v=('len', 2)))
    out.append(ob('mimics', tree('two', [None, 0], [R, L], limits='none')))
    out.append(ob('empty', Shape('empty', [])))
    out += [ob('serial', tree('line3', [None, 0, 1])), ob('serial', big(('line9',))[0])]
    s = big(('binary15',))[0]
    out.append(ob('independent', s, v=('len', sum(d['kind'] != F for d in s.nodes))))
    return out


def some(idx):
    return lambda ev, st, sh: sh.seq(idx)


@prop('C15')
def c15():
    return [ob('again', with_links(s)) for s in (tree('mixed4', [None, 0, 1, 2], [F, R, L, R]), *big(('line9',)))] + [ob('jacobian', s) for s in (
        tree('empty', []), tree('one', [None]), tree('two', [None, 0]),
        tree('mixed4', [None, 0, 1, 2], [F, R, L, R]), tree('mixed5', [None, 0, 1, 2, 3], [L, F, R, R, F]),
        tree('six', [None, 0, 1, 2, 3, 4], [R, L, R, F, R, R]), *big(('line9', 'line13')),
        tree('line20', [None] + list(range(19)), kinds_of(20)), tree('seven', [None, 0, 1, 2, 3, 4, 5], [R] * 7), tree('tool8', [None, 0, 1, 2, 3, 4, 5, 6], [R] * 7 + [F]),
        tree('based9', [None, 0, 1, 2, 3, 4, 5, 6, 7], [F, R, R, R, F, R, R, R, F]), tree('tip22', [None] + list(range(21)), kinds_of(21) + [F]), tree('slides', [None, 0, 1, 2, 3, 4, 5], [L] * 7), tree('still', [None, 0, 1], [F, F, F]))] + [
            deep(ob('jacobian', tree('l%d_%d' % (n, k), [None] + list(range(n - 1)), [(R, L, F)[k // 3 ** i % 3] for i in range(n)]))) for n in (1, 2, 3, 4, 5) for k in range(3 ** n)]


def link_of(nv, nc, always=False):
    """a link with nv visuals and nc collisions, everything in it symbolic"""
    from engine import terms as t

    def f(sh, i):
        s = lambda *w: sh.sym(i, *w)
        vis = t.cat(*[('e', t.struct('Visual', [('name', s('vn', j)), ('origin', s('vo', j)), ('geometry', s('vg', j)), ('material', s('vm', j)), ('world_transform_cache', s('vw', j))])) for j in range(nv)])
        col = t.cat(*[('e', t.struct('Collision', [('name', s('cn', j)), ('origin', s('co', j)), ('geometry', s('cg', j)), ('world_transform_cache', s('cw', j))])) for j in range(nc)])
        ine = t.struct('Inertial', [('origin', s('io')), ('mass', s('m')), ('inertia', s('ii')), ('world_transform_cache', s('iw'))])
        l = t.struct('Link', [('name', s('ln')), ('inertial', ine), ('visuals', vis), ('collisions', col)])
        if always:
            return t.some(l)
        return t.ite(t.node_bool(t.getvar(s('haslink'), (True, False)), True), t.some(l), t.NONE)
    return f


@prop('C16')
def c16():
    return [ob('again', s) for s in (tree('two', [None, 0], [R, L], link=link_of(0, 0)), tree('later', [None, 0, 0], [R, F, L], link=False), tree('fork', [None, 0, 0, 1], [R, F, L, R], link=link_of(1, 1)))] + [ob('center_of_mass', s) for s in (
        tree('one', [None], link=link_of(0, 0, True)), tree('two', [None, 0], [R, L], link=link_of(0, 0)),
        tree('opt', [None, 0], link=link_of(0, 0)),
        tree('fork', [None, 0, 0], [R, F, L], link=link_of(1, 1)), tree('tree4', [None, 0, 1, 0], [F, R, L, R], link=link_of(0, 0)), tree('tree7', [None, 0, 0, 1, 1, 2, 2], kinds_of(7), link=link_of(0, 0, True)),
        tree('line9', [None] + list(range(8)), kinds_of(9), link={i: link_of(0, 0, i % 3 != 1) if i % 4 != 2 else False for i in range(9)}),
        tree('linked34', [None] + [(i - 1) // 2 for i in range(1, 34)], kinds_of(34), link={i: link_of(0, 0, True) if i % 5 else False for i in range(34)}),
        tree('none', [None, 0], link=False))] + [
            deep(ob('center_of_mass', tree(s.name, [d['parent'] for d in s.nodes], [d['kind'] for d in s.nodes], link={i: link_of(1, 1, i % 2 == 1) for i in range(len(s.nodes))}))) for s in every_tree(2, 5)]


@prop('C17')
def c17():
    return [ob('again', s, ns=some(range(len(s.nodes) - 1)), nx=some([len(s.nodes) - 1])) for s in (tree('two', [None, 0, None], [R, L, R], link=link_of(1, 2)), tree('later', [None, 0, 0, None], [R, F, L, R], link={0: False, 1: link_of(1, 1), 2: False, 3: link_of(2, 2, True)}))] + [ob('update_link_transforms', s) for s in (
        tree('one', [None], link=link_of(2, 2)), tree('bare', [None], link=link_of(0, 0)),
        tree('two', [None, 0], [R, L], link=link_of(1, 2)),
        tree('tree4', [None, 0, 1, 0], [F, R, L, R], link={0: link_of(1, 0), 1: link_of(0, 3), 2: link_of(2, 1), 3: False}),
        tree('tree8', [None, 0, 0, 1, 1, 2, 2, 5], kinds_of(8), link={i: link_of(i % 3, (i + 1) % 3) for i in range(8)}),
        tree('parts', [None, 0], [R, L], link=link_of(5, 6, True)), tree('crowd', [None, 0], [R, L], link=link_of(20, 17, True)),
        tree('linked34', [None] + [(i - 1) // 2 for i in range(1, 34)], kinds_of(34), link={i: link_of(1, 1, True) if i % 3 else False for i in range(34)}),
        tree('line10', [None] + list(range(9)), kinds_of(10), link={i: link_of(1, 1, True) if i % 3 else False for i in range(10)}))] + [
            deep(ob('update_link_transforms', tree(s.name, [d['parent'] for d in s.nodes], [d['kind'] for d in s.nodes], link={i: link_of(i % 2, 1, i % 2 == 1) for i in range(len(s.nodes))}))) for s in every_tree(2, 5)]


@prop('C18')
def c18():
    out = [ob('update_velocities', s) for s in shapes_small() if s.name != 'tree5']
    out.append(ob('update_velocities', tree('tree4', [None, 0, 1, 1], [R, L, F, R])))
    out.append(ob('update_velocities', tree('sub', [None, 0, 1], [R, R, L], wt={0: 'some'}, wv={0: 'some'}), ns=some([1, 2])))
    out += [ob('update_velocities', s) for s in big()]
    out += [ob('again', with_links(s)) for s in (tree('tree4', [None, 0, 1, 1], [R, L, F, R]), *big(('binary15',)))]
    out += at_sizes(lambda s: [ob('update_velocities', s)])
    out += [deep(ob('update_velocities', s)) for s in every_tree(2, 5)]
    return out


@prop('C21')
def c21():
    out = [ob(f) for f in ('created', 'position', 'position_clamped', 'position_unchecked', 'velocity', 'origin', 'reading',
                           'inertial', 'visual', 'collision', 'new_parts')]
    out += [ob('node', tree('pair', [None, 0])), ob('node', tree('two', [None, 0], [R, F])), ob('node_clamped', tree('pair', [None, 0])),
            ob('node_mimic', tree('two', [None, 0], [R, L])), ob('tree_changes', tree('loose', [None, None]))]
    for s, n in ((tree('mixed3', [None, 0, 1], [R, F, L]), 2), (tree('one', [None], [R]), 1), (tree('mimics', [None, 0], [R, L], master={1: 0}), 2),
                 *[(s, sum(d['kind'] != F for d in s.nodes)) for s in big(('line9', 'binary15', 'forest10'))], (tree('mimics6', [None, 0, 1, 1, 3, 0], [R, L, R, R, L, R], master={1: 0, 4: 2, 5: 2}), 6)):
        out += [ob('chain_checked', s, v=('len', n)), ob('chain_clamped', s, v=('len', n)), ob('chain_unchecked', s, v=('len', n))]
        out.append(ob('update_again', s, v=('len', n)))
    out += at_sizes(lambda s: [ob('update', s)] + [ob(f, s, v=('len', movables(s))) for f in ('chain_checked', 'chain_clamped', 'chain_unchecked')])
    out += [ob('update', s) for s in shapes_small() if s.name in ('pair', 'fork', 'line4')]
    out += [ob('update', s) for s in big()]
    return out


@prop('C28')
def c28():
    out = []
    for s in (Shape('empty', []), tree('one', [None]), tree('line3', [None, 0, 1]), tree('fork', [None, 0, 0]), tree('tip', [None, 0, 1, 1]),
              tree('apart', [None, None]), tree('late', [None, 0, 1, 2, 2]), tree('backwards', [1, 2, None])):
        out += [ob('try_new', s), ob('unchecked', s)]
    for n in (1, 2, 3, 4):
        out.append(ob('try_new', tree('lastbranches', [None, 0, 1, 1, 1]), ns=some(range(n))))
    out.append(ob('try_new', tree('gap', [None, 0, 0, 2]), ns=some([2, 3])))
    for s in graphs()[:4]:
        for i in range(len(s.nodes)):
            out.append(ob('from_end', s, at=i))
            out += [ob('from_end_to_root', s, at=i, to=j) for j in range(len(s.nodes)) if s.name in ('line4', 'tree6')]
    for s in big():
        out += [ob('try_new', s), ob('unchecked', s), ob('from_end', s, at=len(s.nodes) - 1), ob('from_end_to_root', s, at=len(s.nodes) - 1, to=1)]
    out.append(ob('try_new', tree('lateend', [None, 0, 1, 2, 3, 4, 5, 6, 6, 7])))
    out.append(ob('try_new', tree('latefork', [None, 0, 1, 2, 3, 4, 5, 6, 6, 7]), ns=some(range(8))))
    out += at_sizes(lambda s: [ob('try_new', s), ob('unchecked', s), ob('from_end', s, at=len(s.nodes) - 1)])
    out += [deep(ob(f, s)) for s in every_tree(2, 6) for f in ('try_new', 'unchecked')]
    out.append(ob('operations', big(('line9',))[0], v=('len', 8)))
    out += [ob('operations', tree('mixed4', [None, 0, 1, 2], [R, F, L, R]), v=('len', 3))]
    return out


@prop('C29')
def c29():
    return [ob('reference', r=('len', a), w=('len', b), q=('len', a)) for a in (0, 1, 2, 7) for b in (0, 1, 2, 6, 7, 8)] + [
        ob('reference', r=('len', a), w=('len', b), q=('len', a)) for a, b in ((16, 16), (34, 34), (70, 70), (34, 33))]


@prop('C27')
def c27():
    out = [ob(f) for f in ('joint_new', 'builder_default', 'builder_one', 'builder_all', 'node_from_joint', 'link_default', 'inertial',
                           'parts', 'mimic', 'velocity', 'solver', 'defaults')]
    out += [ob('link_builder', v=('len', 2), c=('len', 3)), ob('link_builder', v=('len', 3), c=('len', 2)), ob('link_builder', v=('len', 20), c=('len', 34))]
    for s in (tree('one', [None]), tree('fork', [None, 0, 0]), tree('line3', [None, 0, 1])):
        out += [ob('node_accessors', s), ob('node_setters', s), ob('chain_origin', s)]
    return out


@prop('C22')
def c22():
    return [ob('joint'), ob('mimic'), ob('pose')]


@prop('C24')
def c24():
    out = [ob(f) for f in ('geometry', 'material', 'inertial', 'visual', 'collision')]
    out += [ob('link', vs=('len', a), cs=('len', b)) for a, b in ((0, 0), (1, 2), (2, 1), (3, 2), (0, 4), (3, 0))]
    return out


def urdf_links(n, nv=1, nc=1):
    """n links of a URDF file with nv visuals and nc collisions each, everything else in them symbolic"""
    from engine import terms as t
    p = lambda *w: t.raw('param', 'ls', *w)

    def f(ev, st, sh):
        return t.cat(*[('e', t.struct('urdf_rs::Link', [
            ('name', p(i, 'name')), ('inertial', p(i, 'inertial')),
            ('visual', t.cat(*[('e', p(i, 'visual', k)) for k in range(nv)])),
            ('collision', t.cat(*[('e', p(i, 'collision', k)) for k in range(nc)]))])) for i in range(n)])
    return f


@prop('C23')
def c23():
    jl = lambda f, j, l, **k: ob(f, js=('len', j), ls=urdf_links(l), **k)
    return [jl('empty', 0, 1), jl('single', 1, 2), jl('owned', 2, 3), jl('line', 3, 4), jl('backwards', 3, 4), jl('branches', 5, 6),
            jl('overlap', 3, 4), jl('mimics', 4, 5), jl('mimic_line', 4, 5), jl('mimic_line_backwards', 4, 5), jl('missing_link', 2, 2), jl('mimic_parameters', 2, 3),
            ob('from_file')]


@prop('C25')
def c25():
    jl = lambda f, j, l, **k: ob(f, js=('len', j), ls=('len', l), **k)
    return [jl('no_joints', 0, 1), jl('tree', 4, 5), jl('backwards', 3, 4), jl('overlap', 3, 4), jl('any_names', 1, 2), jl('any_names', 2, 3),
            jl('several', 0, 3), jl('several', 1, 3), jl('several', 2, 2), jl('several', 2, 3)]


BITS = ('px', 'py', 'pz', 'rx', 'ry', 'rz')


def mask(m):
    return {b: bool(m >> i & 1) for i, b in enumerate(BITS)}


def arm(kinds, limits='none', **k):
    n = len(kinds)
    ks = {'R': R, 'L': L, 'F': F}
    sh = tree(kinds, [None] + list(range(n - 1)), [ks[x] for x in kinds], limits=limits, **k)
    for i, d in enumerate(sh.nodes):
        d['name'] = 'j%d' % i
    return sh


def strs(*xs):
    from engine import terms as t
    return lambda ev, st, sh: t.cat(*[('e', t.raw('str', x)) for x in xs])


def nums(*xs):
    from engine import terms as t
    return lambda ev, st, sh: t.cat(*[('e', t.num(x)) for x in xs])


def ignoring(kinds, idx, twice=False):
    """parameters: the movable joints idx (counted among the movable ones) are ignored"""
    mv = [i for i, k in enumerate(kinds) if k != 'F']
    names = ['j%d' % mv[i] for i in idx]
    return dict(names=strs(*(names * 2 if twice else names)), ignored=nums(*sorted(set(idx))))


def bits(m):
    return bin(m).count('1')


EXACT = [('R', 1), ('R', 8), ('L', 4), ('LR', 5), ('RFR', 34), ('RLR', 56), ('RRR', 7), ('FRLRF', 42), ('RRLR', 15), ('RRRRR', 31), ('RRRRRR', 63),
         ('FRRLRRFR', 63), ('RLRRRL', 63), ('RRRRR', 55), ('RRRRR', 59)]
LOOSE = [('RR', 2), ('RL', 16), ('RFLR', 3), ('RRR', 48), ('RRRR', 7), ('RRRR', 56), ('RRRRRRR', 63), ('RRRFRRRR', 62), ('LRR', 1), ('RRR', 36)]


AGAIN = [('R', 1, []), ('RR', 2, []), ('RFL', 33, []), ('RRR', 3, [1]), ('RRR', 48, []), ('RRRRRR', 63, [])]


def again(fn, kinds, m, **k):
    """a solver that was used before, on an arm of three joints and on the arm itself"""
    n = len(kinds)
    ks = {'R': R, 'L': L, 'F': F}
    sh = tree(kinds + '+RLR', [None] + list(range(n - 1)) + [None, n, n + 1], [ks[x] for x in kinds + 'RLR'], limits='none')
    for i, d in enumerate(sh.nodes):
        d['name'] = 'j%d' % i if i < n else ('j1', 'j0', 'other')[i - n]
    return ob(fn, sh, ns=some(range(n)), nx=some(range(n, n + 3)), v=('len', 3), **k, **mask(m))


@prop('C11')
def c11():
    out = []
    for kinds, m in EXACT + LOOSE:
        for tries in (1, 2):
            out.append(ob('constrained', arm(kinds), tries=tries, **mask(m)))
    for kinds, m in (('R', 1), ('RL', 33), ('RFR', 2), ('RRR', 7)):
        out.append(ob('constrained', arm(kinds, None), tries=1, **mask(m)))
    out.append(ob('constrained', arm('R', None), tries=2, **mask(8)))
    for kinds, m, i in (('RRR', 1, 0), ('RLR', 12, 2), ('RFLR', 16, 2)):
        for tries in (1, 2):
            out.append(ob('redundant', arm(kinds), tries=tries, ignored=i, **mask(m)))
    for kinds in ('RRRRRR', 'RLRRFRLR'):
        for tries in (0, 1, 2):
            out.append(ob('plain', arm(kinds), tries=tries))
    for kinds, m, i in AGAIN:
        if not i:
            out.append(again('reached_again', kinds, m, tries=1))
    return out


@prop('C12')
def c12():
    out = []
    for kinds, m in EXACT + LOOSE + [('R', 3), ('F', 1), ('RR', 0), ('RRRRR', 63)]:
        for tries in (0, 1, 2):
            out.append(ob('failed', arm(kinds), len=len(kinds), tries=tries, names=strs(), ignored=strs(), **mask(m)))
    for kinds, m, names in (('RRR', 3, ['j1']), ('RRR', 7, ['j1']), ('RFLR', 1, ['j0', 'j3']), ('RR', 1, ['j0', 'nobody'])):
        out.append(ob('failed', arm(kinds), len=len(kinds), tries=2, ignored=strs(*names), **mask(m)))
    for kinds, m in (('R', 1), ('RL', 33), ('RFR', 2)):
        out.append(ob('failed', arm(kinds, None), len=len(kinds), tries=1, ignored=strs(), **mask(m)))
    out.append(ob('failed', arm('R', None), len=1, tries=2, ignored=strs(), **mask(8)))
    out.append(ob('failed', arm('RRLR'), len=2, tries=2, ignored=strs(), **mask(9)))
    for kinds, m, names in (('RRR', 3, []), ('RRR', 1, ['j1']), ('RFLR', 1, ['j3'])):
        for tries in (1, 2):
            out.append(ob('with_task', arm(kinds), tries=tries, ignored=strs(*names), **mask(m)))
    for kinds in ('RRRRRR', 'RLR'):
        for tries in (0, 1, 2):
            out.append(ob('plain', arm(kinds), tries=tries))
    # mimic relations inside the arm
    out.append(ob('failed', tree('mimicking', [None, 0, 1], [R, R, R], limits='none', master={2: 0}), len=3, tries=1, ignored=strs(), **mask(7)))
    for kinds, m, i in AGAIN:
        out.append(again('failed_again', kinds, m, tries=1, ignored=ignoring(kinds, i)['names']))
    return out


@prop('C13')
def c13():
    out = []
    for kinds, m in EXACT + LOOSE:
        for tries in (1, 2):
            out.append(ob('steps', arm(kinds), tries=tries, **ignoring(kinds, []), **mask(m)))
    # every set of constrained coordinates
    for m in range(1, 64):
        n = bits(m)
        out.append(ob('steps', arm('RLRRRRR'[:n]), tries=1, **ignoring('R' * n, []), **mask(m)))
        out.append(ob('steps', arm('RLRRRRR'[:n + 1]), tries=1, **ignoring('R' * (n + 1), []), **mask(m)))
    # ignored joints anywhere
    for kinds, m, idx in (('RRR', 3, [0]), ('RRR', 3, [1]), ('RRR', 3, [2]), ('RRRR', 3, [0, 1]), ('RRRR', 3, [0, 2]), ('RRRR', 3, [0, 3]),
                          ('RRRR', 3, [2, 0]), ('RRRR', 3, [3, 1]), ('RRRR', 3, [3, 2]), ('RLRR', 5, [1, 0]), ('FRRFLR', 33, [2, 0]),
                          ('RRRR', 1, [0]), ('RRRR', 1, [1]), ('RRRR', 1, [3]), ('RRRR', 2, [1, 0]), ('RRRRR', 4, [3, 0, 1]), ('RFRLR', 8, [2, 1])):
        for tries in (1, 2):
            out.append(ob('steps', arm(kinds), tries=tries, **ignoring(kinds, idx), **mask(m)))
        out.append(ob('steps', arm(kinds), tries=1, **ignoring(kinds, idx, True), **mask(m)))
        out.append(ob('task_steps', arm(kinds), tries=1, **ignoring(kinds, idx), **mask(m)))
    for kinds, m in LOOSE:
        for tries in (1, 2):
            out.append(ob('task_steps', arm(kinds), tries=tries, **ignoring(kinds, []), **mask(m)))
    out.append(ob('cleared', arm('RRR'), tries=1, **ignoring('RRR', []), **mask(3)))
    for kinds, m, idx in (('R', 1, []), ('RL', 33, []), ('RFR', 2, [1])):
        out.append(ob('steps', arm(kinds, None), tries=1, **ignoring(kinds, idx), **mask(m)))
    for kinds, m, i in AGAIN:
        out.append(again('steps_again', kinds, m, tries=1, **ignoring(kinds, i)))
    return out


@prop('C14')
def c14():
    out = []
    for kinds, m in EXACT + LOOSE + [('R', 3), ('RL', 7), ('RRRRR', 63), ('F', 1), ('RR', 0), ('F', 0), ('FF', 63)]:
        for tries in (0, 1, 2, 3):
            out.append(ob('answer', arm(kinds), tries=tries, **ignoring(kinds, []), **mask(m)))
    for kinds, m, idx in (('RRR', 3, [0]), ('RRR', 3, [2]), ('RRRR', 3, [3, 1]), ('RLRR', 5, [1, 0]), ('RRRR', 1, [1]), ('RRR', 7, [1]), ('RRR', 1, [2, 1, 0]),
                          ('FRRFLR', 33, [2, 0]), ('RRR', 0, [0, 1, 2]), ('R', 0, [0]), ('RR', 63, [0, 1])):
        for tries in (0, 1, 2):
            out.append(ob('answer', arm(kinds), tries=tries, **ignoring(kinds, idx), **mask(m)))
        out.append(ob('answer', arm(kinds), tries=1, **ignoring(kinds, idx, True), **mask(m)))
    for kinds, m, names in (('RRR', 3, []), ('RRR', 3, ['j1']), ('RFR', 1, ['j2', 'j2']), ('FF', 0, []), ('R', 0, [])):
        out.append(ob('unknown_name', arm(kinds), tries=1, names=strs(*names), **mask(m)))
        if 'F' in kinds:
            out.append(ob('unknown_name', arm(kinds), tries=1, names=strs(*names), wrong='j1', **mask(m)))
    for kinds, m in (('R', 1), ('RL', 33), ('RFR', 2)):
        out.append(ob('answer', arm(kinds, None), tries=1, **ignoring(kinds, []), **mask(m)))
    for kinds, m, i in AGAIN:
        for tries in (0, 1):
            out.append(again('answer_again', kinds, m, tries=tries, **ignoring(kinds, i)))
    return out


@prop('C26')
def c26():
    return [ob('default'), ob('copy')]


def blank(ev, st, sh):
    from engine import terms as t
    return t.raw('str', '')


def locking(mod, o):
    """the contract function of another property, but what is judged is which locks it takes and when"""
    o = dict(o, locks=True, mod=mod.lower())
    return o


@prop('C19')
def c19():
    out = []
    for pid in ('C01', 'C03', 'C04', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C18', 'C21', 'C23', 'C27', 'C28'):
        # of every contract function the largest shapes
        byfn = {}
        for o in OBLIGATIONS[pid]():
            if o['shape'] is None or len(o['shape'].nodes) < 34:
                byfn.setdefault(o['fn'], []).append(o)
        for fn, os in byfn.items():
            os.sort(key=lambda o: -(len(o['shape'].nodes) if o['shape'] is not None else 0))
            keep = os[:4] + [o for o in os[4:] if o['shape'] is not None and any(d.get('master') is not None for d in o['shape'].nodes)]
            for i, o in enumerate(os):
                out.append(dict(locking(pid, o), deep=not any(o is k for k in keep)))
    two = lambda **k: tree('two', [None, 0], [R, L], **k)
    new = []
    for s in (tree('pair', [None, 0]), tree('tree5', [None, 0, 1, 1, 0]), tree('linked', [None, 0, 0], link=[True, False, True]), tree('mimics', [None, 0, 0], master={1: 0, 2: 0})):
        new += [ob('show_node', s, f=blank), ob('show_chain', s, f=blank), ob('show_serial', s, f=blank)]
    for m in ({}, {1: 0}, {0: 1}, {0: 1, 1: 0}, {0: 0}, {0: 1, 1: 2, 2: 0}, {1: 0, 2: 0}, {1: 0, 2: 1}, {0: 2, 1: 2}):
        s = tree('masters' + ''.join('%d%d' % x for x in sorted(m.items())), [None, 0, 1], master=m)
        new.append(ob('move_all', s))
        s = tree('free' + ''.join('%d%d' % x for x in sorted(m.items())), [None, 0, 1], [R, L, R], master=m, link=link_of(1, 2))
        new += [ob('move_all', s), ob('move_chain', s, v=('len', 3))]
    new += [ob('itself', two()), ob('swap_masters', tree('three', [None, 0, 1])), ob('swap_masters', tree('free3', [None, 0, 1], [R, L, R], limits='none'))]
    return [locking('C19', o) for o in new] + out


EXTRA['C19'] = ['ikref'] + ['c%02d' % i for i in (1, 3, 4, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 23, 27, 28)]


@prop('C20')
def c20():
    return [ob('threads'), ob('guards')]


@prop('C32')
def c32():
    out = [ob('joint', f=blank, w=blank)]
    for s in (tree('one', [None]), tree('linked', [None, 0], link=[True, None]), tree('bare', [None], link=[False])):
        out.append(ob('node', s, f=blank, w=blank))
    for s in (Shape('empty', []), tree('single', [None]), tree('pair', [None, 0]), tree('fork', [None, 0, 0], link=[True, False, None]),
              tree('tree6', [None, 0, 0, 1, 1, 2], [R, F, L, R, L, F], link=False), tree('line4', [None, 0, 1, 2], [F, R, L, R], link=True),
              tree('order', [None, 0, 0, 0], [R, R, R, R], children={0: [3, 1, 2]}, link=False)):
        out.append(ob('chain', s, f=blank, w=blank))
    out.append(ob('chain', tree('part', [None, 0, 1, 0, 3], [R, R, L, F, R], link=False), ns=some([1, 2]), f=blank, w=blank))
    for k, part in enumerate(([0, 2], [0, 3], [0, 2, 3], [1, 3], [0, 1, 3])):
        out.append(ob('chain', tree('gap%d' % k, [None, 0, 1, 2], [R, F, R, L], link=False), ns=some(part), f=blank, w=blank))
    out.append(ob('chain', tree('gapfork', [None, 0, 1, 1, 0, 4], [R, F, R, L, R, R], link=False), ns=some([0, 2, 3, 5]), f=blank, w=blank))
    for s in big():
        out.append(ob('chain', tree(s.name, [d['parent'] for d in s.nodes], [F] * (len(s.nodes) - 1) + [R], link=False), f=blank, w=blank))
    out += [deep(ob('chain', tree(s.name, [d['parent'] for d in s.nodes], [F] * len(s.nodes), link=False), f=blank, w=blank)) for s in every_tree(2, 6)]
    for s in (Shape('empty', []), tree('single', [None]), tree('line3', [None, 0, 1], [F, R, L]), tree('line3l', [None, 0, 1], link=True)):
        out.append(ob('serial', s, f=blank, w=blank))
    return out


def anc(s, i):
    out = []
    while i is not None:
        out.append(i)
        i = s.nodes[i]['parent']
    return out


@prop('C34')
def c34():
    turn = lambda fn, s, k, **p: dict(ob(fn, s, k=k, **p), locks='turns')
    two, three = tree('two', [None, 0], [R, L], limits='none'), tree('three', [None, 0, 0], [R, L, R], limits='none')
    line, loose = tree('line4', [None, 0, 1, 2], [L, R, R, L], limits='none'), tree('loose', [None, None, None], [R, R, L], limits='none')
    out = []
    for k in range(6):
        out += [turn('one_master', two, k, m=('len', 1)), turn('one_master', three, k, m=('len', 2)), turn('follower_asked', two, k, m=('len', 1)),
                turn('follower_asked', three, k, m=('len', 2)), turn('new_follower', two, k), turn('master_and_chain', line, k, v=('len', 4))]
        out += [turn('other_master', loose, k, who=i) for i in range(3)]
    out += [turn('chain_and_master', s, k, v=('len', len(s.nodes))) for s in (two, line) for k in range(12)]
    robot = tree('robot', [None, 0, 1, 1], [R, L, F, R], link=[link_of(1, 1), True, True, False])
    arm3 = tree('arm3', [None, 0, 1], [R, L, R], link=[True, False, True])
    for s in (robot, arm3):
        for i in range(len(s.nodes)):
            out += [turn('reads', s, k, i=i, f=blank) for k in range(40 if s is robot else 32)]
            out += [turn('copies', s, k, i=i) for k in range(24)]
            out += [turn(f, s, k, i=i) for f, n in (('update_poses', 20), ('update_speeds', 52), ('update_centre', 28)) for k in range(n)]
    for s in (tree('robot4', [None, 0, 1, 1], [R, L, F, R]), tree('line3', [None, 0, 1], [R, F, L])):
        m = len(s.nodes)
        for i in range(m):
            for j in range(m):
                # no cycles
                if i and not any(a == i for a in anc(s, j)) or i == j:
                    out += [turn('rewired', s, k, i=i, j=j, f=blank) for k in range(26)]
                    out += [turn(f, s, k, i=i, j=j) for f in ('rewired_made', 'rewired_copy') for k in range(26)]
    three = tree('loose3', [None, None, None], [R, L, R], limits='none')
    for k in range(6):
        out += [turn('two_followers', three, k, m=('len', 2)), turn('two_children', three, k)]
    parts = (tree('robot-parts', [None, 0, 1, 1], [R, L, F, R], link=[link_of(1, 1), link_of(0, 1), link_of(1, 0), False]),
             tree('arm3-parts', [None, 0, 1], [R, L, R], link=[link_of(1, 0), False, link_of(0, 2)]))
    out += [turn('update_parts', s, k, i=i) for s in parts for i in range(len(s.nodes)) for k in range(28)]
    return out


@prop('C33')
def c33():
    return ([ob(x, f=blank, w=blank) for x in ('out_of_limit', 'fixed', 'size', 'mimic', 'not_converged', 'inverse', 'precondition', 'no_joint')] +
            [ob('copy', k=k, f=blank, w=blank) for k in range(4)])
