"""Finite shapes: which nodes exist, who is whose parent / child / mimic follower, and the static
kind of each joint.  Everything else (positions, velocities, limits, origins, caches, names, masses,
poses of link parts ...) stays symbolic."""
from . import terms as t
from .evalr import Agg, Undecided

JT = ('Fixed', 'Rotational', 'Linear')


class Shape:
    """nodes: list of dicts
         parent: index or None          (list of children is derived unless 'children' is given)
         kind: 'Fixed' / 'Rotational' / 'Linear' / None (symbolic)
         name: concrete string or None (symbolic)
         master: index of the mimic master or None; mimic: 'some' / 'none' / None (symbolic)
         link: True (present) / False (absent) / None (symbolic)
    """

    def __init__(self, name, nodes, **kw):
        self.name = name
        self.nodes = nodes
        self.kw = kw
        n = len(nodes)
        self.children = [[] for _ in range(n)]
        self.followers = [[] for _ in range(n)]
        for i, d in enumerate(nodes):
            if d.get('parent') is not None:
                self.children[d['parent']].append(i)
            if d.get('master') is not None:
                self.followers[d['master']].append(i)
        for i, d in enumerate(nodes):
            if 'children' in d:
                self.children[i] = list(d['children'])

    def node(self, i):
        return t.raw('node', i)

    def nodeval(self, i):
        return t.struct('Node', [('0', self.node(i))])

    def sym(self, i, *what):
        return t.raw('init', i, *what)

    def seq(self, idxs):
        return t.cat(*[('e', self.nodeval(i)) for i in idxs])

    def heap(self, node, leaf):
        i = node.args[0]
        if i == 'fresh':
            raise Undecided('uninitialised field %s' % (leaf,))
        d = self.nodes[i]
        f = leaf[-1]
        if leaf == ('parent',):
            p = d.get('parent')
            return t.NONE if p is None else t.some(t.raw('weak', self.node(p)))
        if leaf == ('children',):
            return self.seq(self.children[i])
        if leaf == ('mimic_parent',):
            p = d.get('master')
            return t.NONE if p is None else t.some(t.raw('weak', self.node(p)))
        if leaf == ('mimic_children',):
            return self.seq(self.followers[i])
        if leaf == ('mimic',):
            m = d.get('mimic', 'some' if d.get('master') is not None else 'none')
            if m == 'none':
                return t.NONE
            s = t.some(self.sym(i, 'mimic'))
            return s if m == 'some' else self.sym(i, 'mimicopt')
        if leaf == ('link',):
            l = d.get('link', None)
            if l is False:
                return t.NONE
            if l is True:
                return t.some(self.sym(i, 'link'))
            if callable(l):
                return l(self, i)
            return self.sym(i, 'linkopt')
        if leaf == ('joint', 'joint_type'):
            k = d.get('kind')
            if k is None:
                return self.sym(i, 'joint_type')
            if k == 'Fixed':
                return t.raw('ctor', 'Fixed')
            return t.raw('ctor', k, self.sym(i, 'axis'))
        if leaf == ('joint', 'name'):
            nm = d.get('name')
            return t.raw('str', nm) if nm is not None else self.sym(i, 'name')
        if leaf == ('joint', 'limits'):
            l = d.get('limits')
            if l == 'none':
                return t.NONE
            return self.sym(i, 'limits')
        if leaf[0] == 'joint' and f in ('position', 'velocity', 'origin'):
            return self.sym(i, f)
        if leaf == ('joint', 'world_transform_cache'):
            return t.some(self.sym(i, 'wt')) if d.get('wt') == 'some' else t.NONE if d.get('wt') == 'none' else self.sym(i, 'wtcache')
        if leaf == ('joint', 'world_velocity_cache'):
            return t.some(self.sym(i, 'wv')) if d.get('wv') == 'some' else t.NONE if d.get('wv') == 'none' else self.sym(i, 'wvcache')
        raise t.Unmodelled('unmodelled private field %s' % ('.'.join(leaf),))


def tree(name, parents, kinds=None, **per):
    nodes = []
    for i, p in enumerate(parents):
        d = {'parent': p}
        if kinds is not None:
            d['kind'] = kinds[i]
        for k, v in per.items():
            if isinstance(v, (list, tuple)):
                if v[i] is not None:
                    d[k] = v[i]
            elif isinstance(v, dict):
                if i in v:
                    d[k] = v[i]
            else:
                d[k] = v
        nodes.append(d)
    return Shape(name, nodes)
