"""Graph vocabulary: nodes, edge lists, edges that are appended to them."""
import re

import sa
from codec import P, atom
from flow import atom1, atoms_in
from loops import calls_in, callname, erase
from val import fz, unfz

PUSH = re.compile(r'::(push_back|emplace_back)(<.*>)?$')


class Layout:
    """offsets of the members behind the public accessors of GraphEdge and GraphNode (functions edge_* and node_* of the witness)"""
    def __init__(self, m):
        from paths import paths
        self.edge, self.node = {}, {}
        for f in m.fns:
            n = f.qual.split('(')[0].split('::')[-1]
            if n in EDGE:
                a = atom1(paths(f)[0].ret())
                if a and a[0] == 'm':
                    self.edge[EDGE[n]] = a[1][1]
            elif n in NODE:
                l = ptr_of(paths(f)[0].ret())
                if l:
                    self.node[NODE[n]] = l[1]
        if len(self.edge) != 4 or len(self.node) != 3:
            raise sa.Broken('layout of GraphEdge/GraphNode not found')


EDGE = {'edge_from': 'FromIndex', 'edge_to': 'ToIndex', 'edge_weight': 'Weight', 'edge_scratchpad': 'Scratchpad'}
NODE = {'node_in': 'InEdges', 'node_out': 'OutEdges', 'node_value': 'Value'}
ACC = [r'^(edge|node)_(from|to|weight|scratchpad|in|out|value)$']


def ptr_of(t):
    """place a pointer term points at"""
    t = atom1(t) if isinstance(t, P) else t
    if isinstance(t, tuple) and t and t[0] == 'ptr':
        return t[1]
    if isinstance(t, tuple) and t and t[0] == 'arg':
        return (t, 0)
    return None


def words(t):
    """the 8-byte words of an object term, or None"""
    if isinstance(t, tuple) and t and t[0] == 'words':
        return [unfz(x) if x and x[0] == 'P' else x for x in t[1]]
    return None


class Push:
    """edge with the given words appended to a list; node: place of the node, side: 'InEdges'/'OutEdges' (None when not a node's list)"""
    def __init__(self, s, i, lay):
        self.s, self.i = s, i
        self.list = s.v.loc(i.ops[0])
        self.node = self.side = None
        for n, off in lay.node.items():
            if n != 'Value' and self.list and self.list[1] == off and self.list[0][0] in ('deref', 'elem', 'at', 'arg'):
                self.side, self.node = n, self.list[0]
        if self.list and self.list[0][0] == 'at' and self.side is None:
            for n, off in lay.node.items():
                if n != 'Value' and self.list[1] == off + 8:        # second of a map entry
                    self.side, self.node = n, self.list[0]
        args = [s.v.arg(i, k) for k in range(1, len(i.ops))]
        self.words = None
        if len(args) == 1:
            w = words(args[0])
            if w is None:
                l = s.v.loc(i.ops[1])
                if args[0][0] in ('obj', 'outobj') and l:
                    w = [s.v.mem((l[0], l[1] + 8 * k), 8, i) for k in range(4)]
            self.words = w
        elif len(args) in (3, 4) and all(a[0] == 'P' for a in args):
            self.words = [unfz(a) for a in args] + ([P(0)] if len(args) == 3 else [])
        if self.words:
            o = [lay.edge[n] // 8 for n in ('FromIndex', 'ToIndex', 'Weight', 'Scratchpad')]
            self.words = [self.words[k] if k < len(self.words) else None for k in o]

    def key(self):
        return tuple(fz(x) if isinstance(x, P) else x for x in self.words)


def edge_pushes(s, lay):
    out = []
    for i in s.v.on_path(('call', 'invoke')):
        if PUSH.search(i.callee or '') and 'GraphEdge' in (i.callee or '') or \
                PUSH.search(i.callee or '') and 'GraphEdge' in (i.d.get('cd') or i.d.get('cq') or ''):
            out.append(Push(s, i, lay))
    return out


def node_index(fn, s, root, rx=re.compile(r'::GetNode(Imm|M)utable$')):
    """index the node at place root was looked up with (callee kept opaque), or None"""
    if root[0] == 'elem':
        return unfz(root[2])
    if root[0] == 'deref':
        a = atom1(unfz(root[1]))
        if a and a[0] == 'callv' and isinstance(a[2], int) and rx.search(fn.inst[a[2]].callee or ''):
            x = s.v.arg(fn.inst[a[2]], 1)
            return unfz(x) if x[0] == 'P' else None
        if a and a[0] == 'call' and rx.search(a[1]):
            x = a[-1]
            return unfz(x) if x[0] == 'P' else None
    return None
