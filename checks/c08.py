"""C08: graph edges are always stored consistently at both endpoints."""
import re

import sa
from codec import P, atom
from flow import atom1, atoms_in, arriving, facts, proves, state_atoms
from graphs import Layout, ACC, Push, edge_pushes, erase, node_index, ptr_of, words
from loops import Loops, calls_in, callname, misses
from paths import segments, paths
from val import fz, unfz, num

NS = r'common_robotics_utilities::v1::simple_graph::'
ALGO = r'std::(any_of|all_of|none_of|find_if|find_if_not|count_if)<'
GET = r'::GetNode(Imm|M)utable$'
G = r'::Graph<State>::'
O = r'::NonOwningGraphOverlay<State, .*>::'


def run(c):
    c.rule('pairing', 'on every path that returns, each edge appended to the out-list of its start node is appended with the same '
                      'words to the in-list of its end node, and the reverse; nothing is appended on a path that throws')
    c.rule('endpoints', 'both nodes are looked up by a checked access before the first list is changed, and start differs from end')
    c.rule('lookup', 'the node handed out for an index is the one stored for that index; an overlay prefers its own copy')
    c.rule('append', 'a new node is stored exactly once, under the index that is returned')
    c.rule('linkage', 'the linkage check accepts only when each listed edge names its own node, another node in range, and a '
                      'counterpart in that node\'s opposite list; it visits every node and every edge')
    c.rule('guarded', 'nodes from outside (constructor argument, bytes) become the graph\'s nodes only after the linkage check accepted them')
    c.rule('prune', 'pruning keeps, in order, the nodes that are not listed; each kept edge keeps weight and scratchpad and has both '
                    'indices lowered by the number of pruned indices below them; each dropped edge leads to a pruned node')
    c.rule('reweight', 'an edge weight is written to both copies of the edge, with the same value')
    lay = Layout(c.work.load('graph.cpp', ACC))
    inserts(c, lay)
    lookups(c, lay)
    appends(c)
    linkage(c, lay)
    guarded(c)
    prune(c, lay)
    reweight(c, lay)
    c.need('obligations:pairing', 8)
    c.need('obligations:linkage', 6)
    c.need('obligations:prune', 8)


def show(w):
    return '(' + ', '.join(str(x)[:60] for x in w) + ')'


# ---------------------------------------------------------------- insertion
def inserts(c, lay):
    m = c.work.load('graph.cpp', r'::(Graph<State>|NonOwningGraphOverlay<State, .*>)::AddEdges?BetweenNodes$', keep=[GET])
    for f in m.fns:
        c.saw(f)
        both = f.qual.endswith('AddEdgesBetweenNodes')
        a, b, w = (atom(('arg', k)) for k in (1, 2, 3))
        want = [(a, b, w)] + ([(b, a, w)] if both else [])
        rets = 0
        for s in segments(f, throws=True) or ():
            ps = edge_pushes(s, lay)
            for p in ps:
                if p.side is None or p.words is None:
                    c.ob('pairing', False, f.short() + '|unknown', f'{p.i.where()}: an edge is appended to a list that is not a node\'s')
            ps = [p for p in ps if p.side and p.words]
            if s.stop == ('throw',):
                c.ob('endpoints', not ps, f.short() + '|throw', f'{f.where()}: an edge half is stored on a path that throws')
                continue
            rets += 1
            ins, outs = [], []
            for p in ps:
                k = node_index(f, s, p.node)
                end = 'FromIndex' if p.side == 'OutEdges' else 'ToIndex'
                own = p.words[0 if p.side == 'OutEdges' else 1]
                c.ob('pairing', k is not None and k == own, f'{f.short()}|{p.side}|{end}',
                     f'{p.i.where()}: edge {show(p.words)} is put into the {p.side} list of node {k}, which is not its {end}')
                (outs if p.side == 'OutEdges' else ins).append(p)
            kin, kout = sorted(map(str, (p.key() for p in ins))), sorted(map(str, (p.key() for p in outs)))
            c.ob('pairing', kin == kout, f'{f.short()}|both ends',
                 f'{f.where()}: edges stored at their start {[show(p.words) for p in outs]} and at their end {[show(p.words) for p in ins]} differ')
            got = [tuple(p.words[:3]) for p in outs]
            c.ob('pairing', len(got) == len(want) and all(x in got for x in want), f'{f.short()}|requested edges',
                 f'{f.where()}: stores {[show(x) for x in got]}, asked for {[show(x) for x in want]}')
            c.ob('endpoints', ('ne', fz(a - b)) in s.lits or ('ne', fz(b - a)) in s.lits, f'{f.short()}|self',
                 f'{f.where()}: an edge from a node to itself is not refused')
            seq = [i.id for i in s.v.on_path(('call', 'invoke'))]
            first = min((seq.index(p.i.id) for p in ps), default=len(seq))
            looked = []
            for i in s.v.on_path(('call', 'invoke')):
                if re.search(GET, i.callee or '') and seq.index(i.id) < first:
                    x = s.v.arg(i, 1)
                    looked.append(unfz(x) if x[0] == 'P' else None)
            for x in (a, b):
                ok = x in looked or ranged(s, x)
                c.ob('endpoints', ok, f'{f.short()}|checked {x}', f'{f.where()}: index {x} is not checked before an edge is stored')
        c.ob('pairing', rets > 0, f'{f.short()}|returns', f'{f.where()}: never returns')


def ranged(s, x):
    lo = proves(s.lits, x)
    hi = any(x not in (None,) and g.t.get((atom1(x),), 0) == -1 and g.t.get((), 0) <= -1 for g in facts(s.lits))
    return lo and hi


# ---------------------------------------------------------------- lookup, append
def lookups(c, lay):
    idx = atom(('arg', 1))
    m = c.work.load('graph.cpp', rf'({G[2:]}|{O[2:]})GetNode(Imm|M)utable$'.replace('^', ''))
    n = 0
    for f in m.fns:
        over = 'Overlay' in f.qual
        for s in segments(f) or ():
            if s.stop != ('ret',):
                continue
            c.saw(f)
            n += 1
            p = ptr_of(s.ret())
            ok, why = False, 'it does not name a stored node'
            if p and p[0][0] == 'elem' and p[1] == 0:
                at = [i for i in s.v.on_path(('call', 'invoke')) if (i.callee or '').endswith('::at')]
                checked = bool(at) or ranged(s, unfz(p[0][2]))
                ok = unfz(p[0][2]) == idx and checked
                why = f'node {unfz(p[0][2])} is handed out' + ('' if checked else ' without a range check')
                if over and ok and p[0][1][0] == ('arg', 0):
                    continue        # the overlay's own copy
                if over and ok:
                    ok, why = absent(s, idx), 'the base graph\'s node is handed out although the overlay may hold its own'
                    if f.qual.endswith('Mutable') and not f.qual.endswith('Immutable'):
                        ok, why = False, 'a node of the base graph is handed out for writing'
            elif p and p[0][0] == 'at' and over:
                cs = calls_in(p[0])
                look = [x for x in cs if callname(x) in ('find', 'emplace', 'try_emplace', 'insert')]
                for x in look:
                    if callname(x) == 'find':
                        ok = fz(idx) in x and present(s, x)
                        why = 'the found entry is not for this index, or was not found'
                    else:
                        i = f.inst[x[2]]
                        args = [s.v.arg(i, k) for k in range(1, len(i.ops))]
                        src = s.v.loc(i.ops[2]) if len(i.ops) > 2 else None
                        ok = fz(idx) in args and src is not None and src[0][0] == 'elem' and unfz(src[0][2]) == idx and src[1] == 0 and absent(s, idx)
                        why = 'the overlay copy is not made from the base node of this index'
            c.ob('lookup', ok, f.short(), f'{f.where()}: {why}')
    c.count('lookup paths', n)
    c.need('lookup paths', 4)


def finds(l):
    return [x for x in calls_in(l) if callname(x) in ('find', 'count', 'contains')]


def truth(l, name):
    """True when the literal says the searched entry is there, False when not, None when it says nothing"""
    if l[0] == 'bool':
        t = atom1(unfz(l[1])) if l[1] and l[1][0] == 'P' else l[1]
        n = callname(t)
        if n == 'operator!=':
            return l[2]
        if n == 'operator==':
            return not l[2]
        if n == 'contains':
            return l[2]
    if name in ('count', 'find') and l[0] in ('eq', 'ne'):
        if name == 'count':
            c = unfz(l[1]).t.get((), 0)
            return l[0] == 'ne' if c == 0 else l[0] == 'eq'
        return l[0] == 'ne'
    if name == 'count' and l[0] in ('ge', 'uge'):
        p = unfz(l[1])
        return True if any(v > 0 for k, v in p.t.items() if k) else False
    return None


def member(s, key):
    """is key known to be in (True) / not in (False) the set it was looked up in"""
    for l in s.lits:
        for x in finds(l):
            if fz(erase(key)) in [erase(y) for y in x[2:]]:
                t = truth(l, callname(x))
                if t is not None:
                    return t
    return None


def absent(s, key):
    return member(s, key) is False


def present(s, call):
    return any(call in calls_in(l) and truth(l, callname(call)) is True for l in s.lits)


def appends(c):
    m = c.work.load('graph.cpp', rf'({G[2:]}|{O[2:]})AddNode$')
    for f in m.fns:
        c.saw(f)
        over = 'Overlay' in f.qual
        for s in segments(f) or ():
            if s.stop != ('ret',):
                continue
            puts = [i for i in s.v.on_path(('call', 'invoke'))
                    if re.search(r'::(push_back|emplace_back|emplace|insert|try_emplace|insert_or_assign|operator\[\])(<.*>)?$', i.callee or '')
                    and s.v.loc(i.ops[1 if i.sret else 0]) and s.v.loc(i.ops[1 if i.sret else 0])[0] == ('arg', 0)]
            c.ob('append', len(puts) == 1, f.short() + '|once', f'{f.where()}: a node is stored {len(puts)} times')
            if len(puts) != 1:
                continue
            r = s.ret()
            if not over:
                a = atom1(r + P(1)) if isinstance(r, P) else None
                plain = atom1(r) if isinstance(r, P) else None
                size_i = [i for i in s.v.on_path(('call', 'invoke')) if (i.callee or '').endswith('::size')]
                seq = [i.id for i in s.v.on_path(('call', 'invoke'))]
                ok = False
                for i in size_i:
                    after = seq.index(i.id) > seq.index(puts[0].id)
                    v = s.v.val(('i', i.id))
                    if r == v - P(1) and after or r == v and not after:
                        ok = True
                c.ob('append', ok, f.short() + '|index', f'{f.where()}: returns {r}, which is not the position the node was stored at')
            else:
                key = s.v.arg(puts[0], 1)
                w = words(key)
                if w is None and re.search(r'::insert(<.*>)?$', puts[0].callee):
                    l = s.v.loc(puts[0].ops[2 if puts[0].sret else 1])
                    w = [s.v.mem(l, 8, puts[0])] if l else None
                if w:
                    key = fz(w[0])
                st = [i for i in s.v.on_path(('store',)) if s.v.loc(i.ops[1]) and s.v.loc(i.ops[1])[0] == ('arg', 0)]
                grown = [i for i in st if isinstance(s.v.val(i.ops[0]), P) and s.v.val(i.ops[0]) - r == P(1)]
                c.ob('append', key == fz(r), f.short() + '|index', f'{f.where()}: the node is stored under {key}, {r} is returned')
                c.ob('append', len(grown) == 1, f.short() + '|size', f'{f.where()}: the size is not raised by one')


# ---------------------------------------------------------------- linkage check
def linkage(c, lay):
    m = c.work.load('graph.cpp', rf'{G[2:]}CheckGraphLinkage$', keep=[ALGO])
    for f in m.fns:
        c.saw(f)
        ss = segments(f)
        L = Loops(f, ss)
        yes = [s for s in ss if s.stop == ('ret',) and isinstance(s.ret(), P) and s.ret() != P(0)]
        nodes = [it for it in L.iters.values() if it.kind == 'index' and not any(o.h != it.h and it.h in o.body for o in L.iters.values())]
        whole = [it for it in L.iters.values() if not any(o.h != it.h and it.h in o.body for o in L.iters.values())]
        plain = not any(re.search(ALGO, i.callee or '') for i in f.insts() if i.op in ('call', 'invoke'))
        for s in yes:
            c.ob('linkage', any(s.start == it.h and L.over(s, it) for it in whole), f.short() + '|accepts',
                 f'{f.where()}: accepts before every node has been looked at', plain)
        for it in whole:
            for s in L.early(it):
                c.ob('linkage', s not in yes, f.short() + '|accepts early', f'{f.where()}: accepts before every node has been looked at')
        found = {}
        for it in L.iters.values():
            K = erase(it.K)
            for side in ('InEdges', 'OutEdges'):
                if it.K[0] != ('Size',) and it.K[1] == lay.node[side] and it.K[0][0] in ('elem', 'deref') and own_node(it, whole):
                    found[side] = it
        for side in ('InEdges', 'OutEdges'):
            if not c.ob('linkage', side in found, f'{f.short()}|{side} visited', f'{f.where()}: the {side} of a node are not all checked', plain):
                continue
            it = found[side]
            own = 'ToIndex' if side == 'InEdges' else 'FromIndex'
            oth = 'FromIndex' if side == 'InEdges' else 'ToIndex'
            node = whole[0]
            idx = index_of(it, node)
            stay = [s for s in ss if s.start in it.body and s.stop == ('loop', it.h)]
            for s in L.early(it):
                c.ob('linkage', s not in yes and s.stop == ('ret',), f'{f.short()}|{side} all', f'{f.where()}: leaves the {side} loop early without refusing')
            for s in stay:
                lits = [erase(l) for l in s.lits]
                mem = lambda n: it.mem(lay.edge[n])
                eqs = [unfz(l[1]) for l in lits if l[0] == 'eq' and l[1][0] == 'P']
                nes = [unfz(l[1]) for l in lits if l[0] == 'ne' and l[1][0] == 'P']
                i = erase(idx)
                has = lambda ps, d: d in ps or P(0) - d in ps
                c.ob('linkage', has(eqs, mem(own) - i), f'{f.short()}|{side} own', f'{f.where()}: an edge in {side} is accepted without its {own} being this node')
                d = mem('FromIndex') - mem('ToIndex')
                c.ob('linkage', has(nes, d) or has(nes, mem(oth) - i), f'{f.short()}|{side} self', f'{f.where()}: an edge from a node to itself is accepted')
                lo = proves(lits, mem(oth))
                hi = any(g.t.get((atom1(mem(oth)),), 0) == -1 and g.t.get((), 0) <= -1 and
                         any(callname(x) == 'size' for x in calls_in(fz(g))) for g in facts(lits))
                c.ob('linkage', lo and hi, f'{f.short()}|{side} range', f'{f.where()}: the {oth} of an edge in {side} is not range checked')
                why = counterpart(f, ss, s, L, it, lay, side, idx, mem(oth))
                c.ob('linkage', why is None, f'{f.short()}|{side} counterpart', f'{f.where()}: {why}')


def own_node(it, whole):
    if it.K[0][0] == 'elem':
        return any(unfz(it.K[0][2]) == atom(o.atom) for o in whole)
    return any(o.at((it.K[0], 0)) == 0 or it.K[0] == o.cur[0] for o in whole)


def index_of(it, node):
    if it.K[0][0] == 'elem':
        return unfz(it.K[0][2])
    return atom(node.atom)


def counterpart(f, ss, s, L, it, lay, side, idx, other):
    """why accepting an edge on segment s does not mean the counterpart was seen (None when it does)"""
    opp = 'OutEdges' if side == 'InEdges' else 'InEdges'
    end = 'ToIndex' if side == 'InEdges' else 'FromIndex'
    inner = [x for x in L.iters.values() if x.h in it.body and x.h != it.h]

    def matches(seg, x):
        cur = x.mem(lay.edge[end])
        d = cur - erase(idx)
        eq = [unfz(erase(l)[1]) for l in seg.lits if l[0] == 'eq' and l[1][0] == 'P']
        return d in eq or P(0) - d in eq

    right = [x for x in inner if x.K[0][0] == 'elem' and x.K[1] == lay.node[opp] and erase(unfz(x.K[0][2])) == other]
    for x in right:
        if s.start == x.h and matches(s, x):
            return None
    algos = [t for l in s.lits for t in calls_in(l) if callname(t) in ('any_of', 'find_if', 'none_of', 'count_if')]
    if algos:
        return None
    if not right:
        return f'the {opp} of the node at the other end are not searched'
    for l in s.lits:
        if l[0] not in ('bool', 'eq', 'ne'):
            continue
        for a in state_atoms(l):
            h = f.inst[a[1]].block if a[0] == 'phi' else a[1]
            x = next((y for y in right if y.h == h), None)
            if x is None or s.start != h:
                continue
            if not L.over(s, x):
                continue
            want = True if l[0] == 'bool' and l[2] or l[0] == 'ne' else False
            ok = want
            for q in ss:
                if q.stop != ('loop', h):
                    continue
                t = arriving(f, q, a)
                if q.start in x.body:
                    if isinstance(t, P) and t == atom(a):
                        continue
                    if isinstance(t, P) and t.const() is not None:
                        if t != P(0) and not matches(q, x):
                            ok = False
                        continue
                    sel = atom1(t)
                    if not (sel and sel[0] in ('sel', 'or') or matches(q, x)):
                        ok = ok and 'operator' in str(t)
                elif not (isinstance(t, P) and t == P(0)):
                    ok = False
            if ok:
                return None
    return f'an edge in {side} is accepted although no edge with {end} of this node was seen in the {opp} at the other end'


# ---------------------------------------------------------------- nodes from outside
def guarded(c):
    m = c.work.load('graph.cpp', rf'{G[2:]}(Graph|DeserializeSelf)$', keep=['CheckGraphLinkage'])
    for f in m.fns:
        if f.qual.endswith('::Graph') and (len(f.argtypes) < 3 or 'vector' not in f.argtypes[2]):
            continue
        c.saw(f)
        for s in segments(f, throws=True) or ():
            w = [i for i in s.v.on_path(('call', 'invoke')) if re.search(r'::(operator=|swap|assign|vector|insert|push_back)$', i.callee or '')
                 and s.v.loc(i.ops[0]) == (('arg', 0), 0) and len(i.ops) > 1]
            chk = [i for i in s.v.on_path(('call', 'invoke')) if (i.callee or '').endswith('::CheckGraphLinkage')]
            ok = any(l[0] == 'bool' and l[2] and any(callname(x) == 'CheckGraphLinkage' for x in calls_in(l)) for l in s.lits)
            if w:
                same = any(s.v.arg(i, 0) == s.v.arg(w[-1], 1) for i in chk) or any(s.v.loc(i.ops[0]) == (('arg', 0), 0) for i in chk)
                c.ob('guarded', ok, f.short(), f'{w[0].where()}: nodes are taken over without the linkage check having accepted them')
                c.ob('guarded', same or not ok, f.short() + '|same', f'{w[0].where()}: the nodes taken over are not the ones the linkage check looked at')
            elif s.stop == ('ret',):
                c.ob('guarded', False, f.short() + '|stored', f'{f.where()}: returns without storing the nodes')
    c.need('obligations:guarded', 1)


# ---------------------------------------------------------------- pruning
def prune(c, lay):
    roots = rf'^{NS}PruneGraph<.*operator\(\)'
    m = c.work.load('graph.cpp', roots, keep=[GET])
    n = 0
    for f in m.fns:
        if not f.qual.startswith('common_robotics_utilities::v1::simple_graph::PruneGraph'):
            continue
        n += 1
        c.saw(f)
        prune_body(c, f, lay)
    c.count('prune bodies', n)
    c.need('prune bodies', 1)
    m = c.work.load('graph.cpp', rf'^{NS}PruneGraph<', keep=['ParallelFor', GET, '::AddNode$', '::Size$'])
    for f in m.fns:
        if not f.qual.split('<')[0].endswith('::PruneGraph') or 'operator()' in f.qual:
            continue
        c.saw(f)
        prune_nodes(c, f)


def prune_body(c, f, lay):
    ss = segments(f)
    L = Loops(f, ss)
    kept = atom(('arg', len(f.argtypes) - 2))
    name = f.short()[:90]
    lists = {}
    for it in L.iters.values():
        for side in ('InEdges', 'OutEdges'):
            if it.kind in ('iter', 'index') and it.K[0] != 'Size' and it.K[1] == lay.node[side] and it.K[0][0] in ('deref', 'elem'):
                x = None
                for s in ss:
                    x = x or node_index(f, s, it.K[0])
                if x is not None and x == kept:
                    lists[side] = it
    for side in ('InEdges', 'OutEdges'):
        if not c.ob('prune', side in lists, f'{name}|{side} visited', f'{f.where()}: the {side} of a kept node are not all renumbered'):
            continue
        it = lists[side]
        oth = 'FromIndex' if side == 'InEdges' else 'ToIndex'
        for s in L.early(it):
            c.ob('prune', False, f'{name}|{side} all', f'{f.where()}: leaves the {side} loop before its end')
        item = lambda n: it.mem(lay.edge[n])
        kept_lists = set()
        done = [s for s in ss if s.start in it.body and s.stop == ('loop', it.h)]
        for s in done:
            mem = member(s, item(oth))
            ps = edge_pushes(s, lay)
            if not ps:
                c.ob('prune', mem is True, f'{name}|{side} dropped', f'{f.where()}: an edge in {side} is dropped although the node at its other end is kept')
                continue
            c.ob('prune', mem is False, f'{name}|{side} kept', f'{ps[0].i.where()}: an edge in {side} is kept although the node at its other end may be pruned')
            c.ob('prune', len(ps) == 1, f'{name}|{side} once', f'{ps[0].i.where()}: an edge is kept {len(ps)} times')
            w = ps[0].words
            if w is None:
                c.ob('prune', False, f'{name}|{side} edge', f'{ps[0].i.where()}: the kept edge cannot be followed')
                continue
            kept_lists.add(ps[0].list)
            me, you = (w[1], w[0]) if side == 'InEdges' else (w[0], w[1])
            c.ob('prune', me == kept, f'{name}|{side} own', f'{ps[0].i.where()}: a kept edge in {side} does not name its own node')
            c.ob('prune', erase(w[2]) == item('Weight'), f'{name}|{side} weight', f'{ps[0].i.where()}: a kept edge loses its weight')
            c.ob('prune', erase(w[3]) == item('Scratchpad'), f'{name}|{side} scratchpad', f'{ps[0].i.where()}: a kept edge loses its scratchpad')
            why = renumbered(f, ss, s, L, you, item(oth))
            c.ob('prune', why is None, f'{name}|{side} renumber', f'{ps[0].i.where()}: {why}')
        # the new list becomes the node's list
        def stored(s):
            st = [i for i in s.v.on_path(('call', 'invoke')) if re.search(r'::(operator=|swap|assign)$', i.callee or '') and
                  s.v.loc(i.ops[0]) and s.v.loc(i.ops[0])[1] == lay.node[side] and node_index(f, s, s.v.loc(i.ops[0])[0]) == kept]
            return any(s.v.loc(i.ops[1]) in kept_lists for i in st)
        leave = [s for s in ss if s.start == it.h and L.over(s, it)]
        c.ob('prune', bool(leave) and misses(ss, leave, lambda s: s.stop == ('ret',), stored) is None, f'{name}|{side} stored',
             f'{f.where()}: the renumbered {side} are not stored back on every path')


def renumbered(f, ss, s, L, got, orig):
    """None when got is orig minus the number of pruned indices below it"""
    if isinstance(got, P) and erase(got) == orig:
        return 'the other end keeps the index it had in the original graph'
    a = atom1(got) if isinstance(got, P) else None
    d = got - orig if isinstance(got, P) else None
    cs = calls_in(fz(got)) if isinstance(got, P) else []
    if any(callname(x) in ('lower_bound', 'count_if', 'distance', 'upper_bound') for x in cs):
        if any(callname(x) == 'upper_bound' for x in cs) or any(callname(x) == 'lower_bound' for x in cs):
            return None     # equal indices are excluded by the membership test
        return None
    sts = [x for x in state_atoms(fz(got)) if (x,) in got.t and erase(atom(x)) != orig] if isinstance(got, P) else []
    if (a is None or a[0] not in ('phi', 'mphi')) and len(sts) == 1 and abs(got.t[(sts[0],)]) == 1:
        a = sts[0]
    if a is None or a[0] not in ('phi', 'mphi'):
        return f'the other end is set to {str(erase(got))[:80]}, not to its renumbered index'
    h = f.inst[a[1]].block if a[0] == 'phi' else a[1]
    it = L.iters.get(h)
    if it is None:
        return 'the loop that counts the pruned indices below does not run over them in order'
    e = it.mem()
    for q in ss:
        if q.stop != ('loop', h):
            if q.start == h and q.stop != ('throw',) and not L.over(q, it):
                if not proves([erase(l) for l in q.lits], e - orig):
                    return 'the count of pruned indices below stops too early'
            continue
        t = arriving(f, q, a)
        # what the other end would be after this segment
        t = got + (t - atom(a)) * num(got.t[(a,)])
        if q.start not in it.body:
            if erase(t) != orig:
                return f'the count starts from {erase(t)}, not from the original index'
            continue
        step = (t - got).const() if isinstance(t, P) else None
        ls = [erase(l) for l in q.lits]
        if step == -1:
            if not proves(ls, orig - e - P(1)) and not proves(ls, orig - e):
                return 'an index is lowered for a pruned index that is not below it'
        elif step == 0:
            if not proves(ls, e - orig):
                return 'an index is not lowered for a pruned index that is below it'
        else:
            x = None
            if x is None:
                p = t - got if isinstance(t, P) else None
                if p is None or not any(b[0] in ('sel', 'sext', 'zext', 'bool', 'cond') for b in p.atoms()):
                    return f'the index changes by {t} per pruned index'
    return None


def prune_nodes(c, f):
    ss = segments(f)
    L = Loops(f, ss)
    name = f.short()[:80]
    adds = [(s, i) for s in ss for i in s.v.on_path(('call', 'invoke')) if re.search(r'::AddNode$|NodeAllocator.*push_back', i.callee or '')]
    loops_ = {s.start for s, i in adds}
    if not c.ob('prune', len(loops_) == 1, f'{name}|nodes', f'{f.where()}: kept nodes are not added in one pass'):
        return
    it = L.iters.get(loops_.pop())
    if not c.ob('prune', it is not None and it.kind == 'index', f'{name}|order', f'{f.where()}: nodes are not visited in index order'):
        return
    idx = atom(it.atom)
    for s in ss:
        if s.start == it.h and s.stop == ('loop', it.h):
            here = [i for t, i in adds if t is s]
            mem = member(s, idx)
            if here:
                src = s.v.loc(here[0].ops[1])
                x = node_index(f, s, src[0]) if src else None
                c.ob('prune', len(here) == 1 and mem is False, f'{name}|kept', f'{here[0].where()}: a node is added although it may be listed for pruning')
                c.ob('prune', x is not None and erase(x) == erase(idx), f'{name}|copy', f'{here[0].where()}: the node added is not the one being visited')
            else:
                c.ob('prune', mem is True, f'{name}|lost', f'{f.where()}: a node is left out although it is not listed for pruning')
    for s in L.early(it):
        c.ob('prune', False, f'{name}|all', f'{f.where()}: not every node is visited')
    # listed indices are sorted and checked
    for s in ss:
        par = [i for i in s.v.on_path(('call', 'invoke')) if 'ParallelFor' in (i.callee or '')]
        if not par:
            continue
        i = par[0]
        lo, hi = s.v.arg(i, 1), s.v.arg(i, 2)
        ok = lo == fz(P(0)) and any(callname(x) in ('Size', 'size') for x in calls_in(hi))
        c.ob('prune', ok, f'{name}|every kept node', f'{i.where()}: renumbering does not run over every kept node')
    sorts = [i for i in f.insts() if i.op in ('call', 'invoke') and re.search(r'^std::(stable_)?sort', i.callee or '')]
    ordered = [i for i in f.insts() if i.op in ('call', 'invoke') and re.search(r'^std::set<', i.callee or '')]
    c.ob('prune', bool(sorts or ordered), f'{name}|sorted', f'{f.where()}: the pruned indices are not sorted')
    c.ob('prune', in_range(f, ss, L), f'{name}|refused', f'{f.where()}: indices outside the graph are not refused')


def in_range(f, ss, L):
    """some check of the listed indices against [0, Size) precedes the pass"""
    low = high = False
    for s in ss:
        for l in s.lits:
            l = erase(l)
            if l[0] != 'ge' or l[1][0] != 'P':
                continue
            p = unfz(l[1])
            size = [k for k in p.t if len(k) == 1 and callname(k[0]) in ('size', 'Size')]
            rest = [k for k in p.t if len(k) == 1 and k not in size and k[0][0] in ('m', 'out', 'call', 'callv')]
            if len(rest) != 1:
                continue
            if p.t[rest[0]] == 1 and len(p.t) == 1:
                low = True
            if p.t[rest[0]] == -1 and len(size) == 1 and p.t[size[0]] == 1 and p.t.get((), 0) == -1 and len(p.t) == 3:
                high = True
    calls = [i for i in f.insts() if i.op in ('call', 'invoke') and (i.callee or '').endswith('::IndexInRange')]
    return low and high or bool(calls)


# ---------------------------------------------------------------- reweighting
def reweight(c, lay):
    m = c.work.load('prm.cpp', r'^common_robotics_utilities::v1::simple_prm_planner::UpdateRoadMapEdges<.*operator\(\)', keep=[GET])
    n = 0
    for f in m.fns:
        if not f.qual.startswith('common_robotics_utilities::v1::simple_prm_planner::UpdateRoadMapEdges'):
            continue
        c.saw(f)
        n += 1
        ss = segments(f)
        L = Loops(f, ss)
        cur = atom(('arg', len(f.argtypes) - 2))
        name = f.short()[:90]
        outs = [it for it in L.iters.values() if it.kind in ('iter', 'index') and it.K[0] != 'Size' and it.K[1] == lay.node['OutEdges'] and
                any(node_index(f, s, it.K[0]) == cur for s in ss)]
        if not c.ob('reweight', len(outs) == 1, f'{name}|visited', f'{f.where()}: the out edges of a node are not all visited'):
            continue
        out = outs[0]
        to = out.mem(lay.edge['ToIndex'])
        for s in L.early(out):
            c.ob('reweight', False, f'{name}|all', f'{f.where()}: leaves the out edges before their end')
        W = set()
        for s in L.inner(out.h):
            for i in s.v.on_path(('store',)):
                l = s.v.loc(i.ops[1])
                if l and out.at(l) == lay.edge['Weight']:
                    W |= {fz(erase(s.v.val(i.ops[0]))), ('ssa', str(i.ops[0]))}
        def out_set(s):
            return any(s.v.loc(i.ops[1]) and out.at(s.v.loc(i.ops[1])) == lay.edge['Weight'] for i in s.v.on_path(('store',)))
        item = [s for s in ss if s.start == out.h and not L.over(s, out)]
        c.ob('reweight', misses(ss, item, lambda s: s.stop == ('loop', out.h), out_set) is None, f'{name}|out always',
             f'{f.where()}: an out edge can keep its old weight')
        c.ob('reweight', len(W) >= 1, f'{name}|out', f'{f.where()}: the weight of an out edge is not updated')
        ins = [it for it in L.iters.values() if it.kind in ('iter', 'index') and it.K[0] != 'Size' and it.K[1] == lay.node['InEdges'] and it.h in out.body and
               any(node_index(f, s, it.K[0]) is not None and erase(node_index(f, s, it.K[0])) == to for s in ss)]
        if not c.ob('reweight', len(ins) == 1, f'{name}|other', f'{f.where()}: the in edges of the node at the other end are not visited'):
            continue
        it = ins[0]
        fr = it.mem(lay.edge['FromIndex'])
        for s in ss:
            if s.start != it.h:
                continue
            if s.stop == ('throw',) or L.over(s, it):
                continue
            eq = [unfz(erase(l)[1]) for l in s.lits if l[0] == 'eq' and l[1][0] == 'P']
            ne = [unfz(erase(l)[1]) for l in s.lits if l[0] == 'ne' and l[1][0] == 'P']
            st = [i for i in s.v.on_path(('store',)) if s.v.loc(i.ops[1]) and it.at(s.v.loc(i.ops[1])) == lay.edge['Weight']]
            if st:
                c.ob('reweight', fr - cur in eq or cur - fr in eq, f'{name}|match', f'{st[0].where()}: an in edge that does not come from this node is reweighted')
                ok = all(fz(erase(s.v.val(i.ops[0]))) in W or ('ssa', str(i.ops[0])) in W for i in st)
                c.ob('reweight', ok, f'{name}|same', f'{st[0].where()}: the two copies of an edge get different weights')
            else:
                c.ob('reweight', fr - cur in ne or cur - fr in ne, f'{name}|missed', f'{f.where()}: the in edge at the other end keeps its old weight')
            if s.stop != ('loop', it.h):
                c.ob('reweight', False, f'{name}|stops', f'{f.where()}: not every in edge at the other end is looked at')
    c.count('reweight bodies', n)
    c.need('reweight bodies', 1)
