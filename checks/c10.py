"""C10: planner trees link parent and child both ways; solution paths follow parent links."""
import re

import sa
from codec import P, atom
from flow import atom1, atoms_in, arriving, facts, proves, state_atoms
from graphs import PUSH, ptr_of, words
from loops import Loops, calls_in, callname, container_of, erase
from paths import feasible, negate, paths, segments
from val import fz, unfz

FN = r'^std::function<.*>::operator\(\)$'
INSERT = re.compile(r'::(push_back|emplace_back)(<.*>)?$')
CONST = {'Size', 'Empty', 'GetNodeImmutable', 'GetNodesImmutable', 'GetNodeMutable', 'GetNodesMutable',
         'GetValueImmutable', 'GetParentIndex', 'GetChildIndices'}
EXTRACT = 'ExtractSolutionPath'


def run(c):
    c.rule('untouched', 'the planners change a tree only through AddNodeAndConnect')
    c.rule('linked', 'each proposed state is added exactly once, to the tree it was extended in, below the already added state it '
                     'names as its predecessor, or below the node whose state was handed to the extension function')
    c.rule('mapping', 'the table from proposed state to node starts empty for each extension and receives every new index, in order')
    c.rule('solution', 'a node (pair) becomes a solution exactly when the caller\'s check accepted its state(s); start and goal side '
                       'are kept apart, whichever tree is being grown')
    c.rule('extract', 'a path consists of the goal state and its ancestors up to the root, reversed; one path per solution')
    c.rule('combine', 'a two-tree path is the start-tree path followed by the reversed goal-tree path of the same bridge')
    c.rule('own tree', 'the library\'s tree stores the node with its parent, lists it at that parent and returns its index, and '
                       'refuses a parent that is not there before storing anything')
    c.rule('linkage', 'the tree\'s linkage check accepts only when each parent is an earlier node that lists the child, and each '
                      'listed child is a later node naming this parent')
    c.rule('propose', 'the extension functions propose a state only after the edge check accepted the motion to it from its predecessor')
    c.assume('callbacks and extension functions supplied by the caller do not themselves rearrange the tree')
    c.assume('copying a state preserves its value')
    m = c.work.load('rrt.cpp', [r'::RRTPlanMultiPath<[^(]*$', r'::BiRRTPlanMultiPath<[^(]*$'], keep=[EXTRACT])
    off = state_offset(c)
    for f in m.fns:
        if re.search(r'::(Bi)?RRTPlanMultiPath<.*>$', f.qual.split('(')[0]) and not f.qual.endswith('vector'):
            planner(c, f, 'BiRRT' in f.qual.split('PlanMultiPath')[0].split('::')[-1], off)
    c.need('planners', 2)
    single(c)
    extract(c)
    own_tree(c)
    own_node(c)
    linkage(c)
    propose(c)
    c.need('obligations:linked', 8)
    c.need('obligations:propose', 6)


def state_offset(c):
    """offsets of state and relative parent index within a proposed state"""
    m = c.work.load('rrt.cpp', r'^propagated_(state|parent)$')
    out = {}
    for f in m.fns:
        r = paths(f)[0].ret()
        if f.qual.startswith('propagated_state'):
            out['state'] = ptr_of(r)[1]
        else:
            a = atom1(r)
            out['rel'] = a[1][1]
    if len(out) != 2:
        raise sa.Broken('layout of PropagatedState not found')
    return out


# ---------------------------------------------------------------- vocabulary
def calls(s, rx=None):
    return [i for i in s.v.on_path(('call', 'invoke')) if i.callee and (rx is None or re.search(rx, i.callee))]


def opl(s, i, k):
    """place operand k of i points at"""
    return s.v.loc(i.ops[k]) if k < len(i.ops) else None


def fn_calls(s, k):
    """calls of the std::function that is argument k"""
    out = []
    for i in calls(s, FN):
        l = opl(s, i, 1 if i.sret else 0)
        if l == (('arg', k), 0):
            out.append(i)
    return out


def user(i, k):
    """operand of user argument k of a std::function call"""
    return i.ops[(2 if i.sret else 1) + k]


def settle(t, lits):
    """t with selects on decided conditions resolved"""
    if isinstance(t, P):
        return unfz(settle(fz(t), lits))
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'P' and len(t) == 2:
        r = P(0)
        for k, v in t[1]:
            y = P(v)
            for a in k:
                z = settle(a, lits)
                y = y * (unfz(z) if isinstance(z, tuple) and z and z[0] == 'P' else atom(z))
            r = r + y
        return fz(r)
    if t[0] == 'sel' and len(t) == 4 and t[1][0] == 'cond':
        d = t[1][1]
        if holds(d, lits):
            return settle(t[2], lits)
        if holds(negate(d), lits):
            return settle(t[3], lits)
    if t[0] == 'deref' and len(t) == 2:
        x = settle(t[1], lits)
        return ('deref', x)
    return tuple(settle(x, lits) for x in t)


def holds(d, lits):
    if d in lits:
        return True
    if d[0] in ('eq', 'ne') and d[1][0] == 'P' and (d[0], fz(P(0) - unfz(d[1]))) in lits:
        return True
    if d[0] == 'ne' and d[1][0] == 'P':
        # a == k excludes a == j
        for l in lits:
            if l[0] == 'eq' and l[1] and l[1][0] == 'P':
                for x in (unfz(l[1]), P(0) - unfz(l[1])):
                    k = (unfz(d[1]) - x).const()
                    if k not in (None, 0):
                        return True
    return False


def place(l, lits=()):
    """place with selected pointers resolved"""
    if l is None:
        return None
    r = settle(l[0], lits)
    if r[0] == 'deref':
        a = atom1(unfz(r[1])) if isinstance(r[1], tuple) and r[1] and r[1][0] == 'P' else r[1]
        if isinstance(a, tuple) and a and a[0] == 'ptr' and a[1]:
            return (a[1][0], a[1][1] + l[1])
        if isinstance(a, tuple) and a and a[0] == 'arg':
            return (a, l[1])
    return (r, l[1])


def node_of(s, t, lits=()):
    """(tree place, index) of the node a state term was read from, or None"""
    got = set()
    for x in calls_in(erase(t)):
        if callname(x) in ('GetNodeImmutable', 'GetNodeMutable'):
            for i in s.v.fn.insts():
                if i.op in ('call', 'invoke') and re.search(r'^Tree::GetNode(Imm|M)utable$', i.callee or ''):
                    for v in (s.v, s.v.base):
                        if v is not None and erase(fz(v.val(('i', i.id)))) == erase(fz(atom(x))):
                            got.add((place(v.loc(i.ops[0]), lits), fz(v.n(i.ops[1]))))
    # the same node may be named through a resolved and an unresolved pointer
    got = {(t, n) for t, n in got if t is not None}
    if len(got) > 1:
        known = {g for g in got if g[0][0][0] == 'arg'}
        got = known if len(known) == 1 else got
    if len(got) != 1:
        return None
    (t, n), = got
    return t, unfz(n)


def verdict(lits, i):
    """what the literals say about the boolean result of call i"""
    for l in lits:
        if l[0] == 'bool' and l[1] and l[1][0] == 'P':
            a = atom1(unfz(l[1]))
            if a and a[0] == 'callv' and a[2] == i.id:
                return l[2]
            if a and a[0] == 'trunc':
                b = atom1(unfz(a[2])) if a[2][0] == 'P' else a[2]
                if b and b[0] == 'callv' and b[2] == i.id:
                    return l[2]
    return None


def same(x, y):
    """equal up to what a library container call is assumed not to change in its arguments"""
    return thin(x) == thin(y)


def thin(x):
    return erase(fz(x)) if isinstance(x, P) else erase(x)


def plain(s, x):
    """index x with 'argument after vector call' replaced by the argument"""
    x = unfz(fz(x))
    for _ in range(4):
        a = atom1(x)
        if a and a[0] == 'out' and a[1][0] == 'callv' and a[3] == 0 and isinstance(a[2], int):
            i = s.v.fn.inst.get(a[1][2])
            if i is not None and INSERT.search(i.callee or ''):
                l = s.v.loc(i.ops[a[2]])
                if l:
                    x = s.v.mem(l, 8, i)
                    continue
        break
    return x


# ---------------------------------------------------------------- planners
def planner(c, f, bi, off):
    c.saw(f)
    c.count('planners')
    K = dict(zip(('prop', 'added', 'check', 'told', 'pick'), (7, 8, 9, 10, (5, 6)) if bi else (4, 5, 6, 7, (3,))))
    ss = segments(f, cap=4000)
    if ss is None:
        c.unsure('linked', f.short(), 'too many paths')
        return
    trees = [(('arg', 1), 0)] + ([(('arg', 2), 0)] if bi else [])
    w = f.where()
    name = f.qual.split('<')[0].split('::')[-1]
    L = Loops(f, ss)
    for s in ss:
        for i in calls(s, r'^(Tree|Node)::'):
            n = i.callee.split('::')[-1]
            if n not in CONST and n != 'AddNodeAndConnect':
                c.ob('untouched', False, f'{name}|{n}', f'{i.where()}: growth changes existing nodes or links ({n})')
    c.ob('untouched', True, name)
    props = {i.id: i for s in ss for i in fn_calls(s, K['prop'])}
    if len(props) != 1:
        c.unsure('linked', f'{name}|extension', f'{w}: {len(props)} calls of the extension function')
        return
    prop = next(iter(props.values()))
    V = entry = None
    starts = []         # segments in which an extension is made
    for s in ss:
        if prop.block in s.v.path and s.v.loc(prop.ops[0]):
            V = s.v.loc(prop.ops[0]) if prop.sret else None
            n = node_of(s, s.v.arg(prop, 2 if prop.sret else 1), s.lits)
            if n is None:
                c.unsure('linked', f'{name}|nearest', f'{w}: the state handed to the extension function is not that of a tree node')
                return
            starts.append((s, n))
            asked(c, s, name, K, n, 'nearest')
            b = 2 if prop.sret else 1
            if len(prop.ops) > b + 1:
                g = node_of(s, s.v.arg(prop, b + 1), s.lits)
                if g is not None:
                    c.ob('linked', g[0] != n[0], f'{name}|toward', f'{w}: a tree is extended towards a node of itself')
                    asked(c, s, name, K, g, 'target')
    it = next((x for x in L.iters.values() if x.K[0] != ('Size',) and x.K == V), None)
    adds_all = {i.id for s in ss for i in calls(s, r'^Tree::AddNodeAndConnect$')}
    c.ob('linked', bool(adds_all), f'{name}|adds', f'{w}: no proposed state is ever added')
    if it is None:
        off_it = next((x for x in L.off.values() if x.K == V), None)
        if off_it is not None:
            c.ob('linked', False, f'{name}|all', f'{w}: the loop over the proposed states leaves some out')
        else:
            c.unsure('linked', f'{name}|loop', f'{w}: no loop over the proposed states was recognised')
        return
    for s in L.early(it):
        c.ob('linked', False, f'{name}|all', f'{w}: the loop over the proposed states is left before its end')
    for s, n in starts:
        if s.stop != ('loop', it.h):
            none = any(l[0] == 'bool' and l[2] and 'empty' in [callname(x) for x in calls_in(l)] or
                       l[0] in ('eq', 'ge', 'uge') and 'size' in [callname(x) for x in calls_in(l)] for l in s.lits)
            c.ob('linked', none, f'{name}|dropped', f'{w}: proposed states are dropped without having been looked at')
        else:
            c.ob('linked', True, f'{name}|dropped')
    entering = [(s, n) for s, n in starts if s.stop == ('loop', it.h)]
    inner = [s for s in ss if s.start == it.h]
    if any(h in it.body and h != it.h for h in f.loops()):
        c.unsure('linked', f'{name}|nested', f'{w}: loop inside the loop over the proposed states')
        return
    table = mapping = None
    for s in inner:
        going = s.stop == ('loop', it.h)
        adds = calls(s, r'^Tree::AddNodeAndConnect$')
        if not going:
            c.ob('linked', not adds, f'{name}|once', f'{w}: a state is added outside the loop over the proposed states')
            continue
        c.ob('linked', len(adds) == 1, f'{name}|once', f'{w}: a proposed state is added {len(adds)} times')
        if len(adds) != 1:
            continue
        a = adds[0]
        new = s.v.val(('i', a.id))
        l = opl(s, a, 1)
        st = it.at(l)
        val = s.v.arg(a, 1)
        cur = item_words(s, it, off['state'], a)
        c.ob('linked', st == off['state'] or cur is not None and thin(val) == thin(cur), f'{name}|value', f'{a.where()}: the state added is not the proposed one')
        rel = it.mem(off['rel'])
        lits = [erase(x) for x in s.lits]
        pos, neg = proves(lits, rel), proves(lits, P(-1) - rel)
        for e, (tree, near) in entering:
            both = e.lits + s.lits
            if not feasible(both):
                continue
            c.count('extension paths')
            c.ob('linked', place(opl(s, a, 0), both) == tree, f'{name}|tree', f'{a.where()}: added to a tree other than the one it was extended in')
            p = s.v.n(a.ops[2])
            p = settle(p, both)
            if same(p, near):
                c.ob('linked', neg, f'{name}|nearest', f'{a.where()}: linked to the nearest node although a predecessor among the proposed states is named')
            else:
                q = atom1(plain(s, p))
                pl = q[1] if q and q[0] == 'm' else q[2] if q and q[0] == 'mphi' else q[3] if q and q[0] == 'out' else None
                if pl and pl[0][0] == 'elem' and pl[0][1][0][0] == 'alloca' and pl[1] == 0:
                    table = pl[0][1]
                    c.ob('linked', same(unfz(pl[0][2]), rel) and pos, f'{name}|predecessor',
                         f'{a.where()}: looks up predecessor {unfz(pl[0][2])}, the proposed state names {rel}')
                else:
                    ok = q is not None and (q[0] in ('phi',) or q[0] in ('mphi', 'm'))
                    c.ob('linked', False, f'{name}|predecessor', f'{a.where()}: linked to {p}, neither the nearest node nor the named predecessor', not ok)
    if table is not None:
        for s in inner:
            if s.stop != ('loop', it.h):
                continue
            a = (calls(s, r'^Tree::AddNodeAndConnect$') or [None])[0]
            ps = [i for i in calls(s) if INSERT.search(i.callee) and opl(s, i, 0) == table]
            ok = a is not None and len(ps) == 1 and same(plain(s, first_value(s, ps[0])), s.v.val(('i', a.id)))
            wr = [i for i in s.v.on_path(('store',)) if opl(s, i, 1) and opl(s, i, 1)[0][0] == 'elem' and opl(s, i, 1)[0][1] == table]
            c.ob('mapping', ok, f'{name}|recorded', f'{w}: the index of the added state is not recorded exactly once', not wr)
        for e, _ in entering:
            seq = calls(e)
            fresh = [i for i in seq if re.search(r'::(vector|clear)$', i.callee) and opl(e, i, 0) == table]
            dirty = [i for i in seq if INSERT.search(i.callee) and opl(e, i, 0) == table]
            sized = [i for i in fresh if i.callee.endswith('::vector') and len(i.ops) > 1]
            c.ob('mapping', bool(fresh) and not dirty, f'{name}|fresh', f'{w}: predecessors are looked up among states of an earlier extension', not sized)
    else:
        c.ob('mapping', False, f'{name}|table', f'{w}: predecessors among the proposed states are ignored')
    solutions(c, f, name, bi, K, ss, L, it, entering, trees)


def asked(c, s, name, K, n, what):
    """a node index obtained from a callback is used with the tree the callback was asked about"""
    for k in K['pick']:
        for i in fn_calls(s, k):
            if s.v.val(('i', i.id)) == n[1]:
                t = place(opl(s, i, 2 if i.sret else 1), s.lits)
                c.ob('linked', t == n[0], f'{name}|{what} asked', f'{i.where()}: the index of the {what} node was asked for in another tree')


def item_words(s, it, o, at):
    pl = it.place(o)
    try:
        return s.v.content(pl, 16, at)
    except Exception:
        return None


def first_value(s, i):
    x = s.v.arg(i, 1)
    return unfz(x) if x[0] == 'P' else atom(x)


def solutions(c, f, name, bi, K, ss, L, it, entering, trees):
    w = f.where()
    ex = [(s, i) for s in ss for i in calls(s, r'^common[^\']*::ExtractSolutionPaths?<')]
    if not ex:
        c.unsure('solution', f'{name}|extracted', f'{w}: no path is read off the tree')
        return
    if not bi:
        G = {opl(s, i, 2 if i.sret else 1) for s, i in ex if 'Paths<' in i.callee}
        if len(G) != 1 or None in G:
            c.unsure('solution', f'{name}|list', f'{w}: the list of solutions was not recognised')
            return
        G = G.pop()
        for s, i in ex:
            c.ob('solution', opl(s, i, 1) == trees[0], f'{name}|tree', f'{i.where()}: paths are read off another tree')
            done = [j for j in calls(s) if opl(s, j, 0) == (('arg', 0), 0) and re.search(r'::vector$', j.callee)]
            c.ob('solution', any('ExtractSolutionPaths' in [callname(x) for x in calls_in(s.v.arg(j, 1))] for j in done if len(j.ops) > 1),
                 f'{name}|returned', f'{w}: the extracted paths are not what is returned', bool(done))
        for s in ss:
            if s.stop == ('ret',):
                c.ob('solution', any(s is x for x, _ in ex), f'{name}|every return', f'{w}: returns without extracting the solutions')
    else:
        G = combine(c, f, name, ss, L, ex, trees)
        if G is None:
            return
        G, order = G
    made = 0
    for s in ss:
        pushes = [i for i in calls(s) if INSERT.search(i.callee) and opl(s, i, 0) == (G if not bi else G)]
        checks = fn_calls(s, K['check'])
        adds = calls(s, r'^Tree::AddNodeAndConnect$')
        told = fn_calls(s, K['told'])
        ctx = [(e, n) for e, n in entering if s.start == it.h and feasible(e.lits + s.lits)] if s.start == it.h else [(None, None)]
        for e, en in ctx:
            lits = s.lits + (e.lits if e else [])
            acc = [k for k in checks if verdict(s.lits, k) is True]
            und = [k for k in checks if verdict(s.lits, k) is None]
            if und:
                c.unsure('solution', f'{name}|ignored', f'{w}: the outcome of the solution check is not tested on the spot')
                continue
            want = []
            for k in acc:
                x = node_of(s, s.v.arg(k, 2 if k.sret else 1), lits)
                if x is None:
                    c.unsure('solution', f'{name}|state', f'{k.where()}: the checked state is not that of a node')
                    continue
                if not bi:
                    want.append((x[1],))
                    c.ob('solution', x[0] == trees[0], f'{name}|node', f'{k.where()}: checks a node of another tree')
                    continue
                y = node_of(s, s.v.arg(k, 3 if k.sret else 2), lits) or other_end(s, e, k, lits)
                if y is None:
                    c.ob('solution', False, f'{name}|other end', f'{k.where()}: a state is connected that is not that of a node of the other tree')
                    continue
                ends = {x[0]: x[1], y[0]: y[1]}
                if set(ends) != set(trees):
                    c.ob('solution', False, f'{name}|trees', f'{k.where()}: the connected states are not one of each tree')
                    continue
                want.append((ends[trees[0]], ends[trees[1]]))
            if len(want) != len(acc):
                continue
            got = []
            for i in pushes:
                if not bi:
                    got.append((plain(s, first_value(s, i)),))
                else:
                    got.append(pair(s, e, i, order, lits))
            if any(x is None for g in got for x in (g or (None,))):
                c.unsure('solution', f'{name}|pushed', f'{w}: the recorded solution could not be read')
                continue
            made += len(got)
            key = lambda g: sorted(str(tuple(thin(settle(x, lits)) for x in t)) for t in g)
            c.ob('solution', key(got) == key(want), f'{name}|recorded',
                 f'{w}: records {[tuple(map(str, g)) for g in got]} as solutions where the check accepted {[tuple(map(str, g)) for g in want]}')
            for i in told:
                b = 2 if i.sret else 1
                if not bi:
                    t = (plain(s, s.v.n(i.ops[b + 1])),)
                    tp = [place(opl(s, i, b), lits)]
                else:
                    t = tuple(told_index(s, e, i.ops[b + k], i, G, order, got, lits) for k in (1, 3))
                    tp = [place(opl(s, i, b + k), lits) for k in (0, 2)]
                if None in t:
                    continue
                c.ob('solution', tp == trees and key([t]) == key(want[:1]), f'{name}|told', f'{i.where()}: the callback is told about {tuple(map(str, t))}')
        if s.start == it.h and s.stop == ('loop', it.h) and not bi:
            c.ob('solution', len(checks) == 1 and len(adds) == 1, f'{name}|checked', f'{w}: a new node is not checked exactly once')
    c.ob('solution', made > 0, f'{name}|made', f'{w}: no solution is ever recorded')


def other_end(s, e, k, lits):
    """node whose state was copied, before the loop over the proposed states, to where the check reads it"""
    if e is None:
        return None
    l = opl(s, k, 3 if k.sret else 2)
    if l is None or l[0][0] not in ('alloca', 'deref'):
        return None
    if l[0][0] == 'deref':
        t = fz(e.v.n(k.ops[3 if k.sret else 2]))
        return node_of(e, t, lits)
    b = e.v.path[-1]
    ws = tuple(fz(e.v.at_end((l[0], l[1] + 8 * j), 8, b)) for j in (0, 1))
    return node_of(e, ws, lits)


def along(s, e, ref):
    """value of ref in segment s, with what was computed before the loop seen along e"""
    x = s.v.n(ref)
    if e is None:
        return x
    return follow(s, e, x)


def follow(s, e, x):
    for a in state_atoms(fz(x)):
        if a[0] == 'phi' and s.v.fn.inst[a[1]].block in e.v.path[1:]:
            y = e.v.n(('i', a[1]))
            if atom1(x) == a:
                x = y
    return x


def pair(s, e, i, order, lits):
    """(start index, goal index) of a recorded bridge"""
    n = len(i.ops) - 1
    if n == 2:
        xs = [s.v.arg(i, k) for k in (1, 2)]
        xs = [plain(s, unfz(x)) if x[0] == 'P' else None for x in xs]
        if None in xs:
            return None
        xs = [follow(s, e, x) if e else x for x in xs]
        byoff = {order['ctor'][0]: xs[0], order['ctor'][1]: xs[1]}
    else:
        l = opl(s, i, 1)
        if l is None:
            return None
        byoff = {}
        for o in (order['start'], order['goal']):
            x = plain(s, s.v.mem((l[0], l[1] + o), 8, i))
            byoff[o] = follow(s, e, x) if e else x
    return (byoff.get(order['start']), byoff.get(order['goal']))


def told_index(s, e, ref, i, G, order, got, lits):
    """index handed to the bridge callback: read from the bridge just recorded, or given directly"""
    x = plain(s, s.v.n(ref))
    a = atom1(erase(x))
    if a and a[0] == 'm' and a[1][0][0] in ('deref', 'at', 'elem') and 'back' in [callname(y) for y in calls_in(a)]:
        l = a[1]
        o = l[1]
        if o in (order['start'], order['goal']) and len(got) == 1:
            return got[0][0 if o == order['start'] else 1]
        return None
    return follow(s, e, x) if e else x


def combine(c, f, name, ss, L, ex, trees):
    """two-tree paths; returns (bridge container, where start and goal index are kept)"""
    w = f.where()
    by = {}
    for s, i in ex:
        by.setdefault(id(s), (s, []))[1].append(i)
    G = order = None
    for s, es in by.values():
        it = L.iters.get(s.start)
        if it is None or len(es) != 2:
            c.unsure('combine', f'{name}|loop', f'{w}: no loop over the recorded bridges was recognised')
            return None
        idx = {}
        for i in es:
            tree = opl(s, i, 1)
            l = opl(s, i, 2) if f.is_ptr(i.ops[2]) else None
            x = erase(s.v.n(i.ops[2])) if l is None else None
            a = atom1(x) if x is not None else None
            o = it.at(a[1]) if a and a[0] == 'm' else None
            if o is None and a and a[0] == 'm' and erase(it.place())[0] == a[1][0]:
                o = a[1][1]
            idx[tree] = (o, i)
        if set(idx) != set(trees):
            c.ob('combine', False, f'{name}|trees', f'{w}: a path does not combine a path of each tree')
            return None
        (so, si), (go, gi) = idx[trees[0]], idx[trees[1]]
        if so is None or go is None:
            c.unsure('combine', f'{name}|bridge', f'{w}: the bridge a path is made from was not recognised')
            return None
        G, order = it.K, {'start': so, 'goal': go}
        c.ob('combine', so != go, f'{name}|both', f'{w}: both halves use the same index')
        for x in L.early(it):
            c.ob('combine', False, f'{name}|all', f'{w}: not every recorded bridge becomes a path')
        for x in ss:
            if x.start == it.h and x.stop == ('loop', it.h):
                c.ob('combine', id(x) in by, f'{name}|each', f'{w}: not every recorded bridge becomes a path')
        A, B = s.v.loc(si.ops[0]), s.v.loc(gi.ops[0])
        seq = [i.id for i in calls(s)]
        rev = [i for i in calls(s, r'^std::reverse<')]
        ins = [i for i in calls(s, r'::insert(<.*>)?$')]
        out = [i for i in calls(s) if INSERT.search(i.callee) and re.search(r'vector<std::vector<', i.callee)]
        first = lambda i, k: base_of(s, i.ops[k])
        rb = [i for i in rev if first(i, 0) == B]
        ra = [i for i in rev if first(i, 0) == A]
        good = len(rb) == 1 and not ra and len(rev) == 1
        joined = [i for i in ins if opl(s, i, 1 if i.sret else 0) == A]
        app = len(ins) == 1 and len(joined) == 1
        rd = good
        if app:
            i = joined[0]
            b = 1 if i.sret else 0
            at = name_of(s, i.ops[b + 1])
            frm = name_of(s, i.ops[b + 2])
            good2 = at == ('end', A)
            if not rev:
                good = frm == ('rbegin', B)
            else:
                good = good and frm == ('begin', B) and seq.index(rev[0].id) < seq.index(i.id)
            c.ob('combine', good2, f'{name}|appended', f'{i.where()}: the goal half is not put behind the start half', at[0] in ('begin', 'end'))
            c.ob('combine', good, f'{name}|reversed', f'{w}: the goal half is not reversed exactly once before it is appended',
                 frm[0] in ('begin', 'end', 'rbegin', 'rend'))
        else:
            c.unsure('combine', f'{name}|joined', f'{w}: the two halves are not joined by one insertion')
        if len(out) == 1:
            src = s.v.loc(out[0].ops[1])
            c.ob('combine', src == A and (not app or seq.index(joined[0].id) < seq.index(out[0].id)), f'{name}|kept', f'{out[0].where()}: what is returned is not the combined path')
        else:
            c.ob('combine', False, f'{name}|kept', f'{w}: {len(out)} paths are returned per bridge')
    if G is None:
        return None
    order['ctor'] = ctor_offsets(c) or (order['start'], order['goal'])
    return G, order


def ctor_offsets(c):
    """where the two constructor arguments of a bridge end up"""
    m = c.work.load('rrt.cpp', r'::BiRRTPlanMultiPath<.*GoalBridge::GoalBridge$')
    for f in m.fns:
        if len(f.params) < 3 or f.params[1]['ty'] == 'ptr':
            continue
        for p in paths(f) or ():
            out = {}
            for i in p.v.on_path(('store',)):
                l, x = p.v.loc(i.ops[1]), atom1(p.v.n(i.ops[0]))
                if l and l[0] == ('arg', 0) and x in (('arg', 1), ('arg', 2)):
                    out[x[1]] = l[1]
            if len(out) == 2:
                return (out[1], out[2])
    return None


def base_of(s, ref):
    n = name_of(s, ref)
    return n[1] if n else None


def name_of(s, ref):
    """('begin'|'end'|'rbegin'|..., container) an iterator operand stands for"""
    l = s.v.loc(ref)
    if l and l[0][0] == 'elem' and l[1] == 0 and l[0][2] == fz(P(0)):
        return ('begin', l[0][1])
    t = [l] if l else []
    try:
        t.append(fz(s.v.n(ref)))
    except Exception:
        pass
    if l and l[0][0] == 'alloca':       # iterator object in memory
        for i in calls(s, r'::(r?begin|r?end|cbegin|cend)$'):
            if i.sret and opl(s, i, 0) and opl(s, i, 0)[0] == l[0]:
                return (i.callee.split('::')[-1], opl(s, i, 1))
        try:
            t.append(s.v.content(l, 8, s.v.fn.blocks[s.v.path[-1]][-1]))
        except Exception:
            pass
    if l and l[0][0] in ('deref', 'elem') and l[1] != 0:
        t = [l[0]]
        away = ' and more'
    else:
        away = ''
    for x in t:
        for y in calls_in(x):
            n = callname(y)
            if n in ('begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend'):
                for i in calls(s, rf'::{n}$'):
                    v = s.v.val(('i', i.id)) if not i.sret else None
                    if v is not None and fz(v) == fz(atom(y)):
                        return (n.replace('cb', 'b').replace('ce', 'e') + away, opl(s, i, 0))
                    if i.sret and y[0] == 'callv' and y[2] == i.id:
                        return (n + away, opl(s, i, 1))
    return ('?', None)


# ---------------------------------------------------------------- one solution only
def single(c):
    m = c.work.load('rrt.cpp', [r'::(Bi)?RRTPlanSinglePath<[^(]*$'], keep=['PlanMultiPath'])
    for f in m.fns:
        if f.qual.split('(')[0].endswith('vector') or not re.search(r'::(Bi)?RRTPlanSinglePath<[^(]*$', f.qual):
            continue
        name = f.qual.split('<')[0].split('::')[-1]
        c.saw(f)
        w = f.where()
        for s in segments(f) or ():
            if s.stop != ('ret',):
                continue
            ms = calls(s, r'^common[^\']*::(Bi)?RRTPlanMultiPath<')
            if len(ms) != 1:
                c.unsure('solution', f'{name}|search', f'{w}: {len(ms)} searches')
                continue
            i = ms[0]
            n = len(i.ops)
            skip = {7, 8} if 'BiRRT' not in name else {10, 12}
            for k in range(1, n):
                if k in skip:
                    continue
                c.ob('solution', opl(s, i, k) == (('arg', k), 0), f'{name}|passed {k}', f'{i.where()}: argument {k} is not handed on')
            some = [l for l in s.lits if 'size' in [callname(x) for x in calls_in(l)] or 'empty' in [callname(x) for x in calls_in(l)]]
            built = [j for j in calls(s, r'::vector$') if opl(s, j, 0) == (('arg', 0), 0)]
            res = opl(s, i, 0)
            nonempty = any(positive(l) for l in some)
            for j in built:
                if len(j.ops) > 1:
                    src = opl(s, j, 1)
                    c.ob('solution', src is not None and src[0][0] == 'elem' and src[0][1] == res and src[1] == 0 and
                         (src[0][2] == fz(P(0)) or nonempty), f'{name}|path', f'{j.where()}: the path returned is not one of the search')
                else:
                    c.ob('solution', not nonempty, f'{name}|lost', f'{w}: an empty path is returned although the search found one')


def positive(l):
    if l[0] in ('ge', 'uge') and l[1][0] == 'P':
        p = unfz(l[1])
        return p.t.get((), 0) <= -1 and any(v > 0 for k, v in p.t.items() if k)
    if l[0] == 'ne':
        return True
    if l[0] == 'bool':
        return 'empty' in [callname(x) for x in calls_in(l)] and not l[2]
    return False


# ---------------------------------------------------------------- paths
def extract(c):
    m = c.work.load('rrt.cpp', r'::ExtractSolutionPath<[^(]*$')
    for f in m.fns:
        if not re.search(r'::ExtractSolutionPath<[^(]*$', f.qual):
            continue
        c.saw(f)
        w = f.where()
        ss = segments(f)
        phis = {h: {i.id for i in f.blocks[h] if i.op == 'phi' and i.ty != 'ptr'} for h in f.loops()}
        box = {opl(s, i, 0) for s in ss for i in calls(s) if INSERT.search(i.callee)}
        front = {opl(s, i, 1 if i.sret else 0) for s in ss for i in calls(s, r'::insert(<.*>)?$')}
        if len(box) != 1 or front:
            c.unsure('extract', 'container', f'{w}: the way the path is built up was not recognised')
            continue
        box = box.pop()

        def walk(s, cur):
            """(ok, cursor afterwards)"""
            for i in calls(s):
                if INSERT.search(i.callee) and opl(s, i, 0) == box:
                    n = node_of(s, s.v.arg(i, 1), s.lits)
                    if n is None:
                        return None, cur
                    if n[0] != (('arg', 1), 0) or not same(n[1], cur):
                        return False, cur
                    cur = parent(s, cur)
                    if cur is None:
                        return None, cur
            return True, cur

        def parent(s, cur):
            for i in calls(s, r'^Node::GetParentIndex$'):
                x = s.v.val(('i', i.id))
                n = node_of(s, fz(x), s.lits)
                if n and same(n[1], cur):
                    return x
            return None
        # loop variables that are the cursor on arrival
        for _ in range(4):
            for s in ss:
                if s.stop[0] != 'loop':
                    continue
                for q in list(phis[s.stop[1]]):
                    curs = [unfz(fz(atom(('arg', 2))))] if s.start == 0 else [atom(('phi', x)) for x in phis.get(s.start, ())]
                    if not any(reach(walk(s, cur), s, f, q) for cur in curs):
                        phis[s.stop[1]].discard(q)
        for h, qs in phis.items():
            c.ob('extract', len(qs) >= 1, f'chain', f'{w}: the loop does not follow parent links from the goal state')
        for s in ss:
            cur = [atom(('arg', 2))] if s.start == 0 else [atom(('phi', x)) for x in phis.get(s.start, ())][:1]
            if not cur:
                continue
            ok, after = walk(s, cur[0])
            if ok is None:
                c.unsure('extract', 'state', f'{w}: what is appended to the path is not a node\'s state')
                continue
            c.ob('extract', ok, 'node', f'{w}: a state other than that of the next ancestor is appended')
            n = len([i for i in calls(s) if INSERT.search(i.callee)])
            if s.stop[0] == 'loop' and s.start == s.stop[1]:
                c.ob('extract', n >= 1, 'skips', f'{w}: an ancestor is skipped')
            if s.stop == ('ret',):
                c.ob('extract', proves([erase(l) for l in s.lits], P(-1) - erase(after)), 'root', f'{w}: the path may stop before the root is reached')
                rev = [i for i in calls(s, r'^std::reverse<')]
                cp = [i for i in calls(s, r'::vector<.*reverse_iterator') ]
                okr = len(rev) == 1 and name_of(s, rev[0].ops[0]) == ('begin', box) and name_of(s, rev[0].ops[1]) == ('end', box)
                c.ob('extract', okr, 'reversed', f'{w}: the path is not reversed, whole, exactly once', not cp and (not rev or name_of(s, rev[0].ops[0])[0] != '?'))
                if rev:
                    late = [i for i in calls(s) if INSERT.search(i.callee) and [x.id for x in calls(s)].index(i.id) > [x.id for x in calls(s)].index(rev[0].id)]
                    c.ob('extract', not late, 'after', f'{w}: a state is appended after the path was reversed')
        c.ob('extract', any(s.stop == ('ret',) for s in ss), 'returns', f'{w}: never returns')
    m = c.work.load('rrt.cpp', r'::ExtractSolutionPaths<[^(]*$', keep=['ExtractSolutionPath<'])
    for f in m.fns:
        if not re.search(r'::ExtractSolutionPaths<[^(]*$', f.qual):
            continue
        c.saw(f)
        w = f.where()
        ss = segments(f)
        L = Loops(f, ss)
        it = next((x for x in L.iters.values() if x.K == (('arg', 2), 0)), None)
        if it is None:
            part = next((x for x in L.off.values() if x.K == (('arg', 2), 0)), None)
            c.ob('extract', False, 'each solution', f'{w}: not every solution gets a path', part is not None)
            continue
        for s in L.early(it):
            c.ob('extract', False, 'each solution', f'{w}: not every solution gets a path')
        for s in ss:
            if s.start != it.h or s.stop != ('loop', it.h):
                continue
            es = calls(s, r'^common[^\']*::ExtractSolutionPath<')
            c.ob('extract', len(es) == 1, 'one each', f'{w}: {len(es)} paths for one solution')
            for i in es:
                x = s.v.n(i.ops[2])
                c.ob('extract', opl(s, i, 1) == (('arg', 1), 0) and same(x, it.mem()), 'its own', f'{i.where()}: path of {x} for this solution')
                kept = [j for j in calls(s) if (INSERT.search(j.callee) or j.callee.endswith('::operator=')) and j.id != i.id and
                        'ExtractSolutionPath' in [callname(y) for y in calls_in(s.v.arg(j, 1))]]
                where = [opl(s, j, 0) for j in kept]
                ok = len(kept) == 1 and where[0] is not None and (
                    where[0] == (('arg', 0), 0) or where[0][0][0] == 'elem' and where[0][0][1] == (('arg', 0), 0) and where[0][0][2] == fz(atom(it.atom)))
                c.ob('extract', ok, 'kept', f'{w}: the path is not stored under its solution', bool(kept) and where[0] is not None and where[0][0][0] != 'alloca' or not kept)


def reach(r, s, f, q):
    ok, cur = r
    if not ok or cur is None:
        return False
    i = f.inst[q]
    x = s.next(i) if i.block == s.stop[1] else None
    if x is None:
        return False
    x = x if isinstance(x, P) else atom(x)
    return same(x, cur)


# ---------------------------------------------------------------- the library's own tree
def own_tree(c):
    N = (('arg', 0), 0)
    m = c.work.load('rrt.cpp', r'::SimpleRRTPlannerTree<State>::(AddNode|AddNodeAndConnect|SetNodes|GetNode(Imm|M)utable|SimpleRRTPlannerTree)$',
                    keep=[r'::AddChildIndex$', r'::CheckNodeLinkage$'])
    for f in m.fns:
        name = f.qual.split('(')[0].split('::')[-1]
        w = f.where()
        c.saw(f)
        for s in segments(f, throws=True) or ():
            seq = calls(s)
            order = [i.id for i in seq]
            puts = [i for i in seq if INSERT.search(i.callee) and opl(s, i, 0) == N]
            if name.startswith('GetNode'):
                l = ptr_of(s.ret()) if s.stop == ('ret',) else None
                if s.stop == ('ret',):
                    ok = l is not None and l[0][0] == 'elem' and l[0][1] == N and l[1] == 0 and unfz(l[0][2]) == atom(('arg', 1))
                    checked = any(i.callee.endswith('::at') for i in seq) or proves(s.lits, atom(('arg', 1)))
                    c.ob('own tree', ok and checked, name, f'{w}: node {l} is handed out, or without a range check')
                continue
            if name == 'SimpleRRTPlannerTree' or name == 'SetNodes':
                asg = [i for i in seq if opl(s, i, 0) == N and len(i.ops) > 1 and opl(s, i, 1) == (('arg', 1), 0)]
                ok = any(l[0] == 'bool' and l[2] and 'CheckNodeLinkage' in [callname(x) for x in calls_in(l)] for l in s.lits)
                if asg and f.is_ptr(asg[0].ops[1]) and len(f.params) > 1 and f.params[1]['ty'] == 'ptr':
                    if 'SimpleRRTPlannerTree<State>' in f.argtypes[2] and 'vector' not in f.argtypes[2]:
                        continue        # copy or move of a whole tree
                    chk = [i for i in seq if i.callee.endswith('::CheckNodeLinkage')]
                    c.ob('own tree', ok and all(opl(s, i, 0) == (('arg', 1), 0) for i in chk), f'{name}|guarded', f'{w}: nodes are taken over unchecked')
                if name == 'SetNodes' and s.stop == ('ret',):
                    r = s.ret()
                    c.ob('own tree', isinstance(r, P) and (r.const() not in (None, 0)) == bool(asg), f'{name}|reported', f'{w}: reports {r}', isinstance(r, P) and r.const() is not None)
                continue
            if s.stop == ('throw',):
                c.ob('own tree', not puts, f'{name}|throw', f'{w}: a node is stored on a path that throws')
                continue
            if not c.ob('own tree', len(puts) == 1, f'{name}|once', f'{w}: a node is stored {len(puts)} times'):
                continue
            p = puts[0]
            conn = name == 'AddNodeAndConnect'
            r = s.ret()
            idx = False
            for i in seq:
                if i.callee.endswith('::size') and opl(s, i, 0) == N:
                    after = order.index(i.id) > order.index(p.id)
                    v = s.v.val(('i', i.id))
                    idx = idx or (r == v - P(1) and after) or (r == v and not after)
            c.ob('own tree', idx, f'{name}|index', f'{w}: returns {r}, which is not where the node was stored')
            args = [opl(s, p, k) for k in range(1, len(p.ops))]
            if len(p.ops) == 2 and conn or len(p.ops) == 2 and 'SimpleRRTPlannerState' in (p.callee.split('::')[-1]):
                l = opl(s, p, 1)        # a ready-made node
                val = node_words(s, l, p)
            else:
                val = None
            par = atom(('arg', 2)) if conn else P(-1)
            given = s.v.arg(p, 2) if len(p.ops) > 2 else None
            if val is None:
                c.ob('own tree', args[0] == (('arg', 1), 0) or erase(s.v.arg(p, 1)) == erase(('obj', (('arg', 1), 0), 16)), f'{name}|value', f'{p.where()}: the stored state is not the one given')
                g = unfz(given) if given is not None and given[0] == 'P' else None
                c.ob('own tree', (g == par if conn else given is None or g == P(-1)), f'{name}|parent', f'{p.where()}: the stored parent is {g}')
            else:
                c.ob('own tree', val[0] and val[1] == par, f'{name}|node', f'{p.where()}: stored with parent {val[1]}')
            if not conn:
                continue
            ch = [i for i in seq if i.callee.endswith('::AddChildIndex')]
            ok = len(ch) == 1
            if ok:
                l = s.v.loc(ch[0].ops[0])
                x = s.v.n(ch[0].ops[1])
                ok = l is not None and l[0][0] == 'elem' and l[0][1] == N and l[1] == 0 and same(unfz(l[0][2]), atom(('arg', 2))) and same(x, r)
                ok = ok and order.index(ch[0].id) > order.index(p.id) or ok and same(x, r)
            c.ob('own tree', ok, f'{name}|child', f'{w}: the parent does not list the node under its index')
            before = [i for i in seq if i.callee.endswith('::at') and opl(s, i, 0) == N and s.v.n(i.ops[1]) == atom(('arg', 2)) and order.index(i.id) < order.index(p.id)]
            rng = proves(s.lits, atom(('arg', 2))) and any(g.t.get((('arg', 2),), 0) == -1 and g.t.get((), 0) <= -1 for g in facts(s.lits))
            c.ob('own tree', bool(before) or rng, f'{name}|refused', f'{w}: a parent that is not in the tree is not refused before the node is stored')


def node_words(s, l, at):
    """(value is argument 1, parent) of a node object at place l"""
    if l is None:
        return None
    par = s.v.mem((l[0], l[1] + 40), 8, at)
    val = s.v.content(l, 16, at)
    return ('arg', 1) in atoms_in(val) or val == ('obj', (('arg', 1), 0), 16), par


def own_node(c):
    m = c.work.load('rrt.cpp', r'::SimpleRRTPlannerState<State>::(AddChildIndex|RemoveChildIndex|SimpleRRTPlannerState|SetParentIndex)$')
    lay = layout(c)
    K = (('arg', 0), lay['children'])
    for f in m.fns:
        name = f.qual.split('(')[0].split('::')[-1]
        w = f.where()
        c.saw(f)
        ss = segments(f)
        a1 = atom(('arg', 1))
        if name == 'SetParentIndex' or name == 'SimpleRRTPlannerState':
            if name == 'SimpleRRTPlannerState' and 'SimpleRRTPlannerState<' in f.argtypes[2]:
                for s in ss:
                    st = [i for i in s.v.on_path(('store',)) if opl(s, i, 1) == (('arg', 0), lay['parent'])]
                    ok = any(erase(s.v.n(i.ops[0])) == atom(('m', (('arg', 1), lay['parent']))) for i in st)
                    big = any('memcpy' in (i.cn or '') for i in s.v.on_path(('call',)))
                    c.ob('own tree', ok, f'{name}|copied parent', f'{w}: a copied node has another parent', not big)
                continue
            for s in ss:
                if s.stop != ('ret',):
                    continue
                st = [s.v.n(i.ops[0]) for i in s.v.on_path(('store',)) if opl(s, i, 1) == (('arg', 0), lay['parent'])]
                k = 1 if name == 'SetParentIndex' else 2
                want = atom(('arg', k)) if len(f.params) > k else P(-1)
                c.ob('own tree', bool(st) and st[-1] == want, f'{name}|parent {len(f.params)}', f'{w}: the parent is set to {st[-1:] and str(st[-1])}')
                if name == 'SimpleRRTPlannerState' and len(f.params) > 3:
                    got = [i for i in calls(s) if opl(s, i, 0) == K and len(i.ops) > 1 and opl(s, i, 1) == (('arg', 3), 0)]
                    c.ob('own tree', bool(got), f'{name}|children', f'{w}: the children given are not stored')
            continue
        L = Loops(f, ss)
        add = name == 'AddChildIndex'
        finds = any(re.search(r'std::(find|remove|count|any_of|none_of)|::erase$', i.callee or '') for i in f.insts() if i.op == 'call')
        if add:
            for s in ss:
                if s.stop != ('ret',):
                    continue
                ps = [i for i in calls(s) if INSERT.search(i.callee) and opl(s, i, 0) == K]
                known = any(l[0] == 'eq' and any(isinstance(x, tuple) and x[:1] and x[0] in ('m', 'mphi') for x in atoms_in(erase(l))) and ('arg', 1) in atoms_in(l) for l in s.lits)
                if ps:
                    c.ob('own tree', len(ps) == 1 and same(first_value(s, ps[0]), a1), f'{name}|stored', f'{w}: another index is stored as child')
                else:
                    c.ob('own tree', known, f'{name}|left out', f'{w}: a child that is not listed yet is not added', not finds)
            other = [i.callee.split('::')[-1] for s in ss for i in calls(s) if opl(s, i, 0) == K and
                     re.search(r'::(clear|erase|pop_back|resize|operator=|assign|swap)$', i.callee)]
            c.ob('own tree', not other, f'{name}|others', f'{w}: listed children are lost ({other})')
        else:
            it = next((x for x in L.iters.values() if erase(x.K) == K), None)
            if it is None:
                c.unsure('own tree', f'{name}|loop', f'{w}: no loop over the children')
                continue
            for s in ss:
                if s.start != it.h or s.stop != ('loop', it.h):
                    continue
                d = it.mem() - a1
                lits = [erase(l) for l in s.lits]
                eq = ('eq', fz(d)) in lits or ('eq', fz(P(0) - d)) in lits
                ne = ('ne', fz(d)) in lits or ('ne', fz(P(0) - d)) in lits
                ps = [i for i in calls(s) if INSERT.search(i.callee)]
                c.ob('own tree', len(ps) == (1 if ne else 0) and (eq or ne) and all(same(first_value(s, i), it.mem()) for i in ps), f'{name}|kept',
                     f'{w}: the children kept are not those other than the one removed', eq or ne)
            c.ob('own tree', not L.early(it), f'{name}|all', f'{w}: not all children are looked at')


def layout(c):
    m = c.work.load('rrt.cpp', r'^node_(value|parent|children)$')
    out = {}
    for f in m.fns:
        r = paths(f)[0].ret()
        n = f.qual.split('(')[0].split('_')[-1]
        out[n] = atom1(r)[1][1] if n == 'parent' else ptr_of(r)[1]
    if len(out) != 3:
        raise sa.Broken('layout of SimpleRRTPlannerState not found')
    return out


# ---------------------------------------------------------------- linkage check
def linkage(c):
    lay = layout(c)
    m = c.work.load('rrt.cpp', r'::SimpleRRTPlannerTree<State>::CheckNodeLinkage$')
    for f in m.fns:
        c.saw(f)
        w = f.where()
        ss = segments(f)
        L = Loops(f, ss)
        whole = [it for it in L.iters.values() if it.K == (('arg', 0), 0) and not any(o.h != it.h and it.h in o.body for o in L.iters.values())]
        yes = [s for s in ss if s.stop == ('ret',) and isinstance(s.ret(), P) and s.ret().const() not in (0,)]
        if len(whole) != 1:
            part = any(x.K == (('arg', 0), 0) for x in L.off.values())
            c.ob('linkage', False, 'all nodes', f'{w}: not every node is looked at', part)
            continue
        it = whole[0]
        for s in yes:
            c.ob('linkage', s.start == it.h and L.over(s, it), 'accepts', f'{w}: accepts before every node has been looked at')
        idx = atom(it.atom) if it.kind == 'index' else None
        if idx is None:
            c.unsure('linkage', 'index', f'{w}: nodes are not visited by index')
            continue
        par = it.mem(lay['parent'])
        kids = [x for x in L.iters.values() if x.h in it.body and x.h != it.h and it.at((erase(x.K)[0], x.K[1])) == lay['children'] or
                x.h in it.body and x.h != it.h and x.K[0][0] == 'elem' and erase(x.K[0][1]) == it.K and x.K[0][2] == fz(idx) and x.K[1] == lay['children']]
        if not c.ob('linkage', bool(kids), 'children', f'{w}: the children a node lists are not all checked', False):
            kid = None
        else:
            kid = kids[0]
        # nodes passed on: from the node loop's header to the children loop (or back)
        for s in ss:
            if s.start != it.h or s.stop in (('ret',), ('throw',)):
                continue
            lits = [erase(l) for l in s.lits]
            low = proves(lits, P(-1) - par)            # no parent
            if low:
                c.ob('linkage', True, 'root')
                continue
            # 0 <= parent < this, listed by the parent
            pos = splits_low(lits, par)
            before = earlier(lits, idx, par)
            listed = in_list(s, f, L, par, lay, idx)
            c.ob('linkage', before, 'parent before', f'{w}: a parent that is not an earlier node is accepted')
            alts = [l for l in lits if l[0] == 'any' and fz(par) and any(fz(par) == y or atom1(par) in atoms_in(y) for y in l[1])]
            c.ob('linkage', listed or bool(alts) and rangeless(alts, par), 'parent lists', f'{w}: a node is accepted without its parent listing it',
                 not any(callname(x) in ('any_of', 'count', 'find_if', 'none_of') for l in s.lits for x in calls_in(l)))
        if kid is None:
            continue
        for s in ss:
            if s.start != kid.h or s.stop != ('loop', kid.h):
                continue
            lits = [erase(l) for l in s.lits]
            k = kid.mem()
            later = earlier(lits, k, idx)
            hi = below_size(lits, k)
            c.ob('linkage', later and hi, 'child after', f'{w}: a listed child that is not a later node is accepted')
            back = atom(('m', (('elem', (('arg', 0), 0), fz(k)), lay['parent'])))
            d = back - idx
            eqs = [unfz(l[1]) for l in lits if l[0] == 'eq' and l[1] and l[1][0] == 'P']
            c.ob('linkage', d in eqs or P(0) - d in eqs, 'child names', f'{w}: a listed child is accepted that names another parent')
        for s in L.early(kid):
            c.ob('linkage', s not in yes and s.stop == ('ret',), 'all children', f'{w}: leaves the loop over the children without refusing')


def splits_low(lits, p):
    return proves(lits, p)


def earlier(lits, hi, lo):
    """lo < hi, possibly shown as lo <= hi together with lo != hi"""
    if proves(lits, hi - lo - P(1)):
        return True
    ne = any(l[0] == 'ne' and l[1] and l[1][0] == 'P' and unfz(l[1]) in (hi - lo, lo - hi) for l in lits)
    if ne and proves(lits, hi - lo):
        return True
    # a literal 'no valid parent' (parent < 0 or >= size) stands for parent < 0 next to parent <= index < size
    for l in lits:
        if l[0] == 'any' and proves(lits, hi - lo):
            ys = [y for y in l[1] if y[0] in ('ge', 'uge')]
            if len(ys) == len(l[1]) and any(unfz(y[1]) == P(-1) - lo for y in ys):
                return True
    return False


def rangeless(alts, par):
    return any(any(y[0] == 'ge' and unfz(y[1]) == P(-1) - par for y in l[1]) for l in alts)


def below_size(lits, k):
    a = atom1(k)
    return any(g.t.get((a,), 0) == -1 and g.t.get((), 0) <= -1 and any(callname(x) == 'size' for x in calls_in(fz(g))) for g in facts(lits) +
               [unfz(l[1]) for l in lits if l[0] == 'uge' and l[1][0] == 'P'])


def in_list(s, f, L, par, lay, idx):
    """the literals show that idx was found among the children of node par"""
    seen = False
    for l in s.lits:
        for x in calls_in(l):
            if callname(x) in ('find', 'count', '__find_if'):
                seen = seen or found_in(s, f, l, x, par, lay, idx)
    if seen:
        return True
    for i in calls(s, r'^std::(find|count|__find_if)'):
        want = atom(('m', (('elem', (('arg', 0), 0), fz(par)), lay['children'])))
        l0 = opl(s, i, 0)
        okc = l0 is not None and erase(l0)[0][0] == 'elem' and erase(l0)[0][1] == (('elem', (('arg', 0), 0), fz(par)), lay['children'])
        v = s.v.arg(i, 2) if len(i.ops) > 2 else None
        okv = v is not None and v[0] == 'P' and same(unfz(v), idx)
        if not (okc and okv):
            continue
        for l in s.lits:
            if l[0] in ('ne', 'eq', 'bool') and involves(s, l, i):
                t = l[0] == 'ne' or l[0] == 'bool' and 'operator!=' in str(l[1]) and l[2] or l[0] == 'bool' and 'operator==' in str(l[1]) and not l[2]
                if t:
                    return True
    return False


def involves(s, l, i):
    v = s.v.val(('i', i.id))
    t = fz(v) if isinstance(v, P) else v
    at = atom1(v) if isinstance(v, P) else v
    return at in atoms_in(l) or 'end' in [callname(x) for x in calls_in(l)]


def found_in(s, f, l, x, par, lay, idx):
    return False


# ---------------------------------------------------------------- extension functions
def propose(c):
    off = state_offset(c)
    m = c.work.load('rrt.cpp', r"::MakeKinematic(Bi)?RRT(Extend|Connect)PropagationFunction<State>\(.*::operator\(\)$")
    for f in m.fns:
        g = re.search(r'MakeKinematic\w+', f.qual).group(0)
        c.saw(f)
        w = f.where()
        ss = segments(f)
        near = ('obj', (('arg', 2), 0), 16)
        cap = captures(c, g)
        if ss is None or cap is None:
            c.unsure('propose', g, f'{w}: not readable')
            continue
        C = O = None
        done = 0
        for s in ss:
            chk = [i for i in calls(s, FN) if opl(s, i, 1 if i.sret else 0) == (('arg', 1), cap)]
            ps = [i for i in calls(s) if INSERT.search(i.callee) and 'PropagatedState' in i.callee]
            seq = [i.id for i in calls(s)]
            for i in ps:
                done += 1
                x = s.v.arg(i, 1)
                if len(i.ops) < 3:
                    c.unsure('propose', f'{g}|item', f'{i.where()}: proposed as a ready-made object')
                    continue
                rel = s.v.arg(i, 2)
                rel = unfz(rel) if rel[0] == 'P' else None
                ok = [k for k in chk if verdict(s.lits, k) is True and seq.index(k.id) < seq.index(i.id) and erase(s.v.arg(k, 2)) == erase(x)]
                c.ob('propose', bool(ok), f'{g}|checked', f'{i.where()}: a state is proposed that the edge check has not accepted')
                if not ok:
                    continue
                frm = s.v.arg(ok[0], 1)
                if s.start == 0:
                    c.ob('propose', erase(frm) == erase(near) and rel == P(-1), f'{g}|from',
                         f'{i.where()}: proposed below {rel}, but the motion checked does not start at the nearest state')
                    continue
                l = s.v.loc(ok[0].ops[1])
                C, O = l, rel
                chain(c, f, g, ss, s, i, l, rel, near, x)
            if len(ps) > 1:
                c.unsure('propose', f'{g}|several', f'{w}: several states proposed in one step')
        c.ob('propose', done > 0, f'{g}|proposes', f'{w}: never proposes a state')


def chain(c, f, g, ss, s, i, cur, rel, near, x):
    """the motion checked starts at what is kept at place cur; it and the predecessor number advance together"""
    w = f.where()
    h = s.start
    if cur == (('arg', 2), 0) and rel is not None and atom1(rel) is not None and rel != P(-1):
        c.ob('propose', False, f'{g}|from', f'{i.where()}: proposed below the state proposed last, but the motion checked starts at the nearest state')
        return
    if cur is None or cur[0][0] != 'alloca':
        c.unsure('propose', f'{g}|current', f'{i.where()}: where the motion starts was not recognised')
        return
    a = atom1(rel) if rel is not None else None
    if a is None or a[0] not in ('phi', 'mphi'):
        c.unsure('propose', f'{g}|predecessor', f'{i.where()}: predecessor number {rel}')
        return
    for q in ss:
        if q.stop != ('loop', h):
            continue
        b = q.v.path[-1]
        end = tuple(erase(fz(q.v.at_end((cur[0], cur[1] + 8 * j), 8, b))) for j in (0, 1))
        arr = arriving(f, q, a)
        pushed = [k for k in calls(q) if INSERT.search(k.callee) and 'PropagatedState' in k.callee]
        inside = q.start == h
        last = f.blocks[b][-1]
        if not inside:
            want = tuple(erase(fz(q.v.mem((('arg', 2), 8 * j), 8, last))) for j in (0, 1))
            c.ob('propose', isinstance(arr, P) and arr == P(-1), f'{g}|first', f'{w}: the first proposed state is put below {arr}')
        elif pushed:
            k = pushed[-1]
            p = q.v.arg(k, 1)
            want = tuple(erase(y) for y in (p[1] if p[0] == 'words' else ws(p)))
            plus = arr - plain_rel(q, arr, a)
            c.ob('propose', arr is not None and advanced(q, arr, a, pushed), f'{g}|advance', f'{w}: the predecessor number does not advance with the proposed states')
        else:
            want = tuple(erase(('P', ())) for j in ())
            c.ob('propose', arr == atom(a), f'{g}|keep', f'{w}: the predecessor number advances without a proposed state')
            moved = [k for k in calls(q) if len(k.ops) > 1 and k.callee.endswith('::operator=') and opl(q, k, 0) == cur]
            c.ob('propose', not moved, f'{g}|stays', f'{w}: moves on to a state that was not proposed')
            continue
        c.ob('propose', end == want or words_eq(end, want), f'{g}|moves', f'{w}: the next motion does not start at the state proposed last')


def ws(t):
    """words of an object term"""
    if t[0] == 'obj':
        return tuple(fz(atom(('m', (t[1][0], t[1][1] + 8 * j)))) for j in (0, 1))
    if t[0] == 'outobj':
        return tuple(fz(atom(('out', t[1], t[2], t[3] + 8 * j))) for j in (0, 1))
    return (t,)


def words_eq(a, b):
    return tuple(erase(x) for x in a) == tuple(erase(x) for x in b)


def plain_rel(s, x, a):
    return atom(a)


def advanced(s, x, a, pushed):
    """x is a + 1, a read possibly after it was handed to the container"""
    d = x - P(1)
    return same(plain(s, d), atom(a))


def captures(c, g):
    """offset of the captured edge check within the closure: the third std::function stored into it"""
    m = c.work.load('rrt.cpp', rf'::{g}<State>$')
    for f in m.fns:
        if not re.search(rf'::{g}<State>$', f.qual):
            continue
        for s in segments(f) or ():
            got = {}
            for i in calls(s, r'^std::function<.*>::function$'):
                if len(i.ops) > 1:
                    src, dst = opl(s, i, 1), opl(s, i, 0)
                    if src and dst and src[0][0] == 'arg' and dst[0][0] == 'alloca':
                        got.setdefault(src[0][1], dst)
            if 3 in got and len(got) >= 3:
                return got[3][1]
    return None
