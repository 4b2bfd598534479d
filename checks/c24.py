"""C24: k-means labels come from the final centres, and only after convergence."""
import re

from c22 import A, O, OWN, PRE, inner, loop_args, pfor
from c23 import KEEP as KEEP23
from c23 import contradicts, equal, known, says, targets
from codec import P, atom
from flow import arriving, atom1
from folds import Body, at, elem, holds, leaves, size
from lists import method
from loops import erase, misses
from val import fz, unfz

KEEP = KEEP23 + [r'PerformSingleClusteringIteration<', r'ComputeClusterCentersWeighted<', r'CheckForConvergence$',
                 r'kmeans_clustering::ClusterWeighted<', r'GetKNearestNeighborsSerial<']
KM = PRE + r'simple_kmeans_clustering::'


def run(c):
    c.rule('labels', 'every item is labelled with the first result of a search for one nearest centre, at its own position, over all items')
    c.rule('centres', 'every item goes, with its own weight, to the cluster of its label; the centre of a cluster is the average of its items and weights')
    c.rule('converged', 'convergence is reported only after all labels were compared and found equal')
    c.rule('rounds', 'every round averages the clusters of the last labels and labels all items by the new centres; labels are returned only when '
                     'such a round changed none')
    c.rule('start', 'the first centres are distinct items of the data; a preliminary run works on items paired with their own weights')
    c.rule('refused', 'no data gives no labels, one cluster gives zeros, no clusters and more clusters than items are refused')
    c.rule('dispatch', 'arguments are passed on unchanged')
    m = c.work.load('reduce.cpp', [KM + r'\w+(<|$)', r'^(pair)_\w+$'], keep=KEEP)
    fs = {}
    for f in m.fns:
        g = re.search(r'simple_kmeans_clustering::(\w+)(<|$)', f.qual.split('(')[0])
        if g and 'lambda' not in f.qual and f.qual.split('(')[0].startswith('common_robotics_utilities'):
            fs.setdefault(g.group(1), f)
    for n, go in (('PerformSingleClusteringIteration', labels), ('ComputeClusterCentersWeighted', centres), ('CheckForConvergence', converged),
                  ('ClusterWeighted', rounds), ('Cluster', general)):
        f = fs.get(n)
        if f is None:
            c.unsure('rounds', n, 'not found')
            continue
        c.saw(f)
        b = Body(f)
        if not b.ok:
            c.unsure('rounds', n, 'too many paths')
            continue
        go(c, m, b, n)
    c.assume('std containers, algorithms and random engines behave as the standard says')


def calls(b, s):
    return [i for i in s.v.on_path(('call', 'invoke')) if i.callee]


def arg(b, s, i, k):
    """argument k (result place not counted)"""
    o = i.ops[k + (1 if i.sret else 0)]
    return b.loc(s, o) if b.f.is_ptr(o) else b.val(s, o)


def result(b, s, i):
    return b.loc(s, i.ops[0]) if i.sret else None


def passed(c, b, s, i, want, k):
    n = len(i.ops) - (1 if i.sret else 0)
    for q, y in enumerate(want):
        if y is None or q >= n:
            continue
        x = arg(b, s, i, q)
        plain = x is not None and (isinstance(x, P) and all(z[0] in ('O', 'size') for mono in x.t for z in mono) or not isinstance(x, P) and x[0][0] == 'O')
        if x is not None and not isinstance(x, P) and x != y and x[0][0] == 'alloca':
            # a list of one constant made on the spot holds no argument of the caller
            sz, j = made(b, s, x)
            uses = [z for z in b.f.inst.values() if z.op in ('call', 'invoke') and any(b.f.is_ptr(o) and s.v.loc(o) == x for o in z.ops)]
            plain = sz is not None and len(j.ops) > 2 and len([z for z in uses if '~' not in (z.callee or '')]) == 2
        c.ob('dispatch', x == y, f'{k}|{q}', f'{i.where()}: argument {q} is {str(x)[:100]}, expected {str(y)[:60]}', readable=plain)


def made(b, s, V):
    """(size, instruction) with which vector V is created or sized in segment s"""
    for i in calls(b, s):
        if 'std::vector' in i.callee and method(i.callee) in ('vector', 'resize', 'assign') and i.ops and b.f.is_ptr(i.ops[0]) and b.loc(s, i.ops[0]) == V:
            if len(i.ops) >= 2 and not b.f.is_ptr(i.ops[1]):
                return b.val(s, i.ops[1]), i
            return None, i
    return None, None


# ---------------------------------------------------------------- labels
def labels(c, m, b, k):
    f = b.f
    data, cen, dist = O(1), O(2), O(3)
    rets = [s for s in b.segs if s.stop == ('ret',)]
    if any(s.start != 0 for s in rets) or len(rets) != 1:
        c.unsure('labels', k, f'{f.where()}: not one parallel loop')
        return
    s = rets[0]
    ps = pfor(s)
    if len(ps) != 1:
        c.unsure('labels', k, f'{f.where()}: {len(ps)} parallel loops')
        return
    i = ps[0]
    lo, hi, clo = loop_args(b, s, i)
    c.ob('labels', lo == P(0) and hi == size(data), f'{k}|range', f'{i.where()}: items [{lo}, {hi}) are labelled')
    n, at_ = made(b, s, O(0))
    c.ob('labels', n == size(data), f'{k}|count', f'{f.where()}: there are {n} labels', readable=isinstance(n, P))
    x = inner(m, b, s, i)
    if x is None:
        c.unsure('labels', f'{k}|body', f'{i.where()}')
        return
    c.saw(x.f)
    # a result shorter than the one asked for, or an exception, leaves no label: every way through writes one
    for t in x.segs:
        if t.stop == ('throw',):
            continue
        if t.stop != ('ret',) or t.start != 0:
            c.unsure('labels', f'{k}|body', f'{x.f.where()}: loops')
            continue
        st = [(j, x.loc(t, j.ops[1])) for j in t.v.on_path(('store',))]
        st = [(j, l) for j, l in st if l and l[0][0] == 'elem' and l[0][1] == O(0)]
        if len(st) != 1:
            c.ob('labels', False, f'{k}|written', f'{x.f.where()}: {len(st)} labels are written', readable=False)
            continue
        j, l = st[0]
        c.ob('labels', unfz(l[0][2]) == OWN(2), f'{k}|slot', f'{j.where()}: the label of item {OWN(2)} is written at {unfz(l[0][2])}')
        ks = targets(t, r'GetKNearestNeighborsSerial<')
        v = atom1(x.val(t, j.ops[0]))
        while v is not None and v[0] == 'trunc':
            v = atom1(unfz(v[2]))
        if len(ks) != 1 or v is None:
            c.unsure('labels', f'{k}|search', f'{x.f.where()}: {len(ks)} searches')
            continue
        q = ks[0]
        R = result(x, t, q)
        ok = v[0] == 'm' and v[1][0][0] == 'elem' and v[1][0][1] == R
        if not ok:
            c.unsure('labels', f'{k}|label', f'{j.where()}: the label is {str(v)[:100]}')
        else:
            c.ob('labels', unfz(v[1][0][2]) == P(0), f'{k}|label', f'{j.where()}: the label is taken from result {unfz(v[1][0][2])}')
        own = elem(data, OWN(2))
        for z, (w, nm) in enumerate(((cen, 'centres'), (own, 'item'), (dist, 'distance'))):
            y = arg(x, t, q, z)
            c.ob('labels', y == w, f'{k}|{nm}', f'{q.where()}: searches {str(y)[:100]}, expected {w}', readable=y is not None and (y[0][0] in ('O', 'elem')))
        y = arg(x, t, q, len(q.ops) - 2)
        c.ob('labels', isinstance(y, P) and y.const() is not None and y.const() >= 1, f'{k}|one', f'{q.where()}: {y} results are asked for', readable=isinstance(y, P) and y.const() is not None)


# ---------------------------------------------------------------- centres
def pushes(b, s):
    """(list, what is added) for every push_back of the segment; places"""
    r = []
    for i in calls(b, s):
        if 'std::vector' in i.callee and method(i.callee) in ('push_back', 'emplace_back') and len(i.ops) >= 2:
            r.append((i, b.loc(s, i.ops[0]), b.loc(s, i.ops[1]) if b.f.is_ptr(i.ops[1]) else None))
    return r


def centres(c, m, b, k):
    f = b.f
    data, wts, lab, avg, num = O(1), O(2), O(3), O(4), A(5)
    for s in b.segs:
        if s.start == 0:
            ls = b.lits(s)
            x = size(data) - size(lab)
            if s.stop == ('throw',):
                c.ob('refused', not says(ls, 'eq', x) or len(ls) > 1, f'{k}|accepts', f'{f.where()}: labels that fit are refused', readable=False)
            else:
                c.ob('refused', equal(ls, x), f'{k}|sizes', f'{f.where()}: goes on with another number of labels than items')
    par = [(s, i) for s in b.segs for i in pfor(s)]
    if len({i.id for s, i in par}) != 1:
        c.unsure('centres', k, f'{f.where()}: {len(par)} parallel loops')
        return
    s0, i0 = par[0]
    lo, hi, clo = loop_args(b, s0, i0)
    x = inner(m, b, s0, i0)
    if x is None:
        c.unsure('centres', f'{k}|body', f'{i0.where()}')
        return
    c.saw(x.f)
    CD = CW = None
    for t in x.segs:
        if t.stop == ('throw',):
            continue
        if t.stop != ('ret',) or t.start != 0:
            c.unsure('centres', f'{k}|body', f'{x.f.where()}: loops')
            return
        av = [j for j in calls(x, t) if re.search(r'^std::function<.*>::operator\(\)$', j.callee)]
        if len(av) != 1 or len(av[0].ops) < 3:
            c.unsure('centres', f'{k}|average', f'{x.f.where()}: {len(av)} averages')
            return
        j = av[0]
        e = 1 if j.sret else 0
        fn, d, w = [x.loc(t, o) for o in j.ops[e:e + 3]]
        c.ob('centres', fn == avg, f'{k}|function', f'{j.where()}: another function averages', readable=fn is not None and fn[0][0] == 'O')
        if not all(y and y[0][0] == 'elem' for y in (d, w)):
            c.ob('centres', False, f'{k}|average', f'{j.where()}: averages {d} with weights {w}', readable=any(y and y[0][0] == 'O' for y in (d, w)))
            return
        c.ob('centres', unfz(d[0][2]) == OWN(2) and unfz(w[0][2]) == OWN(2), f'{k}|own cluster', f'{j.where()}: averages items of cluster {unfz(d[0][2])} '
             f'with weights of cluster {unfz(w[0][2])}')
        CD, CW = d[0][1], w[0][1]
        outs = {l[0] for st in t.v.on_path(('store',)) for l in [x.loc(t, st.ops[1])] if l and l[0][0] == 'elem' and l[0][1] == O(0)}
        outs |= {l[0] for q in calls(x, t) if method(q.callee) == 'operator=' and len(q.ops) == 2 for l in [x.loc(t, q.ops[0])] if l and l[0][0] == 'elem' and l[0][1] == O(0)}
        if len(outs) != 1:
            c.unsure('centres', f'{k}|stored', f'{x.f.where()}: {len(outs)} centres are written')
        else:
            p = unfz(next(iter(outs))[2])
            c.ob('centres', p == OWN(2), f'{k}|stored', f'{x.f.where()}: the centre of cluster {OWN(2)} is stored at {p}')
    if CD is None:
        c.unsure('centres', f'{k}|average', f'{f.where()}')
        return
    ends = [size(CD), size(CW), num, size(O(0))]
    c.ob('centres', lo == P(0) and hi in ends, f'{k}|all clusters', f'{i0.where()}: the centres of clusters [{lo}, {hi}) are computed')
    for V, nm in ((CD, 'items'), (CW, 'weights'), (O(0), 'centres')):
        ns = [made(b, s, V) for s in b.segs if s.stop != ('throw',)]
        ns = [n for n, i in ns if i is not None]
        ok = any(isinstance(n, P) and n == num or isinstance(n, P) and n in ends for n in ns)
        c.ob('centres', ok, f'{k}|{nm} made', f'{f.where()}: there are {[str(n) for n in ns]} lists of {nm}', readable=any(isinstance(n, P) for n in ns))
    # items and weights reach their cluster
    puts = {}
    for s in b.segs:
        if s.stop == ('throw',):
            continue
        for i, V, x in pushes(b, s):
            if V and V[0][0] == 'elem' and V[0][1] in (CD, CW):
                puts.setdefault(id(s), (s, []))[1].append((i, V[0][1], unfz(V[0][2]), x))
    good = {}
    for s, ps in puts.values():
        for i, V, lb, x in ps:
            src = data if V == CD else wts
            nm = 'item' if V == CD else 'weight'
            if x is None or x[0][0] != 'elem':
                c.unsure('centres', f'{k}|{nm}', f'{i.where()}: adds {x}')
                continue
            t = unfz(x[0][2])
            c.ob('centres', x[0][1] == src, f'{k}|{nm}', f'{i.where()}: adds {x}', readable=x[0][1][0][0] == 'O')
            c.ob('centres', lb == at(lab, t), f'{k}|{nm} label', f'{i.where()}: the {nm} at {t} goes to cluster {lb}')
            w = next((w for w in b.walks.values() if w.i == t or atom(w.a) == t), None)
            if w is None:
                c.unsure('centres', f'{k}|{nm} loop', f'{i.where()}')
                continue
            good.setdefault(V, set()).add(w.h)
            c.ob('centres', w.lo == P(0) and w.hi in (size(data), size(lab)) or w.hi == size(wts) and V == CW, f'{k}|{nm}s', f'{f.where()}: {nm}s [{w.lo}, {w.hi}) are considered')
            for e in b.early(w):
                c.ob('centres', False, f'{k}|{nm}s cut short', f'{f.where()}: not all {nm}s are considered')
            for e in b.segs:
                if e.start in w.body and e.stop == ('loop', w.h):
                    n = [p for p in puts.get(id(e), (e, []))[1] if p[1] == V]
                    inl = [g for g in f.loops() if g != w.h and g in w.body]
                    c.ob('centres', len(n) == 1, f'{k}|each {nm}', f'{f.where()}: an item can be left out of the average or count several times', readable=not inl)
    for V, nm in ((CD, 'items'), (CW, 'weights')):
        if V not in good:
            c.unsure('centres', f'{k}|{nm}', f'{f.where()}: how the {nm} of clusters are gathered cannot be read')
            continue
        for h in good[V]:
            left = misses(b.segs, [s for s in b.segs if s.start == 0], lambda s: s.stop == ('ret',), lambda s: s.stop == ('loop', h))
            c.ob('centres', left is None, f'{k}|{nm} skipped', f'{f.where()}: centres can be computed without gathering the {nm}')


# ---------------------------------------------------------------- convergence
def converged(c, m, b, k):
    f = b.f
    old, new = O(0), O(1)
    calls_ = [i for s in b.segs for i in calls(b, s) if method(i.callee) in ('equal', 'operator==', 'mismatch', '__equal_aux')]
    if calls_:
        c.unsure('converged', k, f'{f.where()}: compared by {calls_[0].callee[:60]}')
        return
    for s in b.segs:
        ls = b.lits(s)
        x = size(old) - size(new)
        if s.stop == ('throw',):
            continue
        if s.start == 0:
            c.ob('refused', equal(ls, x), f'{k}|sizes', f'{f.where()}: compares different numbers of labels', readable=s.stop[0] == 'loop')
    for h in f.loops():
        if h not in b.walks:
            steps = [arriving(f, s, ('phi', i.id)) - atom(('phi', i.id)) for i in f.blocks[h] if i.op == 'phi' for s in b.segs if s.stop == ('loop', h) and
                     s.start in f.loops()[h] and isinstance(arriving(f, s, ('phi', i.id)), P)]
            far = steps and all(x.const() is not None and abs(x.const()) > 1 for x in steps) and len(f.loops()) == 1 and \
                all(len(labs(b.lits(s), old, new)) <= 2 for s in b.segs)
            c.ob('converged', not far, f'{k}|step', f'{f.where()}: the comparison steps over labels')
    for s in b.segs:
        if s.stop != ('ret',):
            continue
        t = s.ret()
        v = truth(t)
        if v is None and differs(b.lits(s), old, new) == 'ne' and not labs([('', t)], old, new):
            c.ob('converged', False, f'{k}|not converged', f'{f.where()}: returns {str(t)[:80]} although labels differ')
            continue
        if v is None:
            c.unsure('converged', k, f'{f.where()}: returns {str(t)[:80]}')
            continue
        ls = b.lits(s)
        diff = differs(ls, old, new)
        if v == 0:
            apart = diff == 'ne' or says(ls, 'ne', size(old) - size(new))
            c.ob('converged', apart, f'{k}|not converged', f'{f.where()}: equal labels can be taken for different ones', readable=not ls or diff == 'eq')
        else:
            w = next((w for h, w in b.walks.items() if w.h == s.start), None)
            if w is None:
                c.unsure('converged', f'{k}|converged', f'{f.where()}: the comparison loop cannot be read')
                continue
            over = b.over(s, w)
            c.ob('converged', bool(over), f'{k}|converged', f'{f.where()}: labels are taken for equal before all were compared')
            c.ob('converged', w.lo == P(0) and w.hi in (size(old), size(new)), f'{k}|all', f'{f.where()}: labels [{w.lo}, {w.hi}) are compared')
            for e in b.segs:
                if e.start in w.body and e.stop == ('loop', w.h):
                    d = differs(b.lits(e), old, new, w)
                    ms = labs(b.lits(e), old, new)
                    own = {fz(w.i), fz(atom(w.a))}
                    plain = all(x[0] in ('m', 'phi', 'size', 'O') or x[1:2] == ('P',) for l in b.lits(e) for x in [y for y in leaves(l) if len(y) == 2 and isinstance(y[0], str) and y[0] in ('call', 'callv', 'out')])
                    c.ob('converged', d == 'eq', f'{k}|each', f'{f.where()}: goes on although labels may differ',
                         readable=d == 'ne' or not ms or plain and any(x[1] in own for x in ms))


def labs(ls, old, new):
    """the labels (list, position) literals are about"""
    return {x[1][0][1:] for l in ls for x in leaves(l) if len(x) == 2 and x[0] == 'm' and isinstance(x[1], tuple) and x[1][0][0] == 'elem' and x[1][0][1] in (old, new)}


def truth(t):
    if isinstance(t, P) and atom1(t) is not None:
        t = atom1(t)
    if isinstance(t, P):
        return None if t.const() is None else int(t.const()) & 1
    if isinstance(t, tuple) and t[0] == 'trunc':
        return truth(unfz(t[2]))
    if isinstance(t, tuple) and t[0] == 'cond' and t[1][0] == 'eq':
        x = unfz(t[1][1])
        return None if x.const() is None else int(x.const() == 0)
    return None


def differs(ls, old, new, w=None):
    """'eq'/'ne' when the literals compare the labels at one position"""
    for l in ls:
        if l[0] in ('eq', 'ne'):
            xs = {z for mono in unfz(l[1]).t for z in mono}
            ps = {z[1][0][1:] for z in xs if z[0] == 'm' and z[1][0][0] == 'elem'}
            if len(xs) == 2 and {p[0] for p in ps} == {old, new} and len({p[1] for p in ps}) == 1:
                t = unfz(next(iter(ps))[1])
                if w is None or t in (w.i, atom(w.a)):
                    return l[0]
    return None


# ---------------------------------------------------------------- rounds
def rounds(c, m, b, k):
    f = b.f
    data, wts, dist, avg, num, par = O(1), O(2), O(3), O(4), A(5), O(8)
    PSI, CCW, CFC = r'PerformSingleClusteringIteration<', r'ComputeClusterCentersWeighted<', r'CheckForConvergence$'
    main = [s for s in b.segs if s.stop != ('throw',) and targets(s, CFC)]
    heads = {s.start for s in main}
    start(c, b, k)
    if len(heads) != 1 or not next(iter(heads)) in f.loops():
        c.unsure('rounds', k, f'{f.where()}: the loop around CheckForConvergence cannot be read')
        return
    h = heads.pop()
    # convergence may be tested by the loop condition (next time around) or right away
    old = None
    for s in main:
        cs = calls(b, s)
        q = targets(s, CFC)
        p = targets(s, PSI)
        g = targets(s, CCW)
        if len(q) != 1 or len(p) != 1 or len(g) != 1:
            c.ob('rounds', False, f'{k}|steps', f'{f.where()}: a round computes centres {len(g)} times, labels {len(p)} times and compares {len(q)} times',
                 readable=not (b.inner(h) if hasattr(b, 'inner') else [x for x in f.loops() if x != h and x in f.loops()[h]]) and (not p or not g))
            continue
        q, p, g = q[0], p[0], g[0]
        order = [x for x in cs if x in (q, p, g)]
        c.ob('rounds', order == [g, p, q], f'{k}|order', f'{q.where()}: centres, labels and the comparison come in another order')
        Z = result(b, s, p)
        o, n = arg(b, s, q, 0), arg(b, s, q, 1)
        if o == Z:
            o, n = n, o
        c.ob('rounds', n == Z, f'{k}|compared', f'{q.where()}: what is compared are not the labels just computed', readable=n is not None and o is not None)
        old = o
        c.ob('rounds', o not in moved(b, s, Z, p, q) or o == n, f'{k}|compared with itself', f'{q.where()}: the new labels are compared with themselves')
        c.ob('rounds', o != n or o is None, f'{k}|compared with itself', f'{q.where()}: labels are compared with themselves')
        # the labels averaged are the ones compared with
        lab = arg(b, s, g, 2)
        c.ob('rounds', lab == o, f'{k}|averaged', f'{g.where()}: the centres are not those of the labels compared with', readable=lab is not None and o is not None and lab != Z or lab == Z)
        passed(c, b, s, g, [data, wts, None, avg, num], f'{k}|centres')
        cen = moved(b, s, result(b, s, g), g, p)
        x = arg(b, s, p, 1)
        c.ob('rounds', x in cen, f'{k}|centres used', f'{p.where()}: labels are not computed by the centres of this round', readable=x is not None)
        passed(c, b, s, p, [data, None, dist], f'{k}|labels')
        # what the next round starts from
        after = moved(b, s, Z, q, None) | moved(b, s, Z, p, q)
        if s.stop == ('loop', h):
            c.ob('rounds', o in after, f'{k}|carried', f'{f.where()}: the next round does not start from the labels just computed', readable=o != Z)
        elif s.stop == ('ret',):
            ls = b.lits(s)
            yes = [l[2] for l in ls if l[0] == 'bool' and 'CheckForConvergence' in str(l[1])]
            c.ob('rounds', yes == [True], f'{k}|ends', f'{f.where()}: labels are returned without having converged')
            out = {z for i in cs if i.ops and b.f.is_ptr(i.ops[0]) and b.loc(s, i.ops[0]) == O(0) and len(i.ops) > 1 and f.is_ptr(i.ops[1]) for z in [b.loc(s, i.ops[1])]}
            c.ob('rounds', bool(out & (after | {o, Z})) or O(0) in after | {o, Z}, f'{k}|returned', f'{f.where()}: other labels are returned', readable=bool(out))
        else:
            c.unsure('rounds', f'{k}|ends', f'{f.where()}: a round ends in {s.stop}')
    leave = [s for s in b.segs if s.start == h and s.stop != ('throw',) and s not in main]
    flagged = lambda t: 'CheckForConvergence' in str(t)
    for e in leave:
        if e.stop != ('ret',):
            c.unsure('rounds', f'{k}|ends', f'{f.where()}: leaves the rounds to {e.stop}')
            continue
        ok = wrong = False
        for l in e.lits:
            for a in {x for x in leaves(l) if len(x) == 2 and x[0] == 'phi' and f.inst[x[1]].block == h}:
                ts = [(s, arriving(f, s, a)) for s in b.segs if s.stop == ('loop', h)]
                back = [t for s, t in ts if s in main]
                if back and l[0] == 'bool':
                    ms = [implied(t, s.lits, l[2]) for s, t in ts if s in main]
                    if all(x is True for x in ms) and any(flagged(t) for t in back + [s.lits for s, _ in ts if s in main]):
                        ok = True
                        for s, t in ts:
                            if s not in main:
                                t0, t = t, t.const() if isinstance(t, P) else None
                                c.ob('rounds', t is not None and (int(t) & 1) != l[2], f'{k}|first', f'{f.where()}: labels can be returned before the first round', readable=t is not None or given(t0))
                    elif False in ms:
                        wrong = True
        mixed = any(l[0] == 'any' and any(x[0] == 'phi' for x in leaves(l) if len(x) == 2) for l in e.lits)
        simple = any(l[0] in ('ge', 'uge', 'eq', 'ne') and any(len(x) == 2 and x[0] == 'phi' and f.inst[x[1]].block == h for x in leaves(l)) for l in e.lits)
        c.ob('rounds', ok and not wrong, f'{k}|ends', f'{f.where()}: labels can be returned without having converged', readable=wrong or simple or not mixed)
    # the labels the first round starts from
    for s in b.segs:
        if s.stop == ('loop', h) and s.start not in f.loops()[h]:
            p = targets(s, PSI)
            if len(p) != 1:
                c.unsure('rounds', f'{k}|first labels', f'{f.where()}')
                continue
            p = p[0]
            passed(c, b, s, p, [data, None, dist], f'{k}|first labels')
            if old is not None:
                c.ob('rounds', old in moved(b, s, result(b, s, p), p, None), f'{k}|first labels', f'{p.where()}: the first round does not start from these labels')
            cen = arg(b, s, p, 1)
            ls = b.lits(s)
            c.ob('start', cen is not None and (equal(ls, size(cen) - num)), f'{k}|number', f'{p.where()}: the number of first centres is not established',
                 readable=False)
            seeds(c, b, s, cen, k)


def implied(t, ls, pol=True, depth=0):
    """does the truth value pol imply that the labels were found equal? None: not known"""
    t = unfz(t) if isinstance(t, tuple) and t and t[0] == 'P' else t
    said = {l[2] for l in ls if l[0] == 'bool' and call_of(l[1])}
    if True in said:
        return True
    if isinstance(t, P):
        if t.const() is not None:
            return True if (int(t.const()) & 1) != pol else False if False in said else None
        if atom1(t) is None:
            if atom1(P(1) - t) is not None:
                return implied(P(1) - t, ls, not pol, depth + 1)
            return None
        t = atom1(t)
    if call_of(t):
        return pol
    for l in ls:
        if l[0] == 'bool' and peel(l[1]) == peel(t):
            return True if l[2] != pol else False if False in said else None
    if isinstance(t, tuple) and t[0] in ('trunc', 'zext', 'sext') and depth < 9:
        return implied(t[2], ls, pol, depth + 1)
    if isinstance(t, tuple) and t[0] == 'xor' and depth < 9:
        for x, y in ((t[1], t[2]), (t[2], t[1])) if len(t) == 3 else ():
            y = unfz(y) if isinstance(y, tuple) else y
            if isinstance(y, P) and y.const() is not None:
                return implied(x, ls, pol if not int(y.const()) & 1 else not pol, depth + 1)
        return None
    if isinstance(t, tuple) and t[0] == 'not' and depth < 9:
        return implied(t[1], ls, not pol, depth + 1)
    if isinstance(t, tuple) and t[0] == 'cond' and t[1][0] == 'bool' and depth < 9:
        return implied(t[1][1], ls, pol if t[1][2] else not pol, depth + 1)
    if isinstance(t, tuple) and t[0] == 'cond' and t[1][0] == 'eq' and call_of(t[1][1]):
        return not pol
    if isinstance(t, tuple) and t[0] == 'cond' and t[1][0] == 'ne' and call_of(t[1][1]):
        return pol
    if isinstance(t, tuple) and t[0] == 'sel' and depth < 9:
        q = [implied(x, list(ls) + [('bool', t[1], y)], pol, depth + 1) for x, y in ((t[2], True), (t[3], False))]
        if all(x is True for x in q):
            return True
        # both true at once
        for x, y in ((3, True), (2, False)):
            z = unfz(t[x])
            if isinstance(z, P) and z.const() is not None and (int(z.const()) & 1) != pol and implied(t[1], ls, y, depth + 1) is True:
                return True
        return False if False in q else None
    if isinstance(t, tuple) and t[0] in ('cond', 'call', 'phi', 'ge', 'uge', 'eq', 'ne') and 'CheckForConvergence' not in str(t):
        return False if False in said else None
    return None


def peel(t):
    for _ in range(6):
        if isinstance(t, tuple) and len(t) == 2 and t[0] == 'P':
            t = unfz(t)
        if isinstance(t, P) and atom1(t) is not None:
            t = atom1(t)
        if isinstance(t, tuple) and t and t[0] in ('trunc', 'zext'):
            t = t[2]
    return fz(t) if isinstance(t, P) else t


def call_of(t):
    """the value of the comparison of labels itself"""
    t = peel(t)
    return isinstance(t, tuple) and t and t[0] == 'call' and 'CheckForConvergence' in str(t[1])


def given(t):
    """a value that comes from an argument"""
    xs = [x for x in leaves(fz(t) if isinstance(t, P) else t) if len(x) == 2 and x[0] in ('O', 'arg', 'phi', 'call', 'm')]
    return bool(xs) and all(x[0] in ('O', 'arg') for x in xs)


def size_of(l, V):
    return any(len(x) == 2 and x == ('size', V) for x in leaves(l))


def moved(b, s, V, frm, to):
    """places that hold what V holds, after instruction frm and before to"""
    r = {V}
    on = False
    for i in calls(b, s):
        if i is frm:
            on = True
            continue
        if i is to:
            break
        if on and i.ops and len(i.ops) >= 2 and method(i.callee) in ('operator=', 'swap', 'vector') and b.f.is_ptr(i.ops[0]) and b.f.is_ptr(i.ops[1]):
            x, y = b.loc(s, i.ops[0]), b.loc(s, i.ops[1])
            if y in r:
                r.add(x)
            elif x in r and method(i.callee) == 'swap':
                r.add(y)
            elif x in r:
                r.discard(x)
    return r


def start(c, b, k):
    """what happens before any clustering"""
    f = b.f
    data, num = O(1), A(5)
    for s in b.segs:
        if s.start != 0 or s.stop == ('throw',):
            continue
        ls = b.lits(s)
        none = any(l[0] == 'bool' and l[2] and ('empty', data) in set(leaves(l)) for l in ls) or says(ls, 'eq', size(data)) or holds(ls, [P(0) - size(data)])
        one = says(ls, 'eq', num - P(1))
        if s.stop == ('ret',):
            n, i = made(b, s, O(0))
            if none:
                c.ob('refused', i is not None and (n is None or n in (P(0), size(data))), f'{k}|no data', f'{f.where()}: labels for no data', readable=isinstance(n, P))
            elif one:
                c.ob('refused', n == size(data), f'{k}|one cluster', f'{f.where()}: one cluster gets {n} labels', readable=isinstance(n, P))
                if i is not None and len(i.ops) > 2 and f.is_ptr(i.ops[2]) and s.v.loc(i.ops[2]):
                    v = [b.C(s.v.mem(s.v.loc(i.ops[2]), 4, i))]
                    if isinstance(v[0], P) and v[0].const() is not None:
                        c.ob('refused', v[0] == P(0), f'{k}|zeros', f'{i.where()}: the label of the only cluster is {v[0]}')
            else:
                xs = {x for l in ls for x in leaves(l) if len(x) >= 2 and x[0] in ('O', 'size', 'call', 'callv', 'empty', 'm', 'phi')}
                plain = all(x in (('size', data), atom1(num), ('O', 1), ('empty', data)) or x[0] == 'call' and 'function' in str(x[1]) for x in xs if x[0] != 'O')
                zeros = n == size(data) and i is not None and len(i.ops) > 2 and f.is_ptr(i.ops[2])
                c.ob('refused', False, f'{k}|other', f'{f.where()}: returns without clustering', readable=plain and (i is not None and n is None or zeros))
            continue
        some = says(ls, 'ne', num) or holds(ls, [num - P(1)])
        c.ob('refused', some, f'{k}|no clusters', f'{f.where()}: goes on with no clusters to make', readable=not any(l[0] == 'any' and mention(l, num) for l in ls))
        fits = holds(ls, [size(data) - num])
        c.ob('refused', fits, f'{k}|too many', f'{f.where()}: goes on with more clusters than items (distinct first centres are then drawn forever)',
             readable=not any(mention(l, num) and mention(l, size(data)) and l[0] == 'any' for l in ls))


def mention(l, x):
    a = atom1(x)
    return any(y == a for y in leaves(l))


def seeds(c, b, s0, cen, k):
    """where the first centres, and the subset of a preliminary run, come from"""
    f = b.f
    data, wts, dist, avg, num = O(1), O(2), O(3), O(4), A(5)
    apart = []
    kinds = {}
    for s in b.segs:
        if s.stop == ('throw',):
            continue
        for i in calls(b, s):
            o = i.ops[1:] if i.sret else i.ops
            g = re.match(r'std::(?:__cxx11::)?(map|set|unordered_map|unordered_set|vector|list|deque)<', i.callee)
            if g and o and f.is_ptr(o[0]):
                kinds.setdefault(b.loc(s, o[0]), set()).add(g[1])
            if re.search(r'uniform_int_distribution<.*>::uniform_int_distribution$', i.callee) and len(i.ops) == 3:
                lo, hi = b.val(s, i.ops[1]), b.val(s, i.ops[2])
                c.ob('start', lo == P(0) and hi == size(data) - P(1), f'{k}|drawn', f'{i.where()}: items are drawn from [{lo}, {hi}]')
        ps = pushes(b, s)
        idx = {}
        for i, V, x in ps:
            if x and x[0][0] == 'elem' and x[0][1] in (data, wts):
                idx.setdefault(x[0][1], []).append((V, unfz(x[0][2]), i))
        if data in idx and wts in idx:
            ok = len(idx[data]) == 1 and len(idx[wts]) == 1 and idx[data][0][1] == idx[wts][0][1]
            c.ob('start', ok, f'{k}|paired', f'{idx[data][0][2].where()}: an item of the subset gets the weight of another one', readable=len(idx[data]) == len(idx[wts]))
        elif wts in idx or data in idx and idx[data][0][0] != cen:
            apart += [(x, y) for x in idx for y in idx[x]]
        r = targets(s, r'kmeans_clustering::ClusterWeighted<')
        g = targets(s, r'ComputeClusterCentersWeighted<')
        if r:
            r = r[0]
            X, W = arg(b, s, r, 0), arg(b, s, r, 1)
            passed(c, b, s, r, [None, None, dist, avg, num, A(6)], f'{k}|preliminary')
            c.ob('start', X not in (None, data) and W not in (None, wts), f'{k}|subset', f'{r.where()}: the preliminary run is on the whole data', readable=False)
            g = [x for x in g if cen in moved(b, s, result(b, s, x), x, None)]
            if len(g) == 1:
                L = result(b, s, r)
                a = [arg(b, s, g[0], z) for z in range(5)]
                for z, (y, w) in enumerate(zip(a, [X, W, L, avg, num])):
                    c.ob('start', y == w, f'{k}|preliminary centres|{z}', f'{g[0].where()}: argument {z} is {str(y)[:60]}, expected {str(w)[:60]}', readable=y is not None)
            else:
                c.unsure('start', f'{k}|preliminary centres', f'{f.where()}')
    if apart:
        # items and weights are chosen one after the other: by the same list of indices
        by = {}
        for x, (V, n, i) in apart:
            n = atom1(n) if isinstance(n, P) else n
            src = n[1] if n and n[0] == 'm' and isinstance(n[1], tuple) and n[1][0][0] == 'elem' else None
            by.setdefault(x, {}).setdefault(src and (src[0][1], src[1]), i)
        ds, ws = by.get(data, {}), by.get(wts, {})
        order = lambda p: {'hashed' if 'unordered' in z else 'sorted' if z in ('map', 'set') else 'listed' for z in kinds.get(p[0], ())} if p else set()
        kd, kw = [set().union(*[order(p) for p in z]) for z in (ds, ws)]
        same = len(ds) == 1 and set(ds) == set(ws) and None not in ds
        i = next(iter((ws or ds).values()))
        c.ob('start', same, f'{k}|paired', f'{i.where()}: the items of the subset and their weights are listed in different orders',
             readable=same or len(kd) == 1 and len(kw) == 1 and kd != kw and 'listed' not in kd | kw and None not in ds and None not in ws)


# ---------------------------------------------------------------- without weights
def general(c, m, b, k):
    f = b.f
    for s in b.segs:
        if s.stop != ('ret',):
            continue
        r = targets(s, r'kmeans_clustering::ClusterWeighted<')
        if len(r) != 1:
            c.unsure('dispatch', k, f'{f.where()}: {len(r)} calls')
            continue
        r = r[0]
        # (data, distance_fn, average_fn, num, seed, preliminary, parallelism, logging)
        passed(c, b, s, r, [O(1), None, O(2), None, A(4), A(5), None, O(7), None], k)
        W = arg(b, s, r, 1)
        n, i = made(b, s, W)
        c.ob('dispatch', n == size(O(1)), f'{k}|weights', f'{r.where()}: there are {n} weights', readable=isinstance(n, P))
        c.ob('dispatch', result(b, s, r) == O(0), f'{k}|result', f'{r.where()}: the labels are not what is returned', readable=False)
    for g in m.fns:
        if re.search(r'simple_kmeans_clustering::Cluster<', g.qual.split('(')[0]) and 'lambda' in g.qual and g.qual.endswith('::operator()'):
            c.saw(g)
            x = Body(g)
            for s in x.segs if x.ok else []:
                av = [j for j in calls(x, s) if re.search(r'^std::function<.*>::operator\(\)$', j.callee)]
                if s.stop != ('ret',) or len(av) != 1:
                    continue
                e = 1 if av[0].sret else 0
                y = x.loc(s, av[0].ops[e + 1])
                c.ob('dispatch', y is not None and y[0][0] == 'O', f'{k}|members', f'{av[0].where()}: averages {y} instead of the members of the cluster',
                     readable=y is not None and y[0][0] in ('deref', 'elem'))
