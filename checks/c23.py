"""C23: clusterings put every item in exactly one cluster, chosen by the distances given."""
import re
from fractions import Fraction

from c22 import A, O, OWN, PRE, inner, loop_args, pfor
from codec import P, atom
from flow import arriving, atom1
from folds import Body, absurd, at, cell, elem, holds, infinite, ints, leaves, leq, mentions, size, strict
from lists import method
from loops import erase, misses
from paths import segments
from val import fz, unfz

KEEP = [r'Eigen::.*::operator\(\)', r'Eigen::.*::(rows|cols)$', r'parallelism::Static', r'parallelism::Dynamic', r'DegreeOfParallelism::',
        r'GetKNearestNeighborsSerial<', r'internal::GetClosest\w+$', r'IndexClusterWithDistanceMatrix$', r'BuildPairwiseDistanceMatrix<',
        r'ClusterWithDistanceMatrix<', r'MakeElementClusteringFromIndexClustering<', r'PerformSingleClusteringIteration<',
        r'ComputeClusterCentersWeighted<', r'CheckForConvergence$', r'ClusterWeighted<']


def run(c):
    c.rule('closest', 'the search compares the distance of every pair of unclustered values, of every such value and non-empty cluster, and of '
                      'every two non-empty clusters with the smallest so far, starting from infinity')
    c.rule('linkage', 'the distance to a cluster is the largest (complete link) or smallest (single link) matrix entry over all its elements')
    c.rule('pair', 'the pair recorded names the two items whose distance was compared')
    c.rule('parallel', 'threads record in their own slot, over the whole range, and every slot is considered')
    c.rule('chosen', 'the overall closest pair is the closer one of the two searches, and none is ignored')
    c.rule('merge', 'two items are put together exactly when the closest pair is valid and within the bound')
    c.rule('partition', 'a value is added to one cluster at the time it is marked as clustered; joining moves all elements of one cluster '
                        'to another and empties the first')
    c.rule('complete', 'all non-empty clusters and, as clusters of their own, all values not marked are returned')
    c.rule('elements', 'element clusters hold the data of the index clusters, cluster by cluster and in order')
    c.rule('refused', 'data and distance matrix that do not fit are refused')
    c.rule('dispatch', 'the general forms pass on their arguments unchanged')
    m = c.work.load('reduce.cpp', [PRE + r'internal::GetClosest\w+(\(|$)', PRE + r'IndexClusterWithDistanceMatrix(\(|$)',
                                   PRE + r'MakeElementClusteringFromIndexClustering<', PRE + r'simple_hierarchical_clustering::(Index)?Cluster<',
                                   PRE + r'ClusterWithDistanceMatrix<', r'^(closest|clustering|element|link)_\w+$'], keep=KEEP)
    lay = layout(m)
    if isinstance(lay, str):
        c.unsure('pair', f'{lay}', 'what this accessor returns is not simply a field')
        return
    searches(c, m, lay)
    chosen(c, m, lay)
    forms(c, m)
    grouping(c, m, lay)
    elements(c, m, lay)
    c.assume('a distance matrix is symmetric; its entries are not NaN')
    c.need('obligations:closest', 4)


class Lay:
    pass


def layout(m):
    r = Lay()
    for f in m.fns:
        n = f.qual.split('(')[0].split('::')[-1]
        if not re.match(r'(closest|clustering|element|link)_', n):
            continue
        ss = segments(f)
        t = ss[0].ret()
        a = t.const() if isinstance(t, P) else None
        if a is None:
            a = erase(atom1(t) if isinstance(t, P) else t)
            while a and a[0] == 'trunc':
                a = atom1(unfz(a[2]))
            a = a[1][1] if a and a[0] in ('m', 'ptr') and len(a[1]) == 2 else None
        if len(ss) != 1 or not isinstance(a, (int, Fraction)):
            return n
        setattr(r, n, int(a))
    r.fields = [r.closest_first, r.closest_first_cluster, r.closest_second, r.closest_second_cluster, r.closest_distance]
    return r


FIELDS = (8, 1, 8, 1, 8)


# ---------------------------------------------------------------- the closest pair
class Search:
    """what the parameters of a search function stand for"""

    def __init__(self, f, b):
        ts = f.argtypes[1:]
        self.M = self.CL = self.mask = self.strat = None
        sret = len(f.params) - len(ts)
        for k, t in enumerate(ts, sret):
            if 'Eigen::Matrix' in t:
                self.M = O(k)
            elif 'vector<std::vector<' in t:
                self.CL = O(k)
            elif 'vector<unsigned char' in t:
                self.mask = O(k)
            elif 'ClusterStrategy' in t:
                self.strat = A(k)


def searches(c, m, lay):
    found = set()
    for f in m.fns:
        g = re.search(r'internal::GetClosest(Clusters|ValueToOther)(Serial|Parallel)$', f.qual.split('(')[0])
        if not g or 'lambda' in f.qual:
            continue
        found.add(g.group(0))
        c.saw(f)
        b = Body(f)
        k = g.group(0)[10:]
        if not b.ok:
            c.unsure('closest', k, 'too many paths')
            continue
        w = Search(f, b)
        kinds = {'cc'} if g.group(1) == 'Clusters' else {'vv', 'vc'}
        ps = [(s, i) for s in b.segs for i in pfor(s)]
        if not ps:
            search(c, b, lay, w, k, kinds, O(0)[0], None)
            continue
        if len({i.id for s, i in ps}) != 1:
            c.unsure('parallel', k, f'{f.where()}: several parallel loops')
            continue
        s, i = ps[0]
        lo, hi, cl = loop_args(b, s, i)
        x = inner(m, b, s, i)
        if x is None:
            c.unsure('parallel', k, f'{i.where()}: the work of the parallel loop cannot be read')
            continue
        c.saw(x.f)
        src = search(c, x, lay, w, k, kinds, None, (lo, hi))
        if src is not None:
            merge(c, b, lay, src, k, s)


def written(b, s, lay):
    """canonical root -> raw root of objects whose distance field the segment writes"""
    out = {}
    for i in s.v.on_path(('store', 'call', 'invoke')):
        if i.op == 'store':
            o = i.ops[1]
            n = None
        elif re.search(r'memcpy|memmove', i.callee or i.cn or ''):
            o = i.ops[0]
            n = s.v.val(i.ops[2])
            n = n.const() if isinstance(n, P) else None
        else:
            continue
        raw, l = s.v.loc(o), b.loc(s, o)
        if raw is None or l is None:
            continue
        if l[1] == lay.closest_distance or n and l[1] <= lay.closest_distance < l[1] + n:
            out[l[0]] = raw[0]
    return out


def fields(b, s, raw, lay):
    out = []
    for o, n in zip(lay.fields, FIELDS):
        t = b.C(s.v.mem((raw, o), n, s.end))
        while isinstance(t, P) and atom1(t) is not None and atom1(t)[0] == 'trunc':
            t = unfz(atom1(t)[2])
        out.append(t)
    return out


def slot(L, lay, o):
    return atom(('m', (L, o)))


def mirrors(b, L, lay, writes):
    """loop variables that always equal the distance field of object L"""
    c0 = slot(L, lay, lay.closest_distance)
    ps = {('phi', i.id): (h, i) for h in b.f.loops() for i in b.f.blocks[h] if i.op == 'phi' and i.ty == 'double'}
    go = True
    while go:
        go = False
        for a, (h, i) in list(ps.items()):
            for s in b.segs:
                if s.stop != ('loop', h):
                    continue
                t = arriving(b.f, s, a)
                t = b.C(t if isinstance(t, P) else atom(t))
                if id(s) in writes:
                    ok = t == writes[id(s)][4]
                else:
                    ok = t == c0 or atom1(t) in ps and atom1(t)[0] == 'phi'
                if not ok:
                    del ps[a]
                    go = True
                    break
    return ps


def steady(b, h, writes):
    """within one round of loop h the object is written only at its end"""
    body = b.f.loops()[h]
    return all(s.stop[0] != 'loop' or s.stop[1] not in body or s.stop[1] == h for s in b.segs if id(s) in writes and s.start in body)


def side(b, w, x):
    """('v', index) or ('c', cluster index, header of the walk over its elements)"""
    a = atom1(x)
    if a is not None and a[0] == 'm':
        (r, o) = a[1]
        if o == 0 and r[0] == 'elem' and isinstance(r[1], tuple) and r[1][0][0] == 'elem' and r[1][0][1] == w.CL:
            it = atom1(unfz(r[2]))
            if it is not None:
                for h, q in b.walks.items():
                    if q.a == it:
                        return ('c', unfz(r[1][0][2]), h)
        return None
    return ('v', x)


class Group:
    def __init__(self):
        self.way, self.X, self.hs, self.bad, self.odd, self.init = None, None, set(), [], [], []


def group(b, q):
    """the extremum over a group of elements carried by loop variable q"""
    g = Group()
    cls, todo = {}, [q]
    f = b.f
    heads = {('phi', i.id): h for h in f.loops() for i in f.blocks[h] if i.op == 'phi' and i.ty == 'double'}
    if q not in heads:
        return None
    takes, keeps = [], []
    top = heads[q]
    while todo:
        a = todo.pop()
        if a in cls:
            continue
        cls[a] = heads[a]
        for s in b.segs:
            if s.stop != ('loop', heads[a]):
                continue
            t = arriving(f, s, a)
            t = b.C(t if isinstance(t, P) else atom(t))
            y = atom1(t)
            if y in heads:
                if y != a and (heads[y] in f.loops()[top]):
                    todo.append(y)
                keeps.append((s, a, y))
            elif s.start not in f.loops()[heads[a]]:
                g.init.append(t)
            else:
                takes.append((s, a, t))
    if not takes:
        return None
    if len(set(cls.values())) != len(cls):
        g.bad.append('the smallest and the largest value are mixed')
        return g
    g.hs = set(cls.values())
    xs = {fz(t) for s, a, t in takes}
    if len(xs) != 1:
        g.odd.append('several candidates')
        return g
    g.X = takes[0][2]
    ways = set()
    for s, a, t in takes:
        cur = next((atom(y) for y in cls if cls[y] == s.start), None)
        ls = b.lits(s)
        if cur is None:
            g.odd.append('order of the loops')
            return g
        ways.add('min' if leq(ls, t, cur) else 'max' if leq(ls, cur, t) else None)
    if len(ways) != 1 or None in ways:
        (g.odd if any(mentions(b.lits(s), atom(y)) for s, a, t in takes for y in cls) and None in ways else g.bad).append('a value is taken without being compared')
        return g
    g.way = ways.pop()
    deep = {s.start for s, a, t in takes} | {a2 for s, a, t in takes for a2 in [cls[a]]}
    for s, a, y in keeps:
        if y not in cls:
            g.bad.append('the value comes from another loop')
            continue
        h = cls[a]
        if s.start == h and s.stop == ('loop', h) or s.start in deep and s.stop == ('loop', h) and h in deep and s.start == h:
            ls = b.lits(s)
            cur = atom(y)
            if not (leq(ls, cur, g.X) if g.way == 'min' else leq(ls, g.X, cur)):
                (g.odd if mentions(ls, cur) else g.bad).append('an element is passed over')
    for t in g.init:
        if not (infinite(t, 1) if g.way == 'min' else infinite(t, -1) or t == P(0)):
            if t.const() is not None or infinite(t, 1) or infinite(t, -1):
                g.bad.append(f'it starts at {t}')
            else:
                g.odd.append(f'it starts at {t}')
    for h in g.hs:
        w = b.walks.get(h)
        if w is None:
            g.odd.append('a loop over elements cannot be read')
        elif b.early(w):
            g.bad.append('the elements of a cluster are not all considered')
    return g


def search(c, b, lay, w, k, kinds, L, rng):
    """the comparisons of one search body; returns the container of the threads' results for a parallel one"""
    f = b.f
    ws = {}
    roots = {}
    for s in b.segs:
        if s.stop == ('throw',):
            continue
        for l, raw in written(b, s, lay).items():
            fs = fields(b, s, raw, lay)
            if isinstance(fs[4], P) and infinite(fs[4], 1) and s.start == 0:
                if l == L:
                    roots.setdefault(l, []).append((s, None))
                continue
            roots.setdefault(l, []).append((s, fs))
    if rng is not None:
        roots = {l: v for l, v in roots.items() if l[0] == 'elem'}
    elif L in roots:
        roots = {L: roots[L]}
    if len(roots) != 1:
        c.unsure('closest', k, f'{f.where()}: {len(roots)} places hold a closest pair')
        return None
    L, evs = next(iter(roots.items()))
    if rng is None:
        init = [s for s, fs in evs if fs is None]
        c.ob('closest', bool(init), f'{k}|start', f'{f.where()}: the closest pair does not start at infinity', readable=False)
    else:
        c.ob('parallel', unfz(L[2]) == OWN(1), f'{k}|slot', f'{f.where()}: results go to slot {unfz(L[2])}', readable=unfz(L[2]) == OWN(2) or unfz(L[2]).const() is not None)
    writes = {id(s): fs for s, fs in evs if fs is not None}
    for s, fs in evs:
        if fs is None:
            writes.setdefault(id(s), [None] * 4 + [fields(b, s, written(b, s, lay)[L], lay)[4]])
    mir = mirrors(b, L, lay, writes)
    cur = lambda s: [slot(L, lay, lay.closest_distance)] + [atom(a) for a, (h, i) in mir.items() if h == s.start or
                                                                    s.start in f.loops()[h] and steady(b, h, writes)]
    takes = [(s, fs) for s, fs in evs if fs is not None]
    cands = {}
    seen = set()
    groups = {}
    clear = True
    ranges = {}
    for s, fs in takes:
        t = fs[4]
        ls = b.lits(s)
        where = f'{f.where()}'
        x, sd, clear1 = candidate(c, b, w, lay, k, s, t, groups)
        if x is None:
            clear = False
            continue
        cands.setdefault((s.start, s.stop), []).append((t, x))
        kind = ''.join(sorted((y[0] for y in sd), reverse=True))
        seen.add(kind)
        # compared
        ok = any(leq(ls, t, y) for y in cur(s))
        c.ob('closest', ok, f'{k}|{kind}|compared', f'{where}: a pair is recorded that is not closer than the one found before',
             readable=not either(ls, t, cur(s)) and (not any(mentions(ls, y) for y in cur(s)) or any(leq(ls, y, t) or weaker(ls, t, y) for y in cur(s))))
        # recorded items
        want = [(y[1], P(1 if y[0] == 'c' else 0)) for y in sd]
        got = [(fs[0], fs[1]), (fs[2], fs[3])]
        same = got == want or got == want[::-1]
        c.ob('pair', same, f'{k}|{kind}|items', f'{where}: the distance of {want} is recorded for {got}'[:300], readable=all(isinstance(z, P) for y in got for z in y))
        # eligible
        for y in sd:
            if y[0] == 'v':
                ok = says(ls, 'eq', at(w.mask, y[1])) if w.mask else True
                c.ob('closest', ok, f'{k}|{kind}|unclustered', f'{where}: a value is considered that may already be in a cluster')
            else:
                c.ob('closest', holds(ls, [size(elem(w.CL, y[1])) - P(1)]), f'{k}|{kind}|empty', f'{where}: a cluster is considered that may be empty')
        cover(c, b, w, k, kind, sd, rng)
        for y in sd:
            ranges[fz(y[1])] = y
    # nothing is passed over
    idx = {h: q for h, q in b.walks.items() if fz(q.i) in ranges}
    elems = set()
    for g in groups.values():
        if g:
            elems |= g.hs
    for s in b.segs:
        if s.stop == ('throw',) or id(s) in writes:
            continue
        if s.stop[0] != 'loop' and not (rng is not None and s.stop == ('ret',)):
            continue
        h = s.stop[1] if s.stop[0] == 'loop' else None
        if h is not None and (h not in idx or s.start not in idx[h].body):
            continue
        ls = b.lits(s)
        if excused(b, w, ls, ranges):
            continue
        if s.start in idx and s.start != h and b.over(s, idx[s.start]):
            continue
        cs = cands.get((s.start, s.stop), [])
        if any(leq(ls, y, t) for t, x in cs for y in cur(s)):
            # with the strategy the candidate stands for
            continue
        if h is None and not cs:
            continue
        c.ob('closest', False, f'{k}|passed over', f'{f.where()}: a pair can be passed over without being compared',
             readable=clear and not any(mentions(ls, y) for y in cur(s)) or any(leq(ls, t, y) for t, x in cs for y in cur(s)))
    c.ob('closest', True, f'{k}|passed over', '')
    for h, q in idx.items():
        for s in b.early(q):
            c.ob('closest', False, f'{k}|cut short', f'{f.where()}: the search can stop before all pairs were compared',
                 readable=not any(mentions(b.lits(s), y) for y in cur(s)))
        # inner loops of the walk are not left out
        for g in idx:
            if g != h and g in q.body:
                first = [s for s in b.segs if s.start == h]
                left = misses(b.segs, first, lambda s: s.stop == ('loop', h), lambda s: s.stop == ('loop', g) or excused(b, w, b.lits(s), ranges) or s.start not in q.body)
                c.ob('closest', left is None, f'{k}|left out', f'{f.where()}: a loop over partners can be left out')
    if rng is not None:
        for g in idx:
            left = misses(b.segs, [s for s in b.segs if s.start == 0], lambda s: s.stop == ('ret',),
                          lambda s: s.stop == ('loop', g) or excused(b, w, b.lits(s), ranges))
            c.ob('closest', left is None, f'{k}|left out', f'{f.where()}: a loop over partners can be left out')
    for kd in kinds - seen:
        c.ob('closest', False, f'{k}|{kd}|missing', f'{f.where()}: {NAMES[kd]} are never compared', readable=clear)
    return L[1] if rng is not None else None


NAMES = {'vv': 'pairs of values', 'vc': 'values and clusters', 'cc': 'pairs of clusters'}


def says(ls, rel, x):
    """a literal x = 0 (or x != 0)"""
    return any(l[0] == rel and unfz(l[1]) in (x, P(0) - x) for l in ls)


def weaker(ls, x, y):
    """x and y are compared with each other, and with nothing else, in another way than x <= y"""
    ls = [l for l in ls if l[0][:1] == 'f' and (mentions([l], x) or mentions([l], y))]
    a = {atom1(x), atom1(y)}
    return any(l[1][:1] == ('P',) and {z for m in unfz(l[1]).t for z in m} == a for l in ls) and \
        all(l[1][:1] == ('P',) and {z for m in unfz(l[1]).t for z in m} <= a for l in ls)


def either(ls, x, ys):
    """x <= y is one of several alternatives"""
    return any(l[0] == 'any' and any(leq([d], x, y) for d in l[1:] if isinstance(d, tuple) and isinstance(d[0], str) for y in ys) for l in ls) or \
        any(l[0] == 'any' and any(leq([d], x, y) for d in l[1] if isinstance(d, tuple) and d and isinstance(d[0], str) for y in ys) for l in ls if isinstance(l[1], tuple))


def excused(b, w, ls, ranges):
    """the literals say that a value is clustered already, or a cluster empty"""
    for t, y in ranges.items():
        if w.mask and says(ls, 'ne', at(w.mask, unfz(t))):
            return True
        if holds(ls, [P(0) - size(elem(w.CL, unfz(t)))]):
            return True
    return False


def candidate(c, b, w, lay, k, s, t, groups):
    """(matrix cell, its two sides) behind distance t"""
    a = atom1(t)
    if a is not None and a[0] == 'phi':
        if a not in groups:
            groups[a] = group(b, a)
        g = groups[a]
        if g is None:
            c.unsure('linkage', f'{k}|group', f'{b.f.where()}: distance {t}')
            return None, None, False
        for x in g.bad:
            c.ob('linkage', False, f'{k}|{x[:30]}', f'{b.f.where()}: {x}')
        for x in g.odd:
            c.unsure('linkage', f'{k}|{x[:30]}', f'{b.f.where()}: {x}')
        if g.way is None or g.X is None:
            return None, None, False
        ls = b.lits(s)
        ok = wrong = False
        for v, way in ((lay.link_complete, 'max'), (lay.link_single, 'min')):
            o = lay.link_single if way == 'max' else lay.link_complete
            st = w.strat
            yes = any(l[0] == 'eq' and unfz(l[1]) in (st - P(v), P(v) - st) or l[0] == 'ne' and unfz(l[1]) in (st - P(o), P(o) - st) for l in ls)
            if yes:
                ok |= way == g.way
                wrong |= way != g.way
        c.ob('linkage', ok and not wrong, f'{k}|{g.way}', f'{b.f.where()}: the {g.way}imum is used for the other kind of link', readable=wrong)
        x = g.X
        hs = g.hs
    else:
        x, hs = t, set()
    a = atom1(x)
    if a is None or a[0] != 'cell' or a[1] != w.M:
        c.ob('closest', False, f'{k}|distance', f'{b.f.where()}: compares {str(x)[:120]}', readable=a is not None and a[0] == 'cell' or x.const() is not None)
        return None, None, False
    sd = [side(b, w, unfz(a[2])), side(b, w, unfz(a[3]))]
    if None in sd:
        c.unsure('closest', f'{k}|sides', f'{b.f.where()}: {x}')
        return None, None, False
    # each cluster side runs over its whole cluster within the group
    for y in sd:
        if y[0] == 'c':
            q = b.walks[y[2]]
            full = q.lo == P(0) and q.hi == size(elem(w.CL, y[1]))
            c.ob('linkage', full and y[2] in hs, f'{k}|elements', f'{b.f.where()}: not all elements of the cluster are considered', readable=not full)
    if len(hs) != sum(1 for y in sd if y[0] == 'c'):
        c.unsure('linkage', f'{k}|loops', f'{b.f.where()}')
    return x, sd, True


def span(b, v, rng):
    if v == OWN(2) and rng is not None:
        return rng
    for q in b.walks.values():
        if q.i == v:
            return q.lo, q.hi
    return None


def cover(c, b, w, k, kind, sd, rng):
    ends = {'v': [fz(size(w.mask))] if w.mask else [], 'c': [fz(size(w.CL))]}
    if w.M:
        ends['v'] += [fz(atom(('rows', w.M))), fz(atom(('cols', w.M)))]
    sp = [span(b, y[1], rng) for y in sd]
    if None in sp:
        c.unsure('closest', f'{k}|{kind}|range', f'{b.f.where()}')
        return
    text = f'{b.f.where()}: {NAMES[kind]} are compared for indices {[str(x) for x in sp[0]]} and {[str(x) for x in sp[1]]}'[:300]
    rd = all(y[0] in ('O', 'size', 'own', 'rows', 'cols', 'phi') for x in sp for p in x for q in p.t for y in q)
    if kind == 'vc':
        ok = all(x[0] == P(0) and fz(x[1]) in ends[y[0]] for x, y in zip(sp, sd))
    else:
        e = ends[kind[0]]
        ok = False
        for p, q in ((0, 1), (1, 0)):
            first = sp[p][0] == P(0) and (fz(sp[p][1]) in e or fz(sp[p][1] + P(1)) in e)
            second = sp[q][0] in (sd[p][1] + P(1), P(0)) and fz(sp[q][1]) in e
            third = sp[q][0] == P(0) and sp[q][1] == sd[p][1] and fz(sp[p][1]) in e and sp[p][0] in (P(0), P(1))
            ok |= first and second or third
    c.ob('closest', ok, f'{k}|{kind}|range', text, readable=rd)


def merge(c, b, lay, src, k, s0):
    """the smallest of the threads' results is returned"""
    f = b.f
    L = O(0)[0]
    for j in s0.v.on_path(('call', 'invoke')):
        if j.callee and method(j.callee) == 'vector' and b.loc(s0, j.ops[0]) == src and len(j.ops) >= 3 and not f.is_ptr(j.ops[1]):
            n = atom1(b.val(s0, j.ops[1]))
            c.ob('parallel', n is not None and 'GetNumThreads' in str(n), f'{k}|storage', f'{j.where()}: room for {b.val(s0, j.ops[1])} results',
                 readable=b.val(s0, j.ops[1]).const() is not None)
            l = s0.v.loc(j.ops[2])
            z = b.C(s0.v.mem((l[0], l[1] + lay.closest_distance), 8, j)) if l else None
            c.ob('closest', z is not None and infinite(z, 1), f'{k}|thread start', f'{j.where()}: the threads\' results start at {z}',
                 readable=isinstance(z, P) and (z.const() is not None or infinite(z, -1)))
    lo, hi, cl = loop_args(b, s0, pfor(s0)[0])
    takes = []
    ws = {}
    for s in b.segs:
        if s.stop == ('throw',):
            continue
        raw = written(b, s, lay).get(L)
        if raw is not None:
            fs = fields(b, s, raw, lay)
            ws[id(s)] = fs
            if s.start != 0:
                takes.append((s, fs))
            else:
                c.ob('closest', infinite(fs[4], 1), f'{k}|start', f'{f.where()}: the closest pair starts at {fs[4]}', readable=isinstance(fs[4], P) and fs[4].const() is not None)
    mir = mirrors(b, L, lay, ws)
    if not takes:
        c.unsure('parallel', f'{k}|merge', f'{f.where()}: how the threads\' results are merged cannot be read')
        return
    s, fs = takes[0]
    q = b.walks.get(s.start)
    if q is None or any(y[0].start != s.start for y in takes):
        c.unsure('parallel', f'{k}|merge', f'{f.where()}: the loop over the threads\' results cannot be read')
        return
    c.ob('parallel', q.lo == P(0) and q.hi == size(src), f'{k}|threads', f'{f.where()}: results [{q.lo}, {q.hi}) are considered',
         readable=all(y[0] in ('size',) for p in (q.lo, q.hi) for z in p.t for y in z))
    for e in b.early(q):
        c.ob('parallel', False, f'{k}|threads early', f'{f.where()}: not all results are considered')
    it = next((x for x in (q.i, atom(q.a)) if fs[4] == at(src, x, lay.closest_distance)), None)
    if it is None:
        c.unsure('parallel', f'{k}|merge', f'{f.where()}: takes {fs[4]}')
        return
    X = fs[4]
    for s in b.segs:
        if s.start != q.h or s.stop != ('loop', q.h):
            continue
        ls = b.lits(s)
        cur = [slot(L, lay, lay.closest_distance)] + [atom(a) for a, (h, i) in mir.items() if h == q.h]
        if id(s) in ws:
            got = ws[id(s)]
            want = [at(src, it, o) for o in lay.fields]
            c.ob('parallel', got == want, f'{k}|copied', f'{f.where()}: the pair taken over is not the thread\'s', readable=got[4] == want[4] and all(isinstance(x, P) for x in got))
            ok = any(leq(ls, X, y) for y in cur)
            c.ob('closest', ok, f'{k}|merged', f'{f.where()}: a thread\'s result replaces a closer one', readable=not any(mentions(ls, y) for y in cur) or any(leq(ls, y, X) for y in cur))
        else:
            ok = any(leq(ls, y, X) for y in cur)
            c.ob('closest', ok, f'{k}|merged', f'{f.where()}: a closer result of a thread is ignored', readable=not any(mentions(ls, y) for y in cur) or any(leq(ls, X, y) for y in cur))


ORDER = {'ValueToOther': ('mask', 'M', 'CL', 'strat'), 'Clusters': ('M', 'CL', 'strat'), 'Pair': ('mask', 'M', 'CL', 'strat')}


def passed(c, b, s, i, want, k):
    """the arguments of call i (result place left out) are the given ones"""
    f = b.f
    ops = i.ops[1 if i.sret else 0:]
    if len(ops) != len(want):
        c.unsure('dispatch', k, f'{i.where()}: {len(ops)} arguments')
        return
    for q, (o, y) in enumerate(zip(ops, want)):
        if y is None:
            continue
        x = b.loc(s, o) if f.is_ptr(o) else b.val(s, o)
        c.ob('dispatch', x == y, f'{k}|{q}', f'{i.where()}: argument {q} is {str(x)[:100]}, expected {str(y)[:60]}',
             readable=x is not None and (isinstance(x, P) or x[0][0] == 'O'))


def targets(s, rx):
    return [i for i in s.v.on_path(('call', 'invoke')) if i.callee and re.search(rx, i.callee)]


def forms(c, m):
    """GetClosestClusters and GetClosestValueToOther hand everything on"""
    for f in m.fns:
        g = re.search(r'internal::GetClosest(Clusters|ValueToOther)$', f.qual.split('(')[0])
        if not g:
            continue
        c.saw(f)
        b = Body(f)
        w = Search(f, b)
        k = 'GetClosest' + g.group(1)
        for s in b.segs if b.ok else []:
            if s.stop != ('ret',):
                continue
            cs = targets(s, r'internal::GetClosest\w+(Serial|Parallel)$')
            if len(cs) != 1 or g.group(1) not in cs[0].callee:
                c.unsure('dispatch', k, f'{f.where()}')
                continue
            i = cs[0]
            par = i.callee.endswith('Parallel')
            want = [getattr(w, n) for n in ORDER[g.group(1)]] + ([O(len(f.params) - 1)] if par else [])
            passed(c, b, s, i, want, f'{k}|{"Parallel" if par else "Serial"}')
            c.ob('dispatch', b.loc(s, i.ops[0]) == O(0), f'{k}|result', f'{i.where()}: the result is not what is returned', readable=False)


def invalid(ls, x):
    """the literals say that a pair with these fields holds no pair"""
    neg = lambda l: l[0] in ('ge', 'uge') and any(isinstance(y, P) and unfz(l[1]) == P(-1) - y for y in (x[0], x[2]))
    return any(neg(l) or l[0] == 'any' and all(neg(y) for y in l[1]) for l in ls)


def valid(ls, x):
    return all(any(l[0] == 'ge' and unfz(l[1]) == y for l in ls) for y in (x[0], x[2]))


def alone(ls, x):
    """x is compared with a constant"""
    return any(l[0][:1] == 'f' and isinstance(l[1], tuple) and l[1][:1] == ('P',) and {z for m in unfz(l[1]).t for z in m} == {atom1(x)} for l in ls) or \
        any(mentions([l], x) and l[0] not in ('fogt', 'foge', 'fugt', 'fuge') for l in ls)


def outer(t):
    """parts of a term outside what calls were given"""
    if isinstance(t, tuple) and t[:1] not in (('call',), ('callv',)):
        yield t
        for x in t:
            yield from outer(x)


def chosen(c, m, lay):
    f = next((f for f in m.fns if f.qual.split('(')[0].endswith('internal::GetClosestPair')), None)
    if f is None:
        c.unsure('chosen', 'GetClosestPair', 'not found')
        return
    c.saw(f)
    b = Body(f)
    w = Search(f, b)
    k = 'GetClosestPair'
    for s in b.segs if b.ok else []:
        if s.stop != ('ret',):
            if s.stop != ('throw',):
                c.unsure('chosen', k, f'{f.where()}: loop')
            continue
        objs = {}
        for n in ('ValueToOther', 'Clusters'):
            cs = targets(s, rf'internal::GetClosest{n}$')
            if len(cs) != 1:
                continue
            i = cs[0]
            passed(c, b, s, i, [getattr(w, y) for y in ORDER[n]] + [O(len(f.params) - 1)], f'{k}|{n}')
            objs[n] = fields(b, s, s.v.loc(i.ops[0])[0], lay)
        if len(objs) == 1:
            (X, x), = objs.items()
            ls = b.lits(s)
            about = any(len(z) == 2 and isinstance(z[1], tuple) and z[1] in (w.CL, w.mask) or len(z) >= 2 and z[0] == 'elem' and z[1] in (w.CL, w.mask)
                        for l in ls for z in outer(l)) or any(len(l) < 2 or l[0] == 'any' for l in ls)
            zero = alone(ls, x[4])
            if fields(b, s, erase(('arg', 0)), lay) == x and not about and not zero:
                c.ob('chosen', False, f'{k}|{X} only', f'{f.where()}: the pair of {X} is returned although the other search was not made')
                continue
        if len(objs) != 2:
            c.unsure('chosen', k, f'{f.where()}: {sorted(objs)} searched')
            continue
        ls = b.lits(s)
        got = fields(b, s, erase(('arg', 0)), lay)
        X = next((n for n in objs if objs[n] == got), None)
        if X is None:
            none = infinite(got[4], 1) or got[0] == P(-1)
            if not none:
                c.unsure('chosen', k, f'{f.where()}: returns {str(got)[:120]}')
                continue
            for n in objs:
                c.ob('chosen', invalid(ls, objs[n]), f'{k}|ignored {n}', f'{f.where()}: the pair found by {n} is ignored')
            continue
        Y = next(n for n in objs if n != X)
        ok = invalid(ls, objs[Y]) or leq(ls, objs[X][4], objs[Y][4])
        c.ob('chosen', ok, f'{k}|{X}', f'{f.where()}: the pair of {X} is returned although that of {Y} may be closer')


# ---------------------------------------------------------------- putting items together
QUIET = {'size', 'begin', 'end', 'cbegin', 'cend', 'empty', 'at', 'operator[]', 'reserve', 'capacity', 'shrink_to_fit', 'data', 'front', 'back',
         '~vector', 'max_size'}


class Acts:
    def __init__(self):
        self.adds, self.marks, self.joins, self.clears, self.new, self.odd = [], [], [], [], [], []


def acts(b, s, CL, mask, OUT=None):
    """what a segment does to the clusters, the marks and the list that is returned (new: pushed contents)"""
    a = Acts()
    temps = {}
    f = b.f
    for i in s.v.on_path(('store', 'call', 'invoke')):
        if i.op == 'store':
            l = b.loc(s, i.ops[1])
            if l and l[0][0] == 'elem' and l[0][1] == mask:
                t = b.val(s, i.ops[0])
                a.marks.append((unfz(l[0][2]), t))
            elif l and (l[0][0] == 'elem' and l[0][1] == CL or l == CL):
                a.odd.append(i.where())
            continue
        if not i.callee or 'std::vector' not in i.callee or not i.ops:
            continue
        n = method(i.callee)
        e = 1 if i.sret else 0
        if e >= len(i.ops) or not f.is_ptr(i.ops[e]):
            continue
        V = b.loc(s, i.ops[e])
        own = V is not None and V[0][0] == 'elem' and V[0][1] == CL
        if n == 'vector':
            xs = None
            if V is None or V == CL or V == mask:
                continue
            o = i.ops[1:]
            if len(o) == 0:
                xs = []
            elif len(o) >= 2 and f.is_ptr(o[0]) and not f.is_ptr(o[1]):
                q, cnt = s.v.loc(o[0]), b.val(s, o[1]).const()
                if q and cnt is not None and cnt < 8:
                    xs = [b.C(s.v.mem((q[0], q[1] + 8 * j), 8, i)) for j in range(int(cnt))]
            elif len(o) >= 2 and not f.is_ptr(o[0]) and f.is_ptr(o[1]):
                q, cnt = s.v.loc(o[1]), b.val(s, o[0])
                cnt = cnt.const() if isinstance(cnt, P) else None
                if q and cnt is not None and cnt < 8:
                    xs = [b.C(s.v.mem(q, 8, i))] * int(cnt)
            temps[V] = xs
            continue
        if n in QUIET:
            continue
        if n in ('push_back', 'emplace_back'):
            q = i.ops[e + 1:]
            if V == CL or V == OUT and OUT is not None:
                x = b.loc(s, q[0]) if len(q) == 1 and f.is_ptr(q[0]) else None
                if x in temps and temps[x] is not None:
                    a.new.append((V, list(temps[x])))
                elif x is not None and x[0][0] == 'elem' and x[0][1] == CL and V == OUT:
                    a.new.append((V, unfz(x[0][2])))
                else:
                    a.odd.append(i.where())
                continue
            if len(q) == 1 and f.is_ptr(q[0]) and s.v.loc(q[0]):
                x = b.C(s.v.mem(s.v.loc(q[0]), 8, i))
                if own:
                    a.adds.append((unfz(V[0][2]), x))
                elif V in temps and temps[V] is not None:
                    temps[V].append(x)
                continue
            if own:
                a.odd.append(i.where())
            continue
        if own and n == 'insert' and len(i.ops) >= e + 4:
            from lists import pos
            p0, p1, p2 = (pos(s, i.ops[e + j], 8) for j in (1, 2, 3))
            if p0 and p1 and p2 and b.place(p0[0]) == V and b.place(p1[0]) == b.place(p2[0]) and b.place(p1[0])[0][0] == 'elem' and \
                    b.place(p1[0])[0][1] == CL:
                src = b.place(p1[0])
                whole = p1[1] == P(0) and p2[1] == ('end', 0)
                a.joins.append((unfz(V[0][2]), unfz(src[0][2]), whole, len(a.clears)))
                continue
            a.odd.append(i.where())
            continue
        if own and n == 'clear':
            a.clears.append(unfz(V[0][2]))
            continue
        if own or V == CL or V == mask or OUT is not None and V == OUT:
            a.odd.append(i.where())
    return a


def grouping(c, m, lay):
    f = next((f for f in m.fns if f.qual.split('(')[0].endswith('IndexClusterWithDistanceMatrix')), None)
    k = 'IndexClusterWithDistanceMatrix'
    if f is None:
        c.unsure('partition', k, 'not found')
        return
    c.saw(f)
    b = Body(f)
    if not b.ok:
        c.unsure('partition', k, 'too many paths')
        return
    M, bound = O(1), A(2)
    for s in b.segs:
        if s.start == 0:
            ls = b.lits(s)
            r, q = atom(('rows', M)), atom(('cols', M))
            if s.stop == ('throw',):
                bad = any(l[0] == 'ne' and unfz(l[1]) in (r - q, q - r) for l in ls) or says(ls, 'eq', r) or says(ls, 'eq', q)
                c.ob('refused', bad, f'{k}|accepts', f'{f.where()}: a square matrix is refused', readable=False)
            else:
                sq = any(l[0] == 'eq' and unfz(l[1]) in (r - q, q - r) for l in ls)
                c.ob('refused', sq, f'{k}|square', f'{f.where()}: goes on with a matrix that may not be square')
                ne = any(says(ls, 'ne', x) for x in (r, q, r * q, size(M))) or holds(ls, [r - P(1)])
                c.ob('refused', ne, f'{k}|empty', f'{f.where()}: goes on with a matrix that may be empty', readable=not opaque(ls, M))
    main = [s for s in b.segs if targets(s, r'internal::GetClosestPair$')]
    heads = {s.start for s in main}
    if len(heads) != 1 or not main:
        c.unsure('merge', k, f'{f.where()}: the loop around GetClosestPair cannot be read')
        return
    h = heads.pop()
    i0 = targets(main[0], r'internal::GetClosestPair$')[0]
    e = 1 if i0.sret else 0
    mask, CL = b.loc(main[0], i0.ops[e]), b.loc(main[0], i0.ops[e + 2])
    if mask is None or CL is None or h not in f.loops():
        c.unsure('merge', k, f'{f.where()}')
        return
    state(c, b, mask, CL, M, k)
    effect, idle = [], []
    for s in main:
        if s.stop == ('throw',):
            continue
        cs = targets(s, r'internal::GetClosestPair$')
        if len(cs) != 1:
            c.unsure('merge', k, f'{f.where()}: several searches per round')
            continue
        i = cs[0]
        passed(c, b, s, i, [mask, M, CL, A(3), O(4)], k)
        fs = fields(b, s, s.v.loc(i.ops[0])[0], lay)
        ls = b.lits(s)
        a = acts(b, s, CL, mask)
        if a.odd:
            c.unsure('partition', f'{k}|step', f'{a.odd[0]}: an operation on the clusters cannot be read')
            effect.append((s, fs))
            continue
        busy = a.adds or a.marks or a.joins or a.clears or a.new
        near = leq(ls, fs[4], bound)
        far = any(l[0] in ('fogt', 'fugt') and unfz(l[1]) == fs[4] - bound for l in ls)
        if not busy and s.stop[0] == 'loop' and s.stop[1] != h and s.stop[1] in f.loops()[h]:
            c.unsure('partition', f'{k}|step', f'{f.where()}: what a round does in a loop of its own cannot be read')
            effect.append((s, fs))
            continue
        if not busy:
            idle.append((s, fs))
            c.ob('merge', far or invalid(ls, fs), f'{k}|left', f'{f.where()}: a pair within the bound can be left apart',
                 readable=near or not mentions(ls, fs[4]) or weaker(ls, fs[4], bound))
            continue
        effect.append((s, fs))
        c.ob('merge', near, f'{k}|bound', f'{f.where()}: items are put together without their distance being within the bound',
             readable=far or not mentions(ls, fs[4]) or weaker(ls, fs[4], bound))
        c.ob('merge', valid(ls, fs), f'{k}|valid', f'{f.where()}: items are put together without the pair being valid', readable=not any(l[0] in ('ge', 'any') for l in ls))
        together(c, b, s, a, fs, ls, k)
    if not effect:
        c.ob('merge', False, f'{k}|never', f'{f.where()}: nothing is ever put together')
    # rounds go on after a merge and end without one
    leave = [s for s in b.segs if s.start == h and s.stop != ('throw',) and not targets(s, r'internal::GetClosestPair$')]
    for s in b.segs:
        if s.start == 0 and s.stop == ('ret',) or s.start == 0 and s.stop == ('loop', h) and any(not contradicts(b, s, e) for e in leave):
            c.unsure('merge', f'{k}|bypassed', f'{f.where()}: there may be no search at all')
    for s, fs in effect:
        if s.stop == ('loop', h):
            ends = [e for e in leave if not contradicts(b, s, e)]
            c.ob('merge', not ends, f'{k}|goes on', f'{f.where()}: clustering can stop right after a merge', readable=all(known(b, s, e) for e in ends))
        elif s.stop != ('throw',):
            c.ob('merge', False, f'{k}|goes on', f'{f.where()}: clustering stops right after a merge', readable=s.stop[0] != 'loop' or s.stop[1] not in f.loops()[h])
    result(c, b, main, effect, idle, h, mask, CL, lay, k)


def opaque(ls, M):
    """a literal is about the matrix in another way than its number of rows or columns"""
    for l in ls:
        for x in leaves(l):
            if len(x) >= 2 and x[0] == 'm' and x[1][0] == M[0] or len(x) == 2 and x[0] in ('call', 'size') and M in x:
                return True
    return False


def contradicts(b, s, e):
    """segment e cannot follow segment s (both at the same loop header)"""
    for l in e.lits:
        for a in {x for x in leaves(l) if len(x) == 2 and x[0] == 'phi'}:
            t = arriving(b.f, s, a)
            if isinstance(t, P) and t == atom(a):  # unchanged: what the round began with
                if l[0] == 'bool' and ('bool', l[1], not l[2]) in s.lits:
                    return True
                if l[0] in ('eq', 'ne') and any(x[0] in ('eq', 'ne') and x[0] != l[0] and unfz(x[1]) in (unfz(l[1]), P(0) - unfz(l[1])) for x in s.lits if len(x) == 2):
                    return True
                continue
            if t is None or not isinstance(t, P) or t.const() is None:
                continue
            v = int(t.const())
            if l[0] == 'bool':
                x = l[1]
                while isinstance(x, tuple) and x and x[0] != 'phi':
                    y = atom1(unfz(x)) if x[0] == 'P' else unfz(x[2]) if x[0] == 'trunc' else None
                    x = atom1(y) if isinstance(y, P) else y
                if x == a and bool(v & 1) != l[2]:
                    return True
            if l[0] in ('eq', 'ne') and unfz(l[1]) in (atom(a), P(0) - atom(a)) and (v == 0) != (l[0] == 'eq'):
                return True
    return False


def known(b, s, e):
    return all(isinstance(arriving(b.f, s, x), P) and (arriving(b.f, s, x).const() is not None or arriving(b.f, s, x) == atom(x))
               for l in e.lits for x in leaves(l) if len(x) == 2 and x[0] == 'phi' and b.f.inst[x[1]].block == s.stop[1])


def flag(ls, t):
    """what the literals say about a flag"""
    for l in ls:
        if l[0] == 'bool':
            x = l[1]
            x = unfz(x) if isinstance(x, tuple) and x[:1] == ('P',) else atom(x) if isinstance(x, tuple) else x
            while isinstance(x, P) and atom1(x) is not None and atom1(x)[0] == 'trunc':
                x = unfz(atom1(x)[2])
            if x == t:
                return l[2]
        if l[0] in ('eq', 'ne') and isinstance(t, P) and unfz(l[1]) in (t, P(0) - t):
            return l[0] == 'ne'
    return None


def together(c, b, s, a, fs, ls, k):
    f = b.f
    z1, z2 = flag(ls, fs[1]), flag(ls, fs[3])
    i1, i2 = fs[0], fs[2]
    if None in (z1, z2):
        c.ob('partition', False, f'{k}|kinds', f'{f.where()}: items are put together without knowing whether they are values or clusters', readable=False)
        return
    text = f'{f.where()}: with a {"cluster" if z1 else "value"} and a {"cluster" if z2 else "value"}, '
    kk = f'{k}|{"c" if z1 else "v"}{"c" if z2 else "v"}'
    marks = sorted(fz(x) for x, t in a.marks)
    c.ob('partition', all(isinstance(t, P) and t.const() not in (None, 0) for x, t in a.marks), f'{kk}|mark', f'{text}a value is marked as not clustered',
         readable=all(isinstance(t, P) and t.const() is not None for x, t in a.marks))
    vals = [x for x, z in ((i1, z1), (i2, z2)) if not z]
    cl = [x for x, z in ((i1, z1), (i2, z2)) if z]
    c.ob('partition', marks == sorted(fz(x) for x in vals), f'{kk}|marked', f'{text}the values marked as clustered are {[str(x) for x, t in a.marks]}'[:250])
    new = [sorted(fz(x) for x in xs) for V, xs in a.new if isinstance(xs, list)]
    if len(cl) == 0:
        ok = new == [sorted(fz(x) for x in vals)] and not a.adds and not a.joins and not a.clears
        c.ob('partition', ok, f'{kk}|new', f'{text}what is created is not one cluster of the two')
    elif len(cl) == 1:
        ok = a.adds == [(cl[0], vals[0])] and not new and not a.joins and not a.clears
        c.ob('partition', ok, f'{kk}|added', f'{text}the value is not added to that cluster alone')
    else:
        ok = len(a.joins) == 1 and len(a.clears) == 1 and not a.adds and not new
        if ok:
            d, x, whole, n = a.joins[0]
            ok = whole and n == 0 and a.clears == [x] and {fz(d), fz(x)} == {fz(i1), fz(i2)}
        c.ob('partition', ok, f'{kk}|joined', f'{text}the elements of one are not moved to the other')


def state(c, b, mask, CL, M, k):
    """marks start clear, one per row; clusters start empty"""
    f = b.f
    done = set()
    for s in b.segs:
        if s.start != 0 or s.stop == ('throw',):
            continue
        for i in s.v.on_path(('call', 'invoke')):
            if not i.callee or method(i.callee) != 'vector' or 'std::vector' not in i.callee:
                continue
            V = b.loc(s, i.ops[0])
            if V == mask:
                done.add('mask')
                n = b.val(s, i.ops[1]) if len(i.ops) > 1 and not f.is_ptr(i.ops[1]) else None
                ok = n in (atom(('rows', M)), atom(('cols', M)))
                c.ob('partition', ok, f'{k}|marks', f'{i.where()}: there are {n} marks', readable=isinstance(n, P) and all(y[0] in ('rows', 'cols') for z in n.t for y in z))
                if len(i.ops) > 2 and f.is_ptr(i.ops[2]) and s.v.loc(i.ops[2]):
                    z = b.C(s.v.mem(s.v.loc(i.ops[2]), 1, i))
                    if isinstance(z, P) and z.const() is not None:
                        c.ob('partition', z == P(0), f'{k}|unmarked', f'{i.where()}: values start marked as clustered')
            elif V == CL:
                done.add('clusters')
                c.ob('partition', len(i.ops) == 1, f'{k}|no clusters', f'{i.where()}: the list of clusters does not start empty', readable=False)
    for n in {'mask', 'clusters'} - done:
        c.unsure('partition', f'{k}|{n} made', f'{f.where()}: creation not found')


def result(c, b, main, effect, idle, h, mask, CL, lay, k):
    f, bound = b.f, A(2)
    # the list that is returned
    OUT = None
    dist = None
    for s in b.segs:
        if s.stop != ('ret',):
            continue
        for i in s.v.on_path(('call', 'invoke')):
            if i.callee and method(i.callee) in ('vector', 'operator=', 'swap') and b.loc(s, i.ops[0]) == (O(0)[0], lay.clustering_clusters):
                if len(i.ops) > 1 and f.is_ptr(i.ops[1]):
                    OUT = b.loc(s, i.ops[1])
        dist = b.C(s.v.mem((('arg', 0), lay.clustering_distance), 8, s.end))
    if OUT is None or OUT[0][0] == 'elem':
        c.unsure('complete', f'{k}|result', f'{f.where()}: the list that is returned cannot be found')
        return
    # distance of the last merge
    a = atom1(dist) if isinstance(dist, P) else None
    if a is not None and a[0] == 'phi' and f.inst[a[1]].block == h:
        val = lambda s: b.C(arriving(f, s, a) if isinstance(arriving(f, s, a), P) else atom(arriving(f, s, a)))
        for s, fs in effect:
            if s.stop == ('loop', h):
                t = val(s)
                c.ob('merge', t == fs[4], f'{k}|final distance', f'{f.where()}: the distance reported is {str(t)[:100]}', readable=(t == atom(a) or t.const() is not None) and not alone(b.lits(s), fs[4]))
        for s, fs in idle:
            if s.stop == ('loop', h):
                c.ob('merge', val(s) == atom(a), f'{k}|final distance kept', f'{f.where()}: the distance reported is that of items left apart', readable=val(s) == fs[4] or val(s).const() is not None)
    else:
        c.ob('merge', False, f'{k}|final distance', f'{f.where()}: the distance reported is {str(dist)[:100]}', readable=isinstance(dist, P) and (dist.const() is not None or dist == bound))
    got = {}
    for g, w in b.walks.items():
        if g == h:
            continue
        back = [s for s in b.segs if s.start in w.body and s.stop == ('loop', g)]
        kind = None
        if w.K == CL or w.hi == size(CL) and any(isinstance(xs, P) for s in back for V, xs in acts(b, s, CL, mask, OUT).new):
            kind = 'clusters'
        elif w.K == mask or w.hi in (size(mask), atom(('rows', O(1))), atom(('cols', O(1)))):
            kind = 'values'
        if kind is None:
            continue
        nested = [x for x in f.loops() if x != g and x in w.body]
        if nested:
            c.unsure('complete', f'{k}|{kind}', f'{f.where()}: nested loops')
            continue
        got[kind] = g
        ends = [fz(size(CL))] if kind == 'clusters' else [fz(size(mask)), fz(atom(('rows', O(1)))), fz(atom(('cols', O(1))))]
        c.ob('complete', w.lo == P(0) and fz(w.hi) in ends, f'{k}|{kind}|range', f'{f.where()}: {kind} [{w.lo}, {w.hi}) are returned')
        for s in b.early(w):
            c.ob('complete', False, f'{k}|{kind}|early', f'{f.where()}: not all {kind} are considered')
        for s in back:
            x = acts(b, s, CL, mask, OUT)
            ls = b.lits(s)
            if x.odd or x.adds or x.marks or x.joins or x.clears:
                c.unsure('complete', f'{k}|{kind}|step', f'{f.where()}')
                continue
            put = [xs for V, xs in x.new if V == OUT]
            its = (w.i, atom(w.a))
            if kind == 'clusters':
                if not put:
                    c.ob('complete', any(holds(ls, [P(0) - size(elem(CL, t))]) for t in its), f'{k}|cluster lost', f'{f.where()}: a cluster with elements can be left out')
                else:
                    c.ob('complete', len(put) == 1 and isinstance(put[0], P) and put[0] in its, f'{k}|cluster', f'{f.where()}: what is returned is not the cluster',
                         readable=len(put) > 1 or isinstance(put[0], P))
                    ne = any(holds(ls, [size(elem(CL, t)) - P(1)]) for t in its)
                    c.ob('complete', ne, f'{k}|empty cluster', f'{f.where()}: an empty cluster can be returned')
            else:
                un = any(says(ls, 'eq', at(mask, t)) for t in its)
                cl = any(says(ls, 'ne', at(mask, t)) for t in its)
                if not put:
                    c.ob('complete', cl, f'{k}|value lost', f'{f.where()}: a value that is in no cluster can be left out')
                else:
                    c.ob('complete', un, f'{k}|value twice', f'{f.where()}: a value that is in a cluster can get another one')
                    c.ob('complete', len(put) == 1 and isinstance(put[0], list) and len(put[0]) == 1 and put[0][0] in its, f'{k}|value',
                         f'{f.where()}: the cluster made for a value is {str(put)[:100]}', readable=isinstance(put[0], list) or len(put) > 1)
    for kind in ('clusters', 'values'):
        if kind not in got:
            c.ob('complete', False, f'{k}|{kind}|never', f'{f.where()}: {kind} are never returned', readable=len(b.walks) + 1 == len(f.loops()) or len(f.loops()) <= 2)
            continue
        out = [s for s in b.segs if s.start == h and s.stop != ('throw',) and s.stop != ('loop', h)]
        left = misses(b.segs, out, lambda s: s.stop == ('ret',), lambda s: s.stop == ('loop', got[kind]) or s.start == h and s.stop == ('loop', h))
        c.ob('complete', left is None, f'{k}|{kind}|skipped', f'{f.where()}: {kind} can be left out of the result')


# ---------------------------------------------------------------- element clusters
def elements(c, m, lay):
    for f in m.fns:
        q = f.qual.split('(')[0]
        n = re.sub(r'<.*', '', q).split('::')[-1]
        if 'lambda' in f.qual:
            continue
        if n == 'MakeElementClusteringFromIndexClustering':
            c.saw(f)
            make(c, Body(f), lay, n)
        elif n == 'ClusterWithDistanceMatrix' or n in ('Cluster', 'IndexCluster') and 'hierarchical' in q:
            c.saw(f)
            b = Body(f)
            for s in b.segs if b.ok else []:
                if n == 'ClusterWithDistanceMatrix':
                    data, M = O(1), O(2)
                    ls = b.lits(s)
                    if s.stop == ('throw',):
                        continue
                    c.ob('refused', holds(ls, [size(data) - P(1)]), f'{n}|empty', f'{f.where()}: goes on without data')
                    for r in ('rows', 'cols'):
                        x = atom((r, M)) - size(data)
                        c.ob('refused', equal(ls, x), f'{n}|{r}', f'{f.where()}: goes on with a matrix that has another number of {r}')
                    chain(c, b, s, n, [(r'IndexClusterWithDistanceMatrix$', [M, A(3), A(4), O(5)]),
                                       (r'MakeElementClusteringFromIndexClustering<', [data, 'prev'])])
                elif s.stop == ('ret',):
                    second = [r'IndexClusterWithDistanceMatrix$', ['prev', A(3), A(4), O(5)]] if n == 'IndexCluster' else \
                             [r'ClusterWithDistanceMatrix<', [O(1), 'prev', A(3), A(4), O(5)]]
                    chain(c, b, s, n, [(r'BuildPairwiseDistanceMatrix<', [O(1), O(2), O(5)]), tuple(second)])


def equal(ls, x):
    """x = 0 follows from at most two equalities"""
    es = [unfz(l[1]) for l in ls if l[0] == 'eq']
    es += [P(0) - y for y in es]
    return x == P(0) or x in es or any(x == y + z for y in es for z in es)


def chain(c, b, s, n, steps):
    """calls in order, each getting the result of the one before; the last one returns"""
    if s.stop != ('ret',):
        return
    prev = None
    for rx, want in steps:
        cs = targets(s, rx)
        if len(cs) != 1:
            c.unsure('dispatch', f'{n}|{rx}', f'{b.f.where()}: {len(cs)} calls')
            return
        i = cs[0]
        passed(c, b, s, i, [prev if y == 'prev' else y for y in want], f'{n}|{rx.strip("$<")}')
        prev = b.loc(s, i.ops[0])
    c.ob('dispatch', prev == O(0), f'{n}|result', f'{b.f.where()}: the result is not returned', readable=False)


def make(c, b, lay, k):
    f = b.f
    if not b.ok:
        c.unsure('elements', k, 'too many paths')
        return
    data = O(1)
    IC = (O(2)[0], lay.clustering_clusters)
    V = None
    for s in b.segs:
        if s.start == 0:
            for i in s.v.on_path(('call', 'invoke')):
                if i.callee and method(i.callee) == 'vector' and len(i.ops) >= 2 and not f.is_ptr(i.ops[1]):
                    V = b.loc(s, i.ops[0])
                    x = b.val(s, i.ops[1])
                    c.ob('elements', x == size(IC), f'{k}|count', f'{i.where()}: there are {x} clusters', readable=isinstance(x, P) and all(y[0] == 'size' for z in x.t for y in z))
    if V is None:
        c.unsure('elements', f'{k}|made', f'{f.where()}')
        return
    puts = []
    for s in b.segs:
        if s.stop[0] != 'loop' or s.start not in f.loops():
            continue
        for i in s.v.on_path(('call', 'invoke')):
            if i.callee and method(i.callee) in ('push_back', 'emplace_back') and 'std::vector' in i.callee:
                l = b.loc(s, i.ops[0])
                if l and l[0][0] == 'elem' and l[0][1] == V:
                    puts.append((s, i, unfz(l[0][2])))
    if not puts:
        c.unsure('elements', f'{k}|filled', f'{f.where()}: how clusters are filled cannot be read')
        return
    for s, i, idx in puts:
        x = b.loc(s, i.ops[1])
        src = None
        if x and x[0][0] == 'elem' and x[0][1] == data:
            src = atom1(unfz(x[0][2]))
        q = None
        if src is not None and src[0] == 'm' and src[1][0][0] == 'elem':
            q = src[1][0]
        if q is None:
            plain = src is not None and any(w.i == atom(src) or w.a == src for w in b.walks.values())
            c.ob('elements', False, f'{k}|item', f'{i.where()}: adds {str(x)[:150]}', readable=plain)
            continue
        c.ob('elements', q[1] == elem(IC, idx), f'{k}|item', f'{i.where()}: cluster {idx} receives data of {str(q[1])[:100]}', readable=q[1][0][0] == 'elem')
        inn = next((w for w in b.walks.values() if fz(w.i) == q[2] or fz(atom(w.a)) == q[2]), None)
        out = next((w for w in b.walks.values() if w.i == idx), None)
        if inn is None or out is None:
            c.unsure('elements', f'{k}|loops', f'{f.where()}')
            continue
        for w, hi, nm in ((inn, [size(elem(IC, idx))], 'elements'), (out, [size(IC), size(V)], 'clusters')):
            c.ob('elements', w.lo == P(0) and w.hi in hi, f'{k}|{nm}', f'{f.where()}: {nm} [{w.lo}, {w.hi}) are filled in')
            for e in b.early(w):
                c.ob('elements', False, f'{k}|{nm} early', f'{f.where()}: not all {nm} are filled in')
        for e in b.segs:
            if e.start in inn.body and e.stop == ('loop', inn.h):
                n = [p for p in puts if p[0] is e]
                c.ob('elements', len(n) == 1, f'{k}|each', f'{f.where()}: an element is added {len(n)} times')
        left = misses(b.segs, [e for e in b.segs if e.start == out.h], lambda e: e.stop == ('loop', out.h), lambda e: e.stop == ('loop', inn.h) or e.start not in out.body)
        c.ob('elements', left is None, f'{k}|left out', f'{f.where()}: a cluster can be left empty')
    for s in b.segs:
        if s.stop == ('ret',):
            cp = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and method(i.callee) in ('vector', 'operator=', 'swap') and
                  b.loc(s, i.ops[0]) == (O(0)[0], lay.element_clusters)]
            if len(cp) == 1:
                c.ob('elements', b.loc(s, cp[0].ops[1]) == V, f'{k}|returned', f'{cp[0].where()}: other clusters are returned')
            else:
                c.unsure('elements', f'{k}|returned', f'{f.where()}')
            d = b.C(s.v.mem((('arg', 0), lay.element_distance), 8, s.end))
            want = atom(('m', (O(2)[0], lay.clustering_distance)))
            c.ob('elements', d == want, f'{k}|distance', f'{f.where()}: the distance reported is {d}', readable=isinstance(d, P) and d.const() is not None)
