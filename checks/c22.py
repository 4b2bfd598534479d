"""C22: nearest neighbours, set distances, warping costs and distance matrices account for every item of their range."""
import re

import closures
from codec import P, atom
from flow import atom1
from folds import Body, at, call, cell, elem, holds, infinite, ints, leaves, leq, mentions, order, size, strict
from lists import method, pos
from loops import erase
from paths import segments
from val import fz, unfz

PRE = r'^(\w+::)*'
KEEP = [r'Eigen::.*::operator\(\)', r'Eigen::.*::(rows|cols)$', r'parallelism::Static', r'parallelism::Dynamic', r'DegreeOfParallelism::',
        r'ThreadWorkRange::', r'internal::ComputeDistance(Serial|Parallel)<', r'GetKNearestNeighbors(InRange)?(Serial|Parallel)<']
LOOPS = re.compile(r'parallelism::(Static|Dynamic)ParallelFor(Index|Range)Loop<(.*)>$')
O = lambda k, off=0: (('O', k), off)
A = lambda k: atom(('O', k))
OWN = lambda k: atom(('own', k))


def run(c):
    c.rule('nearest', 'the result starts from one (index, distance) pair per index of the requested range, and is returned whole only when no more '
                      'than K items exist, otherwise after selecting the K smallest by distance and dropping the rest')
    c.rule('pairing', 'each pair holds the index of the item whose distance it holds, and the distance is the one the caller\'s function returns for it')
    c.rule('refused', 'a result is computed only from arguments that satisfy the documented conditions, and only arguments that do not are refused')
    c.rule('extremum', 'a running extremum starts at its neutral value, every item of the range is compared with it, and it changes exactly when '
                       'the item is better')
    c.rule('parallel', 'the parallel form gives each item of the range to the same computation and merges what every thread found')
    c.rule('dispatch', 'the general form passes its arguments on unchanged, with the whole collection as range when none is given')
    c.rule('warping', 'cell (i, j) of the cost matrix receives the distance of items i-1 and j-1 plus the smallest of its three earlier neighbours; '
                      'the borders are infinite and the corner zero')
    c.rule('matrix', 'every cell of a distance matrix receives the distance of its two items')
    m = c.work.load('reduce.cpp', [PRE + r'GetKNearestNeighborsInRange(Serial|Parallel)<', PRE + r'internal::ComputeDistance(Serial|Parallel)<',
                                   PRE + r'pair_(index|distance|size)$', r'IndexAndDistanceCompare', PRE + r'BuildPairwiseDistanceMatrix<'], keep=KEEP)
    lay = layout(m)
    nearest(c, m, lay)
    hausdorff(c, m)
    dispatch(c)
    warping(c)
    matrices(c, m)
    c.assume('the caller\'s distance function returns the same non-negative distance each time it is asked about the same two items')
    c.assume('partial_sort, nth_element and sort order as the standard says; the parallel loops run each item once (C04)')
    c.need('obligations:nearest', 4)
    c.need('obligations:extremum', 4)
    c.need('obligations:refused', 4)


class Lay:
    pass


def layout(m):
    r = Lay()
    r.index = r.dist = r.size = None
    for f in m.fns:
        n = f.qual.split('(')[0].split('::')[-1]
        if n.startswith('pair_'):
            t = segments(f)[0].ret()
            if n == 'pair_size':
                r.size = t.const()
            else:
                setattr(r, 'index' if n == 'pair_index' else 'dist', atom1(erase(t))[1][1])
    return r


def name(f):
    return re.sub(r'<.*$', '', f.qual).split('::')[-1] if '::operator()' not in f.qual else 'lambda'


def key(f):
    n = f.short()
    return re.sub(r'\(.*$', '', n)[:90]


def kind(f):
    """short name of a function, with its parameter list reduced to type names"""
    return re.sub(r'common_robotics_utilities::v1::', '', re.sub(r'<.*', '', f.qual))


# ---------------------------------------------------------------- helpers
def pfor(s):
    return [i for i in s.v.on_path(('call', 'invoke')) if i.callee and LOOPS.search(i.callee)]


def body_of(m, callee):
    x = LOOPS.search(callee).group(3)
    return next((f for f in m.fns if f.qual.endswith('::operator()') and x.endswith(f.qual[:-12])), None)


def loop_args(b, s, i):
    """(lo, hi, place of the closure) of a parallel loop call"""
    lo, hi = b.val(s, i.ops[1]), b.val(s, i.ops[2])
    return lo, hi, erase(s.v.loc(i.ops[3]))


def inner(m, b, s, i):
    f = body_of(m, i.callee)
    if f is None:
        return None
    x = Body(f, b, loop_args(b, s, i)[2], b.extra)
    return x if x.ok else None


def refusals(c, b, valid, k, throws=True):
    """valid: list of polynomials that must all be >= 0 for the arguments to be acceptable"""
    f = b.f
    for s in b.segs:
        if s.start != 0:
            continue
        ls = b.lits(s)
        if s.stop == ('throw',):
            if throws:
                wrong = [g for g in valid if holds(ls, [P(-1) - g])]
                c.ob('refused', bool(wrong) or alternatives(ls, valid), f'{k}|accepts', f'{f.where()}: arguments that satisfy the conditions are refused',
                     readable=bool(valid))
            continue
        for g in valid:
            ok = holds(ls, [g])
            c.ob('refused', ok, f'{k}|{n_of(g)}', f'{f.where()}: goes on without {n_of(g)} >= 0 being established')


def alternatives(ls, valid):
    """a refused disjunction each part of which breaks a condition"""
    for l in ls:
        if l[0] == 'any' and all(any(holds([x for x in ls if x is not l] + [y], [P(-1) - g]) for g in valid) for y in l[1]):
            return True
        if l[0] == 'ne':
            p = unfz(l[1])
            rest = [x for x in ls if x is not l]
            if all(any(holds(rest + [('ge', fz(q - P(1)))], [P(-1) - g]) for g in valid) for q in (p, P(0) - p)):
                return True
    return False


def n_of(g):
    return re.sub(r"\('O', (\d+)\)", r'argument \1', str(g)).replace("'", '').replace('((argument', '(argument')[:90]


# ---------------------------------------------------------------- nearest neighbours
def nearest(c, m, lay):
    for f in m.fns:
        n = re.match(PRE + r'GetKNearestNeighborsInRange(Serial|Parallel)<', f.qual)
        if not n or not f.qual.endswith('>') or 'lambda' in f.qual:
            continue
        c.saw(f)
        b = Body(f)
        k = f'GetKNearestNeighborsInRange{n.group(n.lastindex)}'
        if not b.ok:
            c.unsure('nearest', k, 'too many paths')
            continue
        start, end, K = A(2), A(3), A(6)
        items = O(1)
        refusals(c, b, [end - start, size(items) - end, K], k)
        routes(c, m, b, lay, k, items, start, end, K)


class Kind:
    """what a vector of pairs holds: n pairs; state 'blank', 'all', 'best first', 'best'"""
    def __init__(self, state, n=None):
        self.state, self.n = state, n

    def __repr__(self):
        return f'{self.state}({self.n})'


def routes(c, m, b, lay, k, items, start, end, K):
    """follow every way through the function, keeping what each vector holds"""
    n = end - start
    todo = [(s, {}, ()) for s in b.segs if s.start == 0]
    seen = 0
    while todo:
        s, st, way = todo.pop()
        seen += 1
        if seen > 400:
            c.unsure('nearest', k, 'too many ways through the function')
            return
        if s.stop == ('throw',):
            continue
        st = dict(st)
        for i in s.v.on_path(('call', 'invoke')):
            if i.callee:
                step(c, m, b, s, i, st, lay, k, items, start, end, K)
        ls = b.lits(s)
        if s.stop == ('ret',):
            r = st.get(O(0))
            if r is None or r.state == '?':
                c.unsure('nearest', f'{k}|result', f'{b.f.where()}: what is returned cannot be read')
                continue
            none = holds_any(ls, [K, n])
            few = holds(ls, [K - n])
            if r.state == 'empty':
                c.ob('nearest', none, f'{k}|empty', f'{b.f.where()}: an empty result although items are asked for and present')
            elif r.state in ('all', 'sorted'):
                c.ob('nearest', few or none, f'{k}|all', f'{b.f.where()}: every item is returned although more than K may be present')
            elif r.state == 'best':
                c.ob('nearest', True, f'{k}|best')
            else:
                c.ob('nearest', False, f'{k}|{r.state}', f'{b.f.where()}: returns a vector that holds {r.state} instead of the K nearest')
            continue
        h = s.stop[1]
        if h in way:
            continue
        w = b.walks.get(h)
        st2 = through(c, m, b, h, w, st, ls, lay, k, items, start, end, K)
        outs = [q for q in b.segs if q.start == h and not (q.stop[0] == 'loop' and q.stop[1] in b.f.loops()[h]) and q.stop != ('throw',)]
        for q in outs:
            todo.append((q, st2, way + (h,)))


def holds_any(ls, zero):
    """one of the quantities is zero (or less)"""
    if any(holds(ls, [P(0) - z]) for z in zero):
        return True
    for l in ls:
        if l[0] == 'any' and all(any(holds([x for x in ls if x is not l] + [y], [P(0) - z]) for z in zero) for y in l[1]):
            return True
    return False


def is_pairs(i):
    return re.match(r'^std::vector<[^<]*IndexAndDistance\b', i.callee or '')


def step(c, m, b, s, i, st, lay, k, items, start, end, K):
    n = method(i.callee)
    if not i.ops:
        return
    f = b.f
    l = b.loc(s, i.ops[0]) if f.is_ptr(i.ops[0]) else None
    cls = is_pairs(i)
    sel = re.match(r'^std::(partial_sort|nth_element|sort|stable_sort)(<|$)', i.callee)
    if sel:
        a, e = pos(s, i.ops[0], lay.size), pos(s, i.ops[1 if 'sort' == sel.group(1) or sel.group(1) == 'stable_sort' else 2], lay.size)
        if a is None or e is None:
            c.unsure('nearest', f'{k}|select', f'{i.where()}: which items are sorted cannot be read')
            for x in st:
                st[x] = Kind('?')
            return
        v = b.place(a[0])
        whole = a[1] == P(0) and e[0] == a[0] and (e[1] == ('end', 0) or st.get(v) and isinstance(e[1], P) and b.C(e[1]) == st[v].n)
        short = a[1] == P(0) and e[0] == a[0] and not whole and (isinstance(e[1], P) or e[1] is not None and e[1] != ('end', 0))
        if not whole:
            c.ob('nearest', False, f'{k}|select range', f'{i.where()}: the selection leaves out part of the candidates', readable=short or a[1] != P(0))
            st[v] = Kind('?')
            return
        how = by_distance(m, s, i, lay)
        c.ob('nearest', how == 'less', f'{k}|select order', f'{i.where()}: the selection does not order by distance, smallest first', readable=how in ('less', 'wrong'))
        if st.get(v) is None or st[v].state not in ('all', 'merged'):
            if st.get(v) is None or st[v].state == '?':
                st[v] = Kind('?')
            else:
                c.ob('nearest', False, f'{k}|select early', f'{i.where()}: the selection is made from a vector that holds {st[v].state}')
                st[v] = Kind('?')
            return
        if sel.group(1) in ('sort', 'stable_sort'):
            st[v] = Kind('sorted', st[v].n)
            return
        mid = pos(s, i.ops[1], lay.size)
        cnt = b.C(mid[1]) if mid and mid[0] == a[0] and isinstance(mid[1], P) else None
        if cnt is None:
            st[v] = Kind('?')
            c.unsure('nearest', f'{k}|select count', f'{i.where()}: how many items are selected cannot be read')
            return
        enough = cnt - K if sel.group(1) == 'partial_sort' else cnt - K + P(1)
        if sel.group(1) == 'nth_element' and cnt != K and cnt != K - P(1):
            enough = P(-1) if enough.const() is not None else enough
        ok = holds(b.lits(s), [enough])
        c.ob('nearest', ok, f'{k}|select count', f'{i.where()}: selects the smallest {cnt} items, not K')
        st[v] = Kind('best first' if ok else '?', st[v].n)
        return
    if LOOPS.search(i.callee):
        parallel_loop(c, m, b, s, i, st, lay, k, items, start, end, K)
        return
    if l is None:
        return
    blocks = re.match(r'^std::vector<std::vector<[^<]*IndexAndDistance\b', i.callee)
    if blocks:
        if n == 'vector' and len(i.ops) >= 2 and not f.is_ptr(i.ops[1]):
            t = b.val(s, i.ops[1])
            a = atom1(t)
            full = a is not None and 'GetNumThreads' in str(a)
            c.ob('parallel', full, f'{k}|storage', f'{i.where()}: room for the results of {t} threads', readable=all(x[0] in ('O', 'size') for q in t.t for x in q))
            st[l] = Kind('no blocks' if full else 'no blocks?', t)
        return
    if not cls:
        return
    if n == 'vector':
        src = b.loc(s, i.ops[1]) if len(i.ops) > 1 and f.is_ptr(i.ops[1]) else None
        if len(i.ops) == 1:
            st[l] = Kind('empty', P(0))
        elif src is not None and src in st and len(i.ops) == 2:
            st[l] = st[src]
        elif not f.is_ptr(i.ops[1]):
            st[l] = Kind('blank', b.val(s, i.ops[1]))
        elif len(i.ops) == 2 and src is not None and src[0][0] == 'alloca':
            st[l] = Kind('empty', P(0)) if 'allocator' in str(i.cd).split('vector(')[-1][:60] else Kind('?')
        else:
            a, e = pos(s, i.ops[1], lay.size), pos(s, i.ops[2], lay.size) if len(i.ops) > 2 else None
            v = b.place(a[0]) if a else None
            cnt = b.C(e[1]) if a and e and isinstance(e[1], P) and e[0] == a[0] and a[1] == P(0) else None
            if v in st and cnt == K and st[v].state in ('best first', 'sorted'):
                st[l] = Kind('best')
            else:
                st[l] = Kind('?')
    elif n == 'resize' and l in st:
        t = b.val(s, i.ops[1])
        if st[l].state == 'empty':
            st[l] = Kind('blank', t)
        elif st[l].state in ('best first', 'sorted'):
            c.ob('nearest', t == K, f'{k}|count', f'{i.where()}: keeps {t} items, not K')
            st[l] = Kind('best') if t == K else Kind('?')
        elif st[l].state == 'all' or st[l].state == 'merged':
            c.ob('nearest', False, f'{k}|dropped', f'{i.where()}: items are dropped before the nearest ones are selected')
            st[l] = Kind('?')
        else:
            st[l] = Kind('?')
    elif n == 'operator=' and len(i.ops) == 2:
        src = b.loc(s, i.ops[1])
        st[l] = st.get(src, Kind('?'))
    elif n in ('clear',):
        st[l] = Kind('empty', P(0))
    elif n == 'erase' and len(i.ops) >= 3 and l in st:
        q = 1 if i.sret else 0
        a, e = pos(s, i.ops[1], lay.size), pos(s, i.ops[2], lay.size)
        ok = a and e and e[1] == ('end', 0) and isinstance(a[1], P) and b.C(a[1]) == K and st[l].state in ('best first', 'sorted')
        st[l] = Kind('best') if ok else Kind('?')
    elif n in ('reserve', 'size', 'empty', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'data', '~vector', 'capacity', 'push_back', 'emplace_back',
               'insert', 'front', 'back', 'shrink_to_fit', 'max_size', 'get_allocator'):
        pass
    else:
        st[l] = Kind('?')


def by_distance(m, s, i, lay):
    """'less' when the order of a selection call compares distances, 'wrong' when it compares otherwise"""
    g = None
    for o in i.ops:
        l = s.v.loc(o) if o[0] == 'g' or s.v.fn.is_ptr(o) else None
        if l and l[0][0] == 'g':
            g = next((f for f in m.fns if re.sub(r'\(.*', '', l[0][1]) == f.qual), None)
    if g is None:
        x = re.search(r'<(.*)>$', i.callee)
        g = next((f for f in m.fns if x and f.qual.endswith('::operator()') and f.qual[:-12].split('::')[-1] and f.qual[:-12] in x.group(1)), None)
        base = 1
    else:
        base = 0
    if g is None:
        return None
    ss = segments(g)
    if not ss:
        return None
    d = [atom(('m', (('arg', base + k), lay.dist))) for k in (0, 1)]
    used = set()
    for q in ss:
        t = erase(q.ret())
        used |= {x[1] for x in leaves(fz(t) if isinstance(t, P) else t) if len(x) == 2 and x[0] == 'm'}
        for l in q.lits:
            used |= {x[1] for x in leaves(erase(l)) if len(x) == 2 and x[0] == 'm'}
        a = atom1(t) if isinstance(t, P) else t
        if a is not None and a[0] == 'cond' and a[1][0] in ('fogt', 'fugt'):
            p = unfz(erase(a[1][1]))
            if p == d[1] - d[0]:
                continue
            return 'wrong' if p == d[0] - d[1] or used and all(x[1] != lay.dist for x in used) else None
        v = t.const() if isinstance(t, P) else None
        if v is not None:
            ls = [erase(l) for l in q.lits]
            r = order(ls, d[0], d[1])
            if r == ('lt' if v else 'ge'):
                continue
            if r is not None:
                return 'wrong'
        if used and all(x[1] != lay.dist for x in used):
            return 'wrong'
        return None
    return 'less'


def stored(b, s, lay, V):
    """pairs stored into container V along a segment: list of (slot, index word, distance word, where); slot None when appended"""
    out = {}
    res = []
    for i in s.v.on_path(('store', 'call', 'invoke')):
        if i.op == 'store':
            l = b.loc(s, i.ops[1])
            if l and l[0][0] == 'elem' and l[0][1] == V and l[1] in (lay.index, lay.dist):
                e = out.setdefault(l[0][2], {})
                e[l[1]] = b.val(s, i.ops[0])
                e['w'] = i
        elif is_pairs(i) and method(i.callee) in ('push_back', 'emplace_back') and b.loc(s, i.ops[0]) == V:
            if method(i.callee) == 'push_back' or len(i.ops) == 2:
                l = s.v.loc(i.ops[1])
                if l:
                    res.append((None, b.C(s.v.mem((l[0], l[1] + lay.index), 8, i)), b.C(s.v.mem((l[0], l[1] + lay.dist), 8, i)), i))
                    continue
            w = []
            for o in i.ops[1:]:
                w.append(b.C(s.v.mem(s.v.loc(o), 8, i)) if b.f.is_ptr(o) and s.v.loc(o) else b.val(s, o))
            res.append((None,) + tuple(w[:2]) + (i,) if len(w) == 2 else (None, None, None, i))
        elif i.callee and re.search(r'memcpy|memmove', i.callee or i.cn or '') or i.callee and i.callee.endswith('IndexAndDistance::operator='):
            l = b.loc(s, i.ops[0])
            if l and l[0][0] == 'elem' and l[0][1] == V:
                q = s.v.loc(i.ops[1])
                e = out.setdefault(l[0][2], {})
                e['w'] = i
                if q:
                    e[lay.index] = b.C(s.v.mem((q[0], q[1] + lay.index), 8, i))
                    e[lay.dist] = b.C(s.v.mem((q[0], q[1] + lay.dist), 8, i))
    for k, e in out.items():
        res.append((unfz(k), e.get(lay.index), e.get(lay.dist), e['w']))
    return res


def pair_ok(c, b, k, ws, V, i_of, slot, items, start, where):
    """the pairs written for loop position i_of (running from the walk's first value)"""
    if len(ws) != 1:
        c.ob('pairing', False, f'{k}|missing', f'{where}: {len(ws)} pairs are recorded for an item', readable=not ws)
        return None
    s, x, d, w = ws[0]
    if isinstance(x, P):
        a = atom1(x)
        while a is not None and a[0] == 'trunc':
            x = unfz(a[2])
            a = atom1(x)
    if not isinstance(x, P) or not isinstance(d, P):
        c.unsure('pairing', k, f'{w.where()}: the stored pair cannot be read')
        return None
    want = call(O(5), elem(items, x), O(4))
    c.ob('pairing', d == want, f'{k}|distance', f'{w.where()}: the distance stored with index {x} is {str(d)[:160]}',
         readable=any(y and y[0] == 'fn' for y in leaves(fz(d))))
    if s is not None:
        c.ob('pairing', s == x - start, f'{k}|slot', f'{w.where()}: slot {s} receives item {x}')
    return x


def through(c, m, b, h, w, st, ls, lay, k, items, start, end, K):
    """effect of loop h on the vectors of pairs"""
    st = dict(st)
    body = b.f.loops()[h]
    back = [s for s in b.segs if s.start in body and s.stop == ('loop', h)]
    grow = {}
    hs = set()
    for V in list(st):
        for s in b.segs:
            if s.start in body and s.stop != ('throw',):
                if stored(b, s, lay, V):
                    hs.add(V)
                for i in s.v.on_path(('call', 'invoke')):
                    if i.callee and method(i.callee) == 'insert' and is_pairs(i) and b.loc(s, i.ops[1 if i.sret else 0]) == V:
                        grow[V] = s
    nested = b.f.loops()[h] & set(b.f.loops()) - {h}
    if w is None or nested and (hs or any(s.start in nested and s.stop[0] == 'loop' and s.stop[1] in nested and
                                          any(i.callee and method(i.callee) == 'insert' and is_pairs(i) for i in s.v.on_path(('call', 'invoke')))
                                          for s in b.segs)):
        for V in list(st):
            if V in hs or V in grow:
                st[V] = Kind('?')
        if hs or grow:
            c.unsure('nearest', f'{k}|loop', f'{b.f.where()}: what a loop ranges over cannot be read')
        return st
    gone = b.early(w)
    for V in hs - set(grow):
        if gone:
            c.ob('nearest', False, f'{k}|early', f'{b.f.where()}: the loop over the items can end before its last one')
        first = None
        good = True
        for s in back:
            x = pair_ok(c, b, k, stored(b, s, lay, V), V, w.i, None, items, start, b.f.where())
            if x is None:
                good = False
            elif first is not None and first != x:
                good = False
            else:
                first = x
        if not good or first is None:
            st[V] = Kind('?')
            continue
        d = first - w.i
        lo, hi = w.lo + d, w.hi + d
        ok = lo == start and hi == end
        c.ob('nearest', ok, f'{k}|range', f'{b.f.where()}: items [{lo}, {hi}) are considered, asked for [{start}, {end})',
             readable=all(y[0] in ('O', 'size') for p in (lo, hi) for q in p.t for y in q))
        appended = all(x[0] is None for s in back for x in stored(b, s, lay, V))
        room = st[V].state == 'empty' if appended else st[V].state == 'blank' and st[V].n == end - start
        if st[V].state in ('empty', 'blank'):
            c.ob('nearest', room, f'{k}|room', f'{b.f.where()}: a vector with {st[V].n} entries receives the pairs of {end - start} items')
        st[V] = Kind('all', end - start) if ok and room else Kind('?')
    for V, s in grow.items():
        # blocks merged
        src = w.K
        good = src is not None and src in st and st[src].state == 'blocks' and st[V].state == 'empty' and not gone
        bad = None
        for q in back:
            ins = [i for i in q.v.on_path(('call', 'invoke')) if i.callee and method(i.callee) == 'insert' and is_pairs(i) and b.loc(q, i.ops[1 if i.sret else 0]) == V]
            if not ins and src is not None and vacant(b.lits(q), elem(src, atom(w.a))):
                continue
            if len(ins) != 1:
                bad = bad or (f'{b.f.where()}: a thread\'s result is not merged' if not ins else None)
                good = False
                continue
            i = ins[0]
            e = 1 if i.sret else 0
            f1, l1 = pos(q, i.ops[e + 2], lay.size), pos(q, i.ops[e + 3], lay.size) if len(i.ops) > e + 3 else None
            K1 = b.place(f1[0]) if f1 else None
            cur = elem(src, atom(w.a)) if src else None
            if not f1 or not l1 or f1[0] != l1[0]:
                good = False
            elif K1 != cur or f1[1] != P(0) or l1[1] != ('end', 0):
                good = False
                if K1 == cur:
                    bad = f'{i.where()}: only part of a thread\'s result is merged'
        if gone and src in st:
            bad = f'{b.f.where()}: merging can stop before the last thread\'s result'
        c.ob('parallel', good, f'{k}|merge', bad or 'the merge of the threads\' results cannot be read', readable=bad is not None)
        st[V] = Kind('merged') if good else Kind('?')
    return st


def vacant(ls, K):
    """the literals say that container K has no elements"""
    return holds(ls, [P(0) - size(K)])


def parallel_loop(c, m, b, s, i, st, lay, k, items, start, end, K):
    lo, hi, cl = loop_args(b, s, i)
    x = inner(m, b, s, i)
    where = i.where()
    if x is None:
        c.unsure('parallel', f'{k}|body', f'{where}: the work of the parallel loop cannot be read')
        for v in st:
            st[v] = Kind('?')
        return
    c.saw(x.f)
    if 'Index' in LOOPS.search(i.callee).group(2):
        done = [q for q in x.segs if q.stop != ('throw',)]
        hit = False
        for V in list(st):
            ws = [stored(x, q, lay, V) for q in done]
            if not any(ws):
                continue
            hit = True
            first, good = None, True
            for w in ws:
                y = pair_ok(c, x, f'{k}|parallel', w, V, OWN(2), None, items, start, x.f.where())
                if y is None or first is not None and y != first:
                    good = False
                first = y
            if not good or any(q.stop != ('ret',) or q.start != 0 for q in done):
                st[V] = Kind('?')
                continue
            d = first - OWN(2)
            ok = lo + d == start and hi + d == end
            c.ob('parallel', ok, f'{k}|range', f'{where}: items [{lo + d}, {hi + d}) are considered, asked for [{start}, {end})',
                 readable=all(z[0] in ('O', 'size') for p in (lo + d, hi + d) for q in p.t for z in q))
            room = st[V].state == 'blank' and st[V].n == end - start
            st[V] = Kind('all', end - start) if ok and room else Kind('?')
        if not hit:
            c.unsure('parallel', f'{k}|body', f'{where}: the parallel loop stores no pairs')
        return
    # one block per thread
    done = [q for q in x.segs if q.stop != ('throw',)]
    for q in done:
        calls = [j for j in q.v.on_path(('call', 'invoke')) if j.callee and re.search(r'GetKNearestNeighborsInRangeSerial<', j.callee)]
        if len(calls) != 1 or q.stop != ('ret',):
            c.unsure('parallel', f'{k}|block', f'{x.f.where()}: the work on a block of items cannot be read')
            for v in st:
                st[v] = Kind('?')
            return
        j = calls[0]
        e = 1 if j.sret else 0
        got = [x.loc(q, o) if x.f.is_ptr(o) else x.val(q, o) for o in j.ops[e:]]
        rng = {}
        for y in q.v.on_path(('call', 'invoke')):
            z = re.search(r'ThreadWorkRange::Get(RangeStart|RangeEnd|ThreadNum)$', y.callee or '')
            if z and x.loc(q, y.ops[0]) in (((('own', 1), 0)),):
                rng.setdefault(z.group(1), []).append(x.val(q, ('i', y.id)))
        inr = lambda t, w: any(t == z for z in rng.get(w, []))
        text = [('items', got[0] == items), ('start', inr(got[1], 'RangeStart')), ('end', inr(got[2], 'RangeEnd')), ('value', got[3] == O(4)),
                ('distance', got[4] == O(5)), ('count', got[5] == K)]
        for w, ok in text:
            c.ob('parallel', ok, f'{k}|block {w}', f'{j.where()}: a block of items is searched with another {w}: {str(got)[:200]}')
        res = x.loc(q, j.ops[0])
        put = None
        for y in q.v.on_path(('call', 'invoke')):
            if is_pairs(y) and method(y.callee) == 'operator=' and x.loc(q, y.ops[1]) == res:
                put = x.loc(q, y.ops[0])
        if res and res[0][0] == 'elem':
            put = res
        ok = put is not None and put[0][0] == 'elem' and put[1] == 0 and inr(unfz(put[0][2]), 'ThreadNum') and put[0][1] in st
        if put is None:
            c.unsure('parallel', f'{k}|block result', f'{x.f.where()}: where the result of a block goes cannot be read')
        else:
            c.ob('parallel', ok, f'{k}|block result', f'{x.f.where()}: the result of a block is not stored under its own thread', readable=put[0][0] == 'elem')
        if ok and all(z[1] for z in text):
            st[put[0][1]] = Kind('blocks' if st[put[0][1]].state == 'no blocks' else '?')
    ok = lo == start and hi == end
    c.ob('parallel', ok, f'{k}|blocks range', f'{where}: blocks of [{lo}, {hi}) are searched, asked for [{start}, {end})')
    if not ok:
        for v in st:
            st[v] = Kind('?')


# ---------------------------------------------------------------- set distance
def hausdorff(c, m):
    for f in m.fns:
        n = re.match(PRE + r'internal::ComputeDistance(Serial|Parallel)<', f.qual)
        if not n or not f.qual.endswith('>') or 'lambda' in f.qual:
            continue
        c.saw(f)
        b = Body(f)
        mat = 'Eigen' in f.argtypes[3] if len(f.argtypes) > 3 else 'Eigen' in (f.cd or '')
        k = f'ComputeDistance{n.group(n.lastindex)}|{"matrix" if mat else "function"}'
        if not b.ok:
            c.unsure('extremum', k, 'too many paths')
            continue
        X, Y, D = O(0), O(1), O(2)
        dist = (lambda i, j: cell(D, i, j)) if mat else (lambda i, j: call(D, elem(X, i), elem(Y, j)))
        valid = [size(X) - P(1), size(Y) - P(1)]
        if mat:
            r, q = atom(('rows', D)), atom(('cols', D))
            valid += [r - size(X), size(X) - r, q - size(Y), size(Y) - q]
        refusals(c, b, valid, k)
        largest(c, m, b, k, X, Y, dist)


def largest(c, m, b, k, X, Y, dist):
    """the function returns the largest over X of the smallest distance to Y"""
    fs = {fz(atom(f.cell)): f for f in b.folds()}
    outer = None
    for s in b.segs:
        if s.stop != ('ret',):
            continue
        t = b.C(s.ret())
        if fz(t) not in fs:
            a = atom1(t)
            done = t.const() is not None or a is not None and (a[0] in ('cell', 'fn') or a[0] == 'm' and a[1][0][0] == 'elem')
            c.ob('extremum', False, f'{k}|result', f'{b.f.where()}: returns {str(t)[:80]}, which is not the extremum over the items', readable=done)
            continue
        outer = fs[fz(t)]
        h = outer.h
        if not (s.start == h and b.over(s, b.walks[h])):
            c.ob('extremum', False, f'{k}|early', f'{b.f.where()}: returns before every item was compared')
    if outer is None:
        c.unsure('extremum', f'{k}|result', f'{b.f.where()}: the returned extremum cannot be read')
        return
    w = b.walks[outer.h]
    judge(c, b, outer, 'max', k + '|outer', own_early=True)
    a = atom1(outer.X)
    infold = fs.get(fz(outer.X))
    if infold is not None and b.walks[infold.h].body < w.body:
        wi = b.walks[infold.h]
        inside(c, b, infold, outer, k, w.i, dist, Y, wi)
        cover(c, b, w, P(0), size(X), k + '|first set')
        return
    # a walk over what the threads found
    src = w.K
    if src is None and a is not None and a[0] == 'm' and a[1][0][0] == 'elem':
        src = a[1][0][1]
    if src is None or outer.X not in (at(src, w.i), at(src, atom(w.a))):
        c.ob('extremum', False, f'{k}|candidate', f'{b.f.where()}: compares {str(outer.X)[:120]}', readable=any(x and x[0] in ('fn', 'cell') for x in leaves(fz(outer.X))))
        return
    cover(c, b, w, P(0), size(src), k + '|threads')
    calls = [(s, i) for s in b.segs if s.start == 0 for i in pfor(s)]
    if len({i.id for s, i in calls}) != 1:
        c.unsure('parallel', f'{k}|loop', 'parallel loop not found')
        return
    s, i = calls[0]
    lo, hi, cl = loop_args(b, s, i)
    c.ob('parallel', lo == P(0) and hi == size(X), f'{k}|range', f'{i.where()}: items [{lo}, {hi}) of the first set are considered')
    storage_init(c, b, s, src, k)
    x = inner(m, b, s, i)
    if x is None:
        c.unsure('parallel', f'{k}|body', f'{i.where()}: the work of the parallel loop cannot be read')
        return
    c.saw(x.f)
    fi = {fz(atom(g.cell)): g for g in x.folds()}
    cand = None
    for q in x.segs:
        if q.stop != ('ret',):
            continue
        sts = []
        for j in q.v.on_path(('store',)):
            l = x.loc(q, j.ops[1])
            if l and l[0][0] == 'elem' and l[0][1] == src:
                sts.append((l, x.val(q, j.ops[0]), j))
        sts = [y for y in sts if y[1] != atom(('m', y[0]))]
        if len(sts) > 1:
            c.unsure('parallel', f'{k}|store', x.f.where())
            return
        if sts:
            cand = (q, sts[0])
    if cand is None:
        c.unsure('parallel', f'{k}|store', f'{x.f.where()}: no thread result is stored')
        return
    l, t, j = cand[1]
    if fz(t) not in fi:
        c.ob('extremum', False, f'{k}|thread result', f'{j.where()}: stores {str(t)[:120]}, not the smallest distance', readable=any(y and y[0] in ('fn', 'cell') for y in leaves(fz(t))))
        return
    slot = unfz(l[0][2])
    c.ob('parallel', slot == OWN(1), f'{k}|slot', f'{j.where()}: the result goes to slot {slot}', readable=slot == OWN(2) or slot.const() is not None)
    old = atom(('m', l))
    for q in x.segs:
        if q.stop != ('ret',):
            continue
        r = order(x.lits(q), t, old)
        has = any(x.loc(q, j2.ops[1]) == l and x.val(q, j2.ops[0]) != old for j2 in q.v.on_path(('store',)))
        if r is None:
            # equal place with a checked access
            c.ob('extremum', False, f'{k}|thread max', f'{x.f.where()}: the thread\'s result is {"overwritten" if has else "left"} without being compared',
                 readable=not mentions(x.lits(q), t))
        else:
            c.ob('extremum', (r == 'ge') == has, f'{k}|thread max', f'{x.f.where()}: the thread\'s result is {"replaced by a smaller" if has else "kept over a larger"} distance')
    inside(c, x, fi[fz(t)], old, k, OWN(2), dist, Y, x.walks[fi[fz(t)].h])


def storage_init(c, b, s, src, k):
    for j in s.v.on_path(('call', 'invoke')):
        if j.callee and method(j.callee) == 'vector' and b.loc(s, j.ops[0]) == src and len(j.ops) >= 3 and not b.f.is_ptr(j.ops[1]):
            n = atom1(b.val(s, j.ops[1]))
            c.ob('parallel', n is not None and 'GetNumThreads' in str(n), f'{k}|storage', f'{j.where()}: room for {b.val(s, j.ops[1])} thread results',
                 readable=b.val(s, j.ops[1]).const() is not None)
            l = s.v.loc(j.ops[2])
            z = b.C(s.v.mem(l, 8, j)) if l else None
            if isinstance(z, P):
                c.ob('extremum', z == P(0) or infinite(z, -1), f'{k}|thread start', f'{j.where()}: the threads\' results start at {z}',
                     readable=z.const() is not None or infinite(z, 1))
            return
    c.unsure('parallel', f'{k}|storage', 'creation of the thread results not found')


def cover(c, b, w, lo, hi, k):
    c.ob('extremum', w.lo == lo and w.hi == hi, k, f'{b.f.where()}: items [{w.lo}, {w.hi}) are compared, not [{lo}, {hi})',
         readable=all(y[0] in ('O', 'size', 'own', 'rows', 'cols') for p in (w.lo, w.hi) for q in p.t for y in q))


def judge(c, b, f, way, k, own_early=False):
    for t in f.bad:
        c.ob('extremum', False, f'{k}|{t[:40]}', f'{b.f.where()}: {t}')
    for t in f.odd:
        c.unsure('extremum', f'{k}|{t[:40]}', t)
    if f.way:
        c.ob('extremum', f.way == way, f'{k}|direction', f'{b.f.where()}: keeps the {f.way}imum, not the {way}imum')
    for t in f.init:
        if way == 'min':
            ok = infinite(t, 1)
        else:
            ok = infinite(t, -1) or t == P(0)
        w = b.walks[f.h]
        if not ok and w.lo.const() == 1 and isinstance(t, P) and fz(t) == swap(fz(f.X), w.a, P(0)):
            ok = True
        c.ob('extremum', ok, f'{k}|start', f'{b.f.where()}: the {way}imum starts at {str(t)[:60]}', readable=infinite(t, 1) or infinite(t, -1) or t.const() is not None)


def swap(t, a, p):
    from folds import remap
    return remap(t, {a: fz(p)})


def inside(c, b, f, outer, k, i, dist, Y, w):
    judge(c, b, f, 'min', k + '|inner')
    want = dist(i, w.i)
    c.ob('extremum', f.X == want, f'{k}|distance', f'{b.f.where()}: compares {str(f.X)[:160]} instead of the distance of the two items',
         readable=any(y and y[0] in ('fn', 'cell') for y in leaves(fz(f.X))))
    lo = P(1) if w.lo == P(1) and any(fz(t) == swap(fz(f.X), w.a, P(0)) for t in f.init) else P(0)
    cover(c, b, w, lo, size(Y), k + '|second set')
    for s in b.early(w):
        ls = b.lits(s)
        o = atom(outer.cell) if hasattr(outer, 'cell') else outer
        ok = o is not None and (leq(ls, f.X, o) or leq(ls, atom(f.cell), o))
        c.ob('extremum', ok, f'{k}|cut short', f'{b.f.where()}: the search for the smallest distance can stop before the last item')


# ---------------------------------------------------------------- general forms
def dispatch(c):
    m = c.work.load('reduce.cpp', [PRE + r'GetKNearestNeighbors(Serial|Parallel|InRange)?<', PRE + r'simple_hausdorff_distance::ComputeDistance<'], keep=KEEP)
    for f in m.fns:
        if not f.qual.endswith('>') or 'lambda' in f.qual:
            continue
        n = re.sub(r'<.*', '', f.qual).split('::')[-1]
        whole = n in ('GetKNearestNeighbors', 'GetKNearestNeighborsSerial', 'GetKNearestNeighborsParallel')
        if n not in ('ComputeDistance', 'GetKNearestNeighborsInRange') and not whole:
            continue
        c.saw(f)
        b = Body(f)
        if not b.ok:
            c.unsure('dispatch', n, 'too many paths')
            continue
        mat = 'Eigen' in (f.argtypes[3] if len(f.argtypes) > 3 else '')
        k = n + ('|matrix' if n == 'ComputeDistance' and mat else '')
        for s in b.segs:
            if s.stop == ('throw',):
                continue
            if s.stop != ('ret',):
                c.unsure('dispatch', k, 'loop')
                continue
            cs = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and re.search(r'(ComputeDistance|GetKNearestNeighbors(InRange)?)(Serial|Parallel)<', i.callee)]
            if len(cs) != 1:
                c.unsure('dispatch', k, f'{f.where()}: {len(cs)} calls of the computation')
                continue
            i = cs[0]
            g = re.search(r'(\w+)<', i.callee[i.callee.rindex('simple_'):] if 'simple_' in i.callee else i.callee).group(1)
            g = re.search(r'((ComputeDistance|GetKNearestNeighbors)(InRange)?(Serial|Parallel))<', i.callee).group(1)
            got = [b.loc(s, o) if f.is_ptr(o) else b.val(s, o) for o in i.ops]
            if n == 'ComputeDistance':
                want = [O(0), O(1), O(2)] + ([O(3)] if g.endswith('Parallel') else [])
                ret = atom1(b.C(s.ret())) if isinstance(s.ret(), P) else None
                kept = ret is not None and ret == atom1(b.C(s.v.n(('i', i.id))))
                c.ob('dispatch', kept, f'{k}|{g}|result', f'{f.where()}: the computed distance is not what is returned')
            else:
                if whole:
                    mid = [] if 'InRange' not in g else [P(0), size(O(1))]
                    want = [O(0), O(1)] + mid + [O(2), O(3), A(4)]
                    last = O(5)
                else:
                    want = [O(0), O(1), A(2), A(3), O(4), O(5), A(6)]
                    last = O(7)
                if g.endswith('Parallel'):
                    want.append(last)
            for q, (x, y) in enumerate(zip(got, want)):
                if y == O(3) and n == 'ComputeDistance' and x != y:
                    continue
                c.ob('dispatch', x == y, f'{k}|{g}|{q}', f'{i.where()}: argument {q} is {str(x)[:100]}, expected {str(y)[:60]}',
                     readable=x is not None and (not isinstance(x, tuple) or x[0][0] == 'O'))


# ---------------------------------------------------------------- warping
def warping(c):
    m = c.work.load('reduce.cpp', [PRE + r'SimpleDTW<.*>::(EvaluateWarpingCost|InitializeMatrix|SimpleDTW)(\(|$)'], keep=KEEP + [r'SimpleDTW<.*>::InitializeMatrix$'])
    for f in m.fns:
        n = f.qual.split('::')[-1]
        if n not in ('EvaluateWarpingCost', 'InitializeMatrix', 'SimpleDTW'):
            continue
        c.saw(f)
        b = Body(f)
        if not b.ok:
            c.unsure('warping', n, 'too many paths')
        elif n == 'EvaluateWarpingCost':
            evaluate(c, b)
        elif n == 'InitializeMatrix':
            borders(c, b)
    # the free function
    m = c.work.load('reduce.cpp', [PRE + r'simple_dtw::EvaluateWarpingCost<'], keep=KEEP + [r'SimpleDTW<.*>::\w+$'])
    for f in m.fns:
        if not re.match(PRE + r'simple_dtw::EvaluateWarpingCost<.*>$', f.qual):
            continue
        c.saw(f)
        b = Body(f)
        for s in b.segs or ():
            if s.stop != ('ret',):
                continue
            cs = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and i.callee.endswith('::EvaluateWarpingCost')]
            if len(cs) != 1:
                c.unsure('dispatch', 'EvaluateWarpingCost', '')
                continue
            i = cs[0]
            got = [b.loc(s, o) for o in i.ops[1:]]
            c.ob('dispatch', got == [O(0), O(1), O(2)], 'EvaluateWarpingCost|arguments', f'{i.where()}: arguments are not passed on unchanged')
            c.ob('dispatch', b.C(s.ret()) == b.val(s, ('i', i.id)), 'EvaluateWarpingCost|result', f'{f.where()}: the cost is not what is returned')


def evaluate(c, b):
    f = b.f
    X, Y, D, M = O(1), O(2), O(3), O(0)
    k = 'EvaluateWarpingCost'
    refusals(c, b, [size(X) - P(1), size(Y) - P(1)], k)
    init = False
    for s in b.segs:
        if s.start == 0 and s.stop != ('throw',):
            cs = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and i.callee.endswith('::InitializeMatrix')]
            if not cs:
                c.unsure('warping', f'{k}|prepare', f'{f.where()}: the preparation of the matrix cannot be read')
            for i in cs:
                got = [b.val(s, o) for o in i.ops[1:3]]
                c.ob('warping', got == [size(X), size(Y)], f'{k}|prepare', f'{i.where()}: the matrix is prepared for {got[0]} by {got[1]} items')
    # writes to the matrix
    writers = {}
    cells = set()
    for s in b.segs:
        for i in s.v.on_path(('store',)):
            l = b.loc(s, i.ops[1])
            if l and l[0][0] == 'deref':
                a = atom1(unfz(l[0][1]))
                if a is not None and a[0] == 'cell':
                    writers.setdefault(id(s), (s, []))[1].append((a, b.val(s, i.ops[0]), i))
    if not writers:
        c.unsure('warping', f'{k}|cells', 'no cell of the matrix is written')
        return
    wi = wj = None
    for s, ws in writers.values():
        a, t, i = ws[0]
        r, q = unfz(a[2]), unfz(a[3])
        if len(ws) > 1:
            c.unsure('warping', f'{k}|cells', 'several cells are written per step')
            return
        hs = [w for w in b.walks.values() if s.start in w.body]
        hs.sort(key=lambda w: -len(w.body))
        wr = [w for w in hs if w.i in (r, r - P(1), r + P(1)) or (r - w.i).const() is not None]
        wc = [w for w in hs if (q - w.i).const() is not None]
        if len(wr) != 1 or len(wc) != 1 or wr == wc:
            c.unsure('warping', f'{k}|cells', f'{i.where()}: cell ({r}, {q})')
            return
        wi, wj = wr[0], wc[0]
        dr, dc = r - wi.i, q - wj.i
        c.ob('warping', (wi.lo + dr, wi.hi + dr) == (P(1), size(X) + P(1)), f'{k}|rows', f'{i.where()}: rows [{wi.lo + dr}, {wi.hi + dr}) are computed')
        c.ob('warping', (wj.lo + dc, wj.hi + dc) == (P(1), size(Y) + P(1)), f'{k}|columns', f'{i.where()}: columns [{wj.lo + dc}, {wj.hi + dc}) are computed')
        d = call(D, elem(X, r - P(1)), elem(Y, q - P(1)))
        near = [cell(M, r - P(1), q), cell(M, r - P(1), q - P(1)), cell(M, r, q - P(1))]
        rest = t - d
        hasd = t.t.get(((atom1(d)),), 0) == 1
        c.ob('warping', hasd, f'{k}|distance', f'{i.where()}: cell ({r}, {q}) receives {str(t)[:200]}', readable=any(x and x[0] == 'fn' for x in leaves(fz(t))))
        if not hasd:
            continue
        ls = b.lits(s)
        if rest not in near:
            c.ob('warping', False, f'{k}|neighbour', f'{i.where()}: cell ({r}, {q}) continues from {str(rest)[:120]}', readable=rest.const() is not None or
                 atom1(rest) is not None and atom1(rest)[0] in ('cell', 'fn'))
            continue
        for z in near:
            if z != rest:
                c.ob('warping', all(below(y, rest, z, near) for y in cases(ls, near)), f'{k}|smallest', f'{i.where()}: continues from {str(rest)[:60]} without it being at most {str(z)[:60]}',
                     readable=not unread(ls, near))
    # every step writes, no early end
    for w in (wi, wj):
        for s in b.early(w):
            c.ob('warping', False, f'{k}|cut short', f'{f.where()}: the matrix is left before its last cell')
    deep = max((wi, wj), key=lambda w: -len(w.body))
    for s in b.segs:
        if s.stop == ('loop', deep.h) and s.start in deep.body:
            c.ob('warping', id(s) in writers, f'{k}|every cell', f'{f.where()}: a cell can be left out')
    for s in b.segs:
        if s.stop == ('ret',):
            t = b.C(s.ret())
            want = cell(M, size(X), size(Y))
            c.ob('warping', t == want, f'{k}|result', f'{f.where()}: returns {str(t)[:120]}', readable=atom1(t) is not None and atom1(t)[0] == 'cell' or t.const() is not None)


def cases(ls, near):
    """the alternatives the literals leave, without those that contradict themselves"""
    out = [[l for l in ls if l[0] != 'any']]
    for l in ls:
        if l[0] == 'any':
            out = [o + [y] for o in out for y in l[1]][:64]
    return [o for o in out if not any(strict(o, x, y) and below(o, y, x, near) for x in near for y in near if x != y)]


def below(ls, x, z, near, depth=0):
    """x <= z follows from the comparisons"""
    if leq(ls, x, z):
        return True
    if depth < 2:
        return any(y not in (x, z) and leq(ls, x, y) and below(ls, y, z, near, depth + 1) for y in near)
    return False


def unread(ls, near):
    """a comparison of the neighbours that is not one between two of them"""
    for l in ls:
        if isinstance(l[0], str) and l[0][:1] == 'f':
            if not any(unfz(l[1]) == x - y for x in near for y in near if x != y):
                return True
        if l[0] == 'any' and any(x[0][:1] == 'f' and unread([x], near) for x in l[1]):
            return True
    return False


def borders(c, b):
    f = b.f
    M = O(0)
    k = 'InitializeMatrix'
    r, q = atom(('rows', M)), atom(('cols', M))
    rows, cols = A(1) + P(1), A(2) + P(1)
    made = {}
    for s in b.segs:
        if s.start != 0:
            continue
        z = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and re.search(r'Eigen::.*::(Zero|setZero|Constant|resize)$', i.callee)]
        asg = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and re.search(r'Eigen::Matrix<.*::operator=', i.callee) and b.loc(s, i.ops[0]) == M]
        if not asg and not any(b.loc(s, i.ops[0]) == M for i in z):
            if s.stop != ('ret',):
                c.unsure('warping', f'{k}|shape', f'{f.where()}')
                continue
            ls = b.lits(s)
            c.ob('warping', holds(ls, [r - rows]) and holds(ls, [q - cols]), f'{k}|kept', f'{f.where()}: a matrix that may be too small is kept')
            continue
        made[id(s)] = s
        if len(z) == 1 and z[0].callee.endswith('::Zero'):
            got = [b.val(s, o) for o in z[0].ops[1:3]]
            c.ob('warping', len(got) == 2 and holds(b.lits(s), [got[0] - rows, got[1] - cols]), f'{k}|size', f'{z[0].where()}: the matrix becomes {got}')
        else:
            c.unsure('warping', f'{k}|size', f'{f.where()}: how the matrix is made cannot be read')
    # borders written by loops
    done = {}
    for h, w in b.walks.items():
        for s in b.segs:
            if s.start not in w.body or s.stop != ('loop', h):
                continue
            for i in s.v.on_path(('store',)):
                l = b.loc(s, i.ops[1])
                a = atom1(unfz(l[0][1])) if l and l[0][0] == 'deref' else None
                if a is None or a[0] != 'cell':
                    continue
                x, y = unfz(a[2]), unfz(a[3])
                t = b.val(s, i.ops[0])
                c.ob('warping', infinite(t, 1), f'{k}|border value', f'{i.where()}: border cell ({x}, {y}) receives {t}', readable=t.const() is not None)
                for side, v, o, n in (('column', x, y, rows), ('row', y, x, cols)):
                    if o == P(0) and (v - w.i).const() is not None:
                        d = v - w.i
                        back = [u for u in b.segs if u.start in w.body and u.stop == ('loop', h)]
                        full = holds(b.lits(s), [P(1) - (w.lo + d)]) and w.lo + d == P(1) and w.hi + d == n and not b.early(w)
                        all_ = all(any((b.loc(u, j.ops[1]) or ((0,),))[0] == l[0] for j in u.v.on_path(('store',))) for u in back)
                        c.ob('warping', full and all_, f'{k}|{side} range', f'{i.where()}: only cells [{w.lo + d}, {w.hi + d}) of the border become infinite, not [1, {n})')
                        done.setdefault(side, set()).add(h)
    if set(done) != {'column', 'row'}:
        c.ob('warping', False, f'{k}|borders', f'{f.where()}: the {"first row" if "row" not in done else "first column"} never becomes infinite',
             readable=len(b.walks) == len(f.loops()))
        return
    # every way from making the matrix to a return passes both loops, unless a sequence is empty
    from loops import misses
    for s in made.values():
        for side, hs in done.items():
            for h in hs:
                hit = lambda u: u.start == h
                ends = misses(b.segs, [s], lambda u: u.stop == ('ret',), hit)
                if ends is not None:
                    ls = b.lits(s)
                    ok = holds_any(ls, [A(1), A(2)]) or s is not ends and holds_any(b.lits(ends), [A(1), A(2)])
                    c.ob('warping', ok, f'{k}|{side} skipped', f'{f.where()}: the first {side} can stay zero for non-empty sequences')


# ---------------------------------------------------------------- distance matrices
def matrices(c, m):
    for f in m.fns:
        if not re.match(PRE + r'BuildPairwiseDistanceMatrix<.*>$', f.qual) or 'lambda' in f.qual:
            continue
        c.saw(f)
        b = Body(f)
        two = len(f.params) == 5
        k = f'BuildPairwiseDistanceMatrix|{"two sets" if two else "one set"}'
        X = O(1)
        Y = O(2) if two else X
        D = O(3) if two else O(2)
        M = O(0)
        if not b.ok:
            c.unsure('matrix', k, 'too many paths')
            continue
        for s in b.segs:
            if s.stop == ('throw',):
                c.ob('refused', False, f'{k}|refuses', f'{f.where()}: a collection is refused', readable=False)
                continue
            if s.start != 0 or s.stop != ('ret',):
                c.unsure('matrix', k, f'{f.where()}: loops')
                continue
            mk = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and re.search(r'Eigen::Matrix<[^(]*::Matrix(<|$)', i.callee) and b.loc(s, i.ops[0]) == M]
            if len(mk) == 1 and len(mk[0].ops) == 3:
                g = []
                for o in mk[0].ops[1:]:
                    l = s.v.loc(o) if f.is_ptr(o) else None
                    g.append(b.C(s.v.mem(l, 8, mk[0])) if l else b.val(s, o))
                c.ob('matrix', g == [size(X), size(Y)], f'{k}|size', f'{mk[0].where()}: the matrix is made {g}', readable=all(isinstance(x, P) for x in g))
            else:
                c.unsure('matrix', f'{k}|size', f'{f.where()}')
            ps = pfor(s)
            if len(ps) != 1:
                c.unsure('matrix', f'{k}|loop', f'{f.where()}: {len(ps)} parallel loops')
                continue
            i = ps[0]
            lo, hi, cl = loop_args(b, s, i)
            c.ob('matrix', lo == P(0) and hi == size(X), f'{k}|rows', f'{i.where()}: rows [{lo}, {hi}) are filled', readable=isinstance(lo, P) and isinstance(hi, P))
            x = inner(m, b, s, i)
            if x is None:
                c.unsure('matrix', f'{k}|body', f'{i.where()}')
                continue
            c.saw(x.f)
            fill(c, x, k, M, X, Y, D, two)


def cells(x, s, M):
    out = []
    for i in s.v.on_path(('store',)):
        l = x.loc(s, i.ops[1])
        a = atom1(unfz(l[0][1])) if l and l[0][0] == 'deref' else None
        if a is not None and a[0] == 'cell' and a[1] == M:
            out.append((unfz(a[2]), unfz(a[3]), x.val(s, i.ops[0]), i))
    return out


def fill(c, x, k, M, X, Y, D, two):
    f = x.f
    i = OWN(2)
    if len(x.walks) != len(f.loops()) or len(x.walks) != 1:
        c.unsure('matrix', f'{k}|columns', f'{f.where()}: the loop over the columns cannot be read')
        return
    (h, w), = x.walks.items()
    j = w.i
    for s in x.early(w):
        c.ob('matrix', False, f'{k}|cut short', f'{f.where()}: a row can be left before its last column')
    diag = False
    for s in x.segs:
        if s.start == 0:
            diag |= any(a == i and b == i and t == P(0) for a, b, t, _ in cells(x, s, M))
    lo = [P(0)] if two else [i, P(0)] + ([i + P(1)] if diag else [])
    c.ob('matrix', w.lo in lo and w.hi == size(Y), f'{k}|columns', f'{f.where()}: columns [{w.lo}, {w.hi}) of row {i} are filled',
         readable=all(y[0] in ('O', 'size', 'own') for p in (w.lo, w.hi) for q in p.t for y in q))
    for s in x.segs:
        if s.stop != ('loop', h) or s.start not in w.body:
            continue
        cs = cells(x, s, M)
        ls = x.lits(s)
        same = any(l[0] == 'eq' and unfz(l[1]) in (i - j, j - i) for l in ls)
        norm = (lambda p: unfz(swap(fz(p), w.a, i))) if same else (lambda p: p)
        got = {}
        for a, b, t, q in cs:
            got[(fz(norm(a)), fz(norm(b)))] = (norm(t), q)
        want = [(fz(norm(i)), fz(norm(j)))] + ([] if two or w.lo == P(0) else [(fz(norm(j)), fz(norm(i)))])
        for y in want:
            if y not in got:
                # a cell skipped on the diagonal of a matrix whose diagonal is written apart
                c.ob('matrix', False, f'{k}|cell', f'{f.where()}: cell ({unfz(y[0])}, {unfz(y[1])}) can be left unset', readable=bool(cs) or True)
                continue
            t, q = got[y]
            d = call(D, elem(X, norm(i)), elem(Y, norm(j)))
            e = call(D, elem(X, norm(j)), elem(Y, norm(i)))
            ok = t == d or not two and t == e or not two and same and t == P(0)
            c.ob('matrix', ok, f'{k}|value', f'{q.where()}: cell ({unfz(y[0])}, {unfz(y[1])}) receives {str(t)[:160]}',
                 readable=t.const() is not None or any(z and z[0] in ('fn', 'cell') for z in leaves(fz(t))))
        vals = {fz(v[0]) for y, v in got.items() if y in want}
        c.ob('matrix', len(vals) <= 1, f'{k}|mirror', f'{f.where()}: the two cells of a pair receive different values')
        for y, (t, q) in got.items():
            if y not in want and not (not two and y == (fz(norm(j)), fz(norm(i)))):
                c.ob('matrix', False, f'{k}|other cell', f'{q.where()}: also writes cell ({unfz(y[0])}, {unfz(y[1])})')
