"""Loops that reduce over ranges: what each loop walks over, which extremum a variable carries,
with terms rewritten to the vocabulary size(K), fn(place; item, item), cell(M, i, j)."""
import re

from codec import P, atom
from closures import View, body_of
from flow import atom1, arriving
from lists import method, entails, flat
from loops import Loops, calls_in, erase
from paths import segments
from val import fz, unfz, num

FCMP = ('fogt', 'foge', 'fugt', 'fuge')
BIG = 1.7e308


def p1(t):
    """polynomial of an atom"""
    return atom(t)


def elem(K, i):
    return (('elem', K, fz(i)), 0)


def at(K, i, off=0):
    """content of word off of element i of container K"""
    return atom(('m', (('elem', K, fz(i)), off)))


def cell(M, i, j):
    return atom(('cell', M, fz(i), fz(j)))


def size(K):
    return atom(('size', K))


def call(fn, *args):
    return atom(('fn', fn) + args)


def remap(x, tab, post=None):
    """rebuild a frozen term bottom up; tab: atom -> replacement atom"""
    if not isinstance(x, tuple):
        return x
    try:
        if x in tab:
            return tab[x]
    except TypeError:
        pass
    if x and x[0] == 'P' and len(x) == 2:
        r = P(0)
        for k, v in x[1]:
            y = num(v)
            for a in k:
                z = remap(a, tab, post)
                y = y * (unfz(z) if isinstance(z, tuple) and z and z[0] == 'P' else atom(z))
            r = r + y
        return fz(r)
    r = tuple(remap(y, tab, post) for y in x)
    return post(r) if post else r


def of_cell(x):
    """what is stored in a matrix cell is named by the cell"""
    if len(x) == 2 and x[0] == 'm' and isinstance(x[1], tuple) and len(x[1]) == 2 and x[1][1] == 0:
        r = x[1][0]
        if isinstance(r, tuple) and r and r[0] == 'deref' and isinstance(r[1], tuple) and r[1][:1] == ('P',):
            a = atom1(unfz(r[1]))
            if a is not None and a[0] == 'cell':
                return a
    return x


class Walk:
    """loop h in which atom a takes every value from lo up to but not including hi; kind 'index' or 'iter'"""
    def __init__(self, h, a, lo, hi, body, K=None):
        self.h, self.a, self.lo, self.hi, self.body, self.K = h, a, lo, hi, body, K

    @property
    def i(self):
        return atom(self.a)

    def covers(self, lo, hi):
        return self.lo == lo and self.hi == hi

    def __repr__(self):
        return f'{self.a} in [{self.lo}, {self.hi})'


class Fold:
    def __init__(self, h, cell, way, X, init, bad, odd):
        self.h, self.cell, self.way, self.X, self.init, self.bad, self.odd = h, cell, way, X, init, bad, odd

    def __repr__(self):
        return f'Fold({self.h}, {self.cell}, {self.way}, {self.X}, init {self.init}, bad {self.bad}, odd {self.odd})'


class Body:
    def __init__(self, f, creator=None, closure=None, extra=None):
        """creator: Body of the function that created the closure kept at place closure"""
        self.f = f
        self.creator = creator
        self.view = View(f, creator.view, closure) if creator else View(f)
        self.segs = segments(f, throws=True)
        self.ok = self.segs is not None
        self.extra = extra
        self._memo = {}
        self.tab, self.iters, self.walks = {}, {}, {}
        if not self.ok:
            return
        self.names()
        self.L = Loops(f, [s for s in self.segs])
        for h, it in self.L.iters.items():
            if it.kind in ('iter', 'node'):
                self.iters[it.cur[0]] = (self.place(it.K), ('it', h))
        for h in f.loops():
            w = self.walk(h)
            if w:
                self.walks[h] = w
        self.segs = [s for s in self.segs if not absurd(self.lits(s))]

    # ------------------------------------------------ vocabulary
    def names(self):
        todo = []
        for s in self.segs:
            for i in s.v.on_path(('call', 'invoke')):
                if not i.callee or not i.ops:
                    continue
                todo.append((s, i))
        for s, i in todo:
            n = method(i.callee)
            k = 1 if i.sret else 0
            if k >= len(i.ops) or not self.f.is_ptr(i.ops[k]):
                continue
            r = None
            P_ = lambda o: self.place(s.v.loc(o))
            if n in ('size', 'length', 'rows', 'cols', 'empty') and len(i.ops) == k + 1:
                l = P_(i.ops[k])
                r = l and ({'length': 'size'}.get(n, n), l)
            elif re.search(r'^Eigen::.*::(operator\(\)|coeff|coeffRef)$', i.callee) and len(i.ops) == 3:
                l = P_(i.ops[0])
                if l:
                    r = ('cell', l, fz(self.C(s.v.n(i.ops[1]))), fz(self.C(s.v.n(i.ops[2]))))
            elif re.search(r'^std::function<.*>::operator\(\)$', i.callee):
                ps = [P_(o) if self.f.is_ptr(o) else fz(self.C(s.v.n(o))) for o in i.ops[k:]]
                if all(p is not None for p in ps):
                    r = ('fn',) + tuple(ps) if not i.sret else None
            elif self.extra:
                r = self.extra(self, s, i)
            if r is None:
                continue
            for v in (s.v, s.v.base):
                if v is None:
                    continue
                t = v.val(('i', i.id))
                a = atom1(t) if isinstance(t, P) else t
                if a is not None:
                    self.tab[erase(a)] = r
                    self._memo.clear()

    def C(self, t):
        """term in the vocabulary, places named from the creating function"""
        if t is None:
            return None
        k = fz(t) if isinstance(t, P) else t
        r = self._memo.get(k)
        if r is None:
            r = self._memo[k] = self._canon(k)
        return unfz(r) if isinstance(t, P) else r

    def _canon(self, k):
        x = erase(k)
        x = remap(x, self.tab, of_cell)
        x = self.view.T(x)
        x = remap(x, {}, of_cell)
        if self.iters:
            x = remap(x, {}, self._iter)
        return x

    def _iter(self, x):
        if len(x) == 2 and isinstance(x[1], int) and isinstance(x[0], tuple) and x[0][:1] in (('deref',), ('at',)):
            for r, (K, a) in self.iters.items():
                if self.view.T(erase((r, 0)))[0] == x[0] or r == x[0]:
                    return (('elem', K, fz(atom(a))), x[1])
        return x

    def place(self, l):
        if l is None:
            return None
        r = self.C((l[0], l[1]))
        return r

    def loc(self, s, ref):
        return self.place(s.v.loc(ref))

    def val(self, s, ref):
        return self.C(s.v.n(ref))

    def lits(self, s):
        if not hasattr(s, '_clits'):
            s._clits = [self.C(l) for l in s.lits]
        return s._clits

    # ------------------------------------------------ loops
    def walk(self, h):
        body = self.f.loops()[h]
        it = self.L.iters.get(h)
        if it is not None and it.kind in ('iter', 'node'):
            K = self.place(it.K)
            return Walk(h, ('it', h), P(0), size(K), body, K)
        arr = [s for s in self.segs if s.stop == ('loop', h)]
        for i in self.f.blocks[h]:
            if i.op != 'phi' or i.ty == 'ptr':
                continue
            a = ('phi', i.id)
            try:
                init = [self.C(arriving(self.f, s, a)) for s in arr if s.start not in body]
                step = [arriving(self.f, s, a) for s in arr if s.start in body]
            except Exception:
                continue
            if not init or not step or any(x != init[0] for x in init) or not all(isinstance(x, P) and x - atom(a) == P(1) for x in step):
                continue
            hi = None
            for s in self.segs:
                if s.start != h:
                    continue
                for l in s.lits:
                    b = self.bound(l, a, body)
                    if b is not None and (hi is None or hi == b):
                        hi = b
            if hi is not None:
                return Walk(h, a, init[0], hi, body)
        return None

    def bound(self, l, a, body):
        """hi of a literal that compares loop variable a with its end"""
        if l[0] not in ('ge', 'uge', 'eq', 'ne') or l[1][:1] != ('P',):
            return None
        p = unfz(l[1])
        v = p.t.get((a,), 0)
        if abs(v) != 1:
            t = [k for k in p.t if len(k) == 1 and k[0][0] == 'trunc' and k[0][2] == fz(atom(a))]
            if len(t) != 1 or abs(p.t[t[0]]) != 1:
                return None
            v = p.t[t[0]]
            rest = p - atom(t[0][0]) * num(v)
        else:
            rest = p - atom(a) * num(v)
        for k in rest.t:
            for x in k:
                if x[0] == 'phi' and self.f.inst[x[1]].block in body and self.f.inst[x[1]].block in self.f.loops():
                    return None
        # v a + rest
        if l[0] in ('eq', 'ne'):
            return self.C(rest * num(-v))
        return self.C(P(0) - rest) if v == 1 else self.C(rest + P(1))

    def over(self, s, w):
        """segment s has left loop w after its last item"""
        if w.K is not None:
            it = self.L.iters[w.h]
            return self.L.over(s, it)
        for l in s.lits:
            b = self.bound(l, w.a, w.body)
            if b is not None and b == w.hi:
                p = unfz(l[1])
                v = next(x for k, x in p.t.items() if len(k) == 1 and (k[0] == w.a or k[0][0] == 'trunc' and k[0][2] == fz(atom(w.a))))
                if l[0] == 'eq' or l[0] in ('ge', 'uge') and v == 1:
                    return True
        return False

    def early(self, w):
        """segments that leave loop w (other than by throwing) before its end"""
        out = []
        for s in self.segs:
            if s.start not in w.body or s.stop == ('throw',):
                continue
            if s.stop[0] == 'loop' and s.stop[1] in w.body:
                continue
            if s.start == w.h and self.over(s, w):
                continue
            out.append(s)
        return out

    # ------------------------------------------------ extrema
    def folds(self, skip=None, may=None):
        """variables of walk loops that carry a smallest or largest candidate; skip(lits): a segment may pass without a candidate"""
        out = []
        for h, w in self.walks.items():
            for i in self.f.blocks[h]:
                if i.op == 'phi' and i.ty in ('double', 'float'):
                    f = self.fold(h, w, i, skip)
                    if f:
                        out.append(f)
        return out

    def fold(self, h, w, phi, skip=None):
        a = ('phi', phi.id)
        c = atom(a)
        arr = [s for s in self.segs if s.stop == ('loop', h)]
        init, takes, keeps = [], [], []
        for s in arr:
            t = arriving(self.f, s, a)
            t = self.C(t if isinstance(t, P) else atom(t))
            if s.start not in w.body:
                init.append(t)
            elif t == c:
                keeps.append(s)
            else:
                takes.append((s, t))
        if not takes:
            return None
        xs = {fz(t) for s, t in takes}
        bad, odd = [], []
        if len(xs) > 1:
            odd.append(f'{len(xs)} different candidates')
        X = max(takes, key=lambda y: sum(1 for z in leaves(fz(y[1])) if len(z) == 2 and z[0] == 'phi'))[1]
        ways = set()
        for s, t in takes:
            r = order(self.lits(s), t, c)
            ways.add('min' if r == 'lt' else 'max' if r == 'ge' else None)
        if ways == {None}:
            if any(mentions(self.lits(s), c) for s, t in takes):
                odd.append('the comparison cannot be read')
            else:
                bad.append('a candidate is taken without being compared')
            return Fold(h, a, None, X, init, bad, odd)
        if len(ways) > 1:
            bad.append('candidates are taken under conflicting comparisons')
            return Fold(h, a, None, X, init, bad, odd)
        way = ways.pop()
        for s, t in takes:
            for wi in self.walks.values():
                if wi.body < w.body and s.start in wi.body and not (s.start == wi.h and self.over(s, wi)):
                    bad.append('an item counts before the loop that computes its value has ended')
        for s in keeps:
            ls = self.lits(s)
            r = order(ls, X, c)
            if r == ('ge' if way == 'min' else 'lt'):
                continue
            if skip and skip(self, s, ls):
                continue
            if r is not None:
                bad.append('a better candidate is passed over')
            elif mentions(ls, c) or any(order(ls, unfz(x), c) for x in xs):
                odd.append('the comparison cannot be read')
            else:
                bad.append('an item is passed over without being compared')
        return Fold(h, a, way, X, init, bad, odd)


def order(lits, X, Y):
    """'lt' when the literals say X <= Y, 'ge' when they say X >= Y"""
    for l in flat(lits):
        if l[0] in FCMP and l[1][:1] == ('P',):
            p = unfz(l[1])
            if p == Y - X:
                return 'lt'
            if p == X - Y:
                return 'ge'
    return None


def leq(lits, X, Y):
    """some literal says X <= Y"""
    return any(l[0] in FCMP and l[1][:1] == ('P',) and unfz(l[1]) == Y - X for l in flat(lits))


def absurd(lits):
    """two comparisons of the same values contradict each other"""
    seen = {}
    for l in lits:
        if isinstance(l[0], str) and l[0] in FCMP and l[1][:1] == ('P',):
            seen.setdefault(l[1], set()).add(l[0])
    for t, a in seen.items():
        b = seen.get(fz(P(0) - unfz(t)))
        if b and (('fogt' in a) or ('fugt' in a and b & {'fogt', 'foge'})):
            return True
    return False


def strict(lits, X, Y):
    """the literals say X < Y"""
    return any(l[0] in ('fogt', 'fugt') and l[1][:1] == ('P',) and unfz(l[1]) == Y - X for l in flat(lits))


def mentions(lits, c):
    a = atom1(c)
    return any(l[0][:1] == 'f' and a in set(leaves(l)) for l in lits if isinstance(l[0], str))


def leaves(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from leaves(x)


def infinite(t, sign):
    """t is an infinity of that sign (or the largest finite number)"""
    a = atom1(t)
    if a is not None and a[0] == 'cf':
        return a[1] == ('inf' if sign > 0 else '-inf')
    if isinstance(t, P):
        c = t.const()
        return c is not None and c * sign > BIG
    return False


def ints(lits):
    """literals with emptiness spelled as a size"""
    out = []
    for l in flat(lits):
        if l[0] == 'bool':
            t = l[1]
            a = atom1(unfz(t)) if isinstance(t, tuple) and t[:1] == ('P',) else t
            if isinstance(a, tuple) and a and a[0] == 'trunc':
                a = atom1(unfz(a[2])) or a
            if isinstance(a, tuple) and a and a[0] == 'empty':
                out.append(('eq', fz(size(a[1]))) if l[2] else ('ge', fz(size(a[1]) - P(1))))
                continue
        out.append(l)
    return out


def holds(lits, goals):
    """every polynomial in goals is >= 0 under the literals; sizes are not negative"""
    ls = ints(lits)
    seen = set()
    for t in list(ls) + [fz(g) for g in goals]:
        for x in leaves(t):
            if len(x) == 2 and x[0] in ('size', 'rows', 'cols') and x not in seen:
                seen.add(x)
                ls.append(('ge', fz(atom(x))))
    # an unequal size zero is at least one
    for l in list(ls):
        if l[0] == 'ne':
            p = unfz(l[1])
            for q in (p, P(0) - p):
                a = atom1(q)
                if a is not None and a[0] == 'size':
                    ls.append(('ge', fz(q - P(1))))
                elif entails([x for x in ls if x is not l and x[0] in ('ge', 'uge')], [q]):
                    ls.append(('ge', fz(q - P(1))))
    return all(entails(ls, [g]) for g in goals)
