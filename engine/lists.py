"""What a sequence container holds, as a list of pieces, along a segment; linear entailment over segment terms."""
import re

import lin
from codec import P, atom
from flow import atom1, atoms_in, facts
from loops import callname, calls_in, erase
from val import fz, unfz

PUSH = re.compile(r'::(push_back|emplace_back)(<.*>)?$')
ITER = ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend')


def entails(lits, goals):
    """every polynomial in goals is >= 0 whenever the literals hold (unsigned comparisons taken as integer ones,
    quotients related to their dividends)"""
    fs = facts(lits) + [unfz(l[1]) for l in flat(lits) if l[0] == 'uge' and l[1][0] == 'P']
    fs = [erase(f) for f in fs]
    goals = [erase(g) for g in goals]
    for p in fs + goals:
        for a in atoms_in(fz(p)):
            if isinstance(a, tuple) and a and a[0] in ('div', 'udiv', 'sdiv') and len(a) == 3 and isinstance(a[1], tuple) and a[1][:1] == ('P',):
                k = a[2] if isinstance(a[2], int) else unfz(a[2]).const() if isinstance(a[2], tuple) and a[2][:1] == ('P',) else None
                if k and k > 0:
                    x, d = unfz(a[1]), atom(a)
                    q = [x - P(k) * d, P(k) * d - x + P(k - 1)]
                    fs += [f for f in q if f not in fs]
            if isinstance(a, tuple) and a and a[0] == 'call' and callname(a) == 'size' and atom(a) not in fs:
                fs.append(atom(a))
    cons = [conv(f) for f in fs]
    return all(lin.infeasible(cons + [conv(P(-1) - g)]) for g in goals)


def flat(lits):
    for l in lits:
        if l[0] == 'all':
            yield from flat(l[1])
        else:
            yield l


def conv(p):
    return lin.Lin(p.t.get((), 0), {k: v for k, v in p.t.items() if k})


def calls(s, rx=None):
    return [i for i in s.v.on_path(('call', 'invoke')) if i.callee and (rx is None or re.search(rx, i.callee))]


def method(callee):
    """plain name of the function called"""
    while True:
        r = re.sub(r'<[^<>]*>', '', callee)
        if r == callee:
            return r.split('::')[-1]
        callee = r


def loc(s, ref):
    l = s.v.loc(ref)
    return None if l is None else (erase(l[0]), l[1])


def pos(s, ref, size):
    """iterator operand -> (container place, index) with index a polynomial or ('end', k) for k items before the end"""
    l = s.v.loc(ref)
    if l is None or l[1] % size:
        return None
    r, k = l[0], l[1] // size
    if r[0] == 'alloca':        # iterator object kept in memory
        t = s.v.content(l, 8, s.v.fn.blocks[s.v.path[-1]][-1])
        a = atom1(unfz(t)) if isinstance(t, tuple) and t[:1] == ('P',) else None
        if a and a[0] == 'ptr':
            (r, o) = a[1]
            if o % size:
                return None
            k = o // size
    byte = P(0)
    while r[0] == 'idx':
        byte = byte + unfz(r[2])
        if not isinstance(r[1], tuple) or r[1][1] % size:
            return None
        k += r[1][1] // size
        r = r[1][0]
    n = P(k)
    for m, v in byte.t.items():
        if v % size:
            return None
        q = P(v // size)
        for a in m:
            q = q * atom(a)
        n = n + q
    if r[0] == 'elem':
        return (erase(r[1]), erase(n + unfz(r[2])))
    if r[0] == 'deref':
        for y in calls_in(fz(unfz(r[1])) if r[1][0] == 'P' else r[1]):
            if callname(y) in ('end', 'cend', 'begin', 'cbegin') and fz(atom(y)) == r[1]:
                for i in calls(s, rf'::{callname(y)}$'):
                    if erase(fz(s.v.val(('i', i.id)))) == erase(fz(atom(y))):
                        K = loc(s, i.ops[0])
                        if callname(y).endswith('begin'):
                            return (K, erase(n))
                        c = n.const()
                        return (K, ('end', -c) if c is not None else None)
    return None


def state(s, i, k):
    """operand k of call i as ('place', root, off) of an existing object, or the erased term"""
    l = s.v.loc(i.ops[k]) if k < len(i.ops) else None
    return l, erase(s.v.arg(i, k))


class Held:
    """contents of the containers a segment handles; containers in `at` start as what they hold at the loop header"""
    def __init__(self, s, size, result=None):
        self.s, self.size, self.c = s, size, {}
        for i in calls(s):
            n = method(i.callee)
            cls = re.match(r'std::vector<', i.callee)
            K = loc(s, i.ops[0]) if i.ops and s.v.fn.is_ptr(i.ops[0]) else None
            if result and re.search(result, i.callee):
                if i.sret and K is not None:
                    self.c[K] = [('result', i.id, P(0), ('end', 0))]
                continue
            if not cls and re.match(r'std::(reverse|rotate|copy|move|fill|transform|sort|stable_sort|unique|remove|iter_swap|swap|swap_ranges|shuffle)<', i.callee):
                for x in i.ops:
                    p = pos(s, x, size) if s.v.fn.is_ptr(x) else None
                    if p:
                        self.c[p[0]] = None
                    elif s.v.fn.is_ptr(x) and loc(s, x) in self.c:
                        self.c[loc(s, x)] = None
            if K is None or not cls:
                continue
            span = n in ('insert', 'vector', 'assign') and i.callee.endswith('>')
            if n == 'vector' and len(i.ops) == 1 or n == 'clear':
                self.c[K] = []
            elif n in ('vector', 'operator=', 'assign') and len(i.ops) == 2 and not span:
                self.c[K] = self.get(loc(s, i.ops[1]))
            elif n == 'swap' and len(i.ops) == 2:
                o = loc(s, i.ops[1])
                self.c[K], self.c[o] = self.get(o), self.get(K)
            elif n in ('push_back', 'emplace_back'):
                self.c[K] = self.add(self.get(K), [('one', i)])
            elif span:
                b = 1 if i.sret else 0
                at = None
                if n == 'insert':
                    K = loc(s, i.ops[b])
                    at = pos(s, i.ops[b + 1], size)
                    f, l = pos(s, i.ops[b + 2], size) if len(i.ops) > b + 2 else None, pos(s, i.ops[b + 3], size) if len(i.ops) > b + 3 else None
                else:
                    f, l = pos(s, i.ops[b + 1], size), pos(s, i.ops[b + 2], size) if len(i.ops) > b + 2 else None
                new = self.span(f, l)
                old = self.get(K) if at else []
                if n != 'insert':
                    self.c[K] = new
                elif at == (K, ('end', 0)):
                    self.c[K] = self.add(old, new)
                elif at == (K, P(0)):
                    self.c[K] = self.add(new, old)
                else:
                    self.c[K] = None
            elif n in ('reserve', 'size', 'empty', '~vector', 'begin', 'end', 'cbegin', 'cend', 'operator[]', 'at', 'front', 'back', 'data', 'capacity'):
                pass
            else:
                self.c[K] = None

    def get(self, K):
        return self.c[K] if K in self.c else [('held', K, P(0), ('end', 0))]

    @staticmethod
    def add(x, y):
        return None if x is None or y is None else x + y

    def span(self, f, l):
        if f is None or l is None or f[1] is None or l[1] is None or f[0] != l[0]:
            return None
        g = self.get(f[0])
        if g is None:
            return None
        if len(g) == 1 and g[0][0] in ('held', 'result') and g[0][2] == P(0) and g[0][3] == ('end', 0):
            return [(g[0][0], g[0][1], f[1], l[1])]
        if f[1] == P(0) and l[1] == ('end', 0):
            return g
        return None
