"""Loops over containers: which container a loop runs over, what its current item is,
whether it visits every item from the first to the last."""
import re

from codec import P, atom
from flow import arriving, atom1, atoms_in, counter, state_atoms, home, encl
from paths import negate
from val import fz, unfz, num

STEP = re.compile(r'::operator(\+\+|\+=|\+)$|^std::(next|advance)$')


def erase(t):
    """term without memory versions: equal results name the same place or quantity up to writes"""
    if isinstance(t, P):
        return unfz(erase(fz(t)))
    if isinstance(t, tuple):
        if t and t[0] == 'mphi' and len(t) == 3:
            return ('m', erase(t[2]))
        if len(t) == 4 and t[0] == 'out' and isinstance(t[3], tuple) and len(t[3]) == 2 and isinstance(t[3][0], tuple) and t[3][0][:1] == ('elem',):
            return ('m', erase(t[3]))
        if t and t[0] == 'P':
            return ('P', tuple(sorted(((tuple(sorted((erase(a) for a in k), key=str)), v) for k, v in t[1]), key=str)))
        return tuple(erase(x) for x in t)
    return t


def callname(t):
    """last part of the function a call term calls"""
    return t[1].split('::')[-1] if isinstance(t, tuple) and t and t[0] in ('call', 'callv') else ''


def calls_in(t):
    return [x for x in atoms_in(t) if isinstance(x, tuple) and x and x[0] in ('call', 'callv') and len(x) > 1 and isinstance(x[1], str)]


_CONT = {}


def container_of(segs, term):
    """place of the container a size()/begin()/end() call term was made on (None when not found)"""
    if not segs:
        return None
    tab = _CONT.get(id(segs))
    if tab is None or tab[0] is not segs:
        t = {}
        for s in segs:
            for i in s.v.on_path(('call', 'invoke')):
                if i.callee and re.search(r'::(c?begin|c?end|size|length)$', i.callee) and i.ops:
                    l = s.v.loc(i.ops[1 if i.sret else 0])
                    if l is not None:
                        t.setdefault(erase(fz(s.v.val(('i', i.id)))), l)
                        if s.v.base is not None:
                            t.setdefault(erase(fz(s.v.base.val(('i', i.id)))), l)
        tab = _CONT[id(segs)] = (segs, t)
    for x in (term, fz(atom(term))):
        if erase(x) in tab[1]:
            return tab[1][erase(x)]
    return None


class Iter:
    """loop with header h over container K; kind iter (contiguous iterator), node (other
    iterator) or index; cur: place of the current item (root, offset); atom: the loop variable"""
    def __init__(self, h, kind, K, cur, a, body):
        self.h, self.kind, self.K, self.cur, self.atom, self.body = h, kind, K, cur, a, body

    def place(self, off=0):
        """place at the given offset within the current item"""
        if self.kind == 'index':
            return (('elem', self.K, self.cur), off)
        return (self.cur[0], self.cur[1] + off)

    def mem(self, off=0):
        """content of the current item at the given offset (memory versions erased)"""
        return atom(erase(('m', self.place(off))))

    def at(self, l):
        """offset of place l within the current item, or None"""
        if l is None:
            return None
        if self.kind == 'index':
            if l[0][0] == 'elem' and erase(l[0][1]) == erase(self.K) and l[0][2] == self.cur:
                return l[1]
            return None
        return l[1] - self.cur[1] if l[0] == self.cur[0] else None

    def __repr__(self):
        return f'Iter({self.h}, {self.kind}, {self.K}, {self.atom})'


class Loops:
    def __init__(self, fn, segs):
        self.fn, self.segs = fn, segs
        self.iters = {}
        self.off = {}       # loops that count over a container but leave out items at either end
        for h, body in fn.loops().items():
            it = self.find(h, body)
            if it:
                self.iters[h] = it
            else:
                it = self.partial(h, body)
                if it:
                    self.off[h] = it

    def inner(self, h):
        """segments that run inside loop h"""
        body = self.fn.loops()[h]
        return [s for s in self.segs if s.start in body]

    def find(self, h, body):
        segs = self.segs
        arr = [s for s in segs if s.stop == ('loop', h)]
        enter = [s for s in arr if s.start not in body]
        back = [s for s in arr if s.start in body]
        # candidates: phis of the header, and memory carried through it
        cand = [('phi', i.id) for i in self.fn.blocks[h] if i.op == 'phi']
        for s in self.inner(h):
            for l in s.lits:
                cand += [a for a in state_atoms(l) if a[0] == 'mphi' and a[1] == h]
        for a in dict.fromkeys(cand):
            try:
                init = [arriving(self.fn, s, a) for s in enter]
                step = [arriving(self.fn, s, a) for s in back]
            except Exception:
                continue
            if not init or not step or any(x is None for x in init + step):
                continue
            if a[0] == 'phi':
                i = self.fn.inst[a[1]]
                if i.ty == 'ptr':
                    init = [s.next(i) for s in enter]
                    step = [s.next(i) if self.fn.inst[a[1]].block == s.stop[1] else atom(a) for s in back]
            K = self.first(init)
            if K is not None:
                cur = (('deref', fz(atom(a))), 0)
                sz = {x[1][1] for x in step if isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == cur[0]}
                if len(sz) == 1 and len([1 for x in step if isinstance(x, tuple) and x[0] == 'ptr' and x[1][0] == cur[0]]) == len(step) and min(sz) > 0:
                    if self.bounded(h, a, K):
                        it = Iter(h, 'iter', K, cur, a, body)
                        it.sz = sz.pop()
                        return it
                if a[0] == 'mphi' and all(self.incremented(x, a) for x in step) and self.bounded(h, a, K):
                    return Iter(h, 'node', K, (('at', fz(atom(a))), 0), a, body)
            elif all(isinstance(x, P) and x == P(0) for x in init) and all(isinstance(x, P) and x - atom(a) == P(1) for x in step):
                K = self.bounded(h, a, None)
                if K:
                    return Iter(h, 'index', K, fz(atom(a)), a, body)
        return None

    def partial(self, h, body):
        arr = [s for s in self.segs if s.stop == ('loop', h)]
        for i in self.fn.blocks[h]:
            if i.op != 'phi':
                continue
            a = ('phi', i.id)
            try:
                init = [arriving(self.fn, s, a) for s in arr if s.start not in body]
                step = [arriving(self.fn, s, a) for s in arr if s.start in body]
            except Exception:
                continue
            if not init or not step or not all(isinstance(x, P) for x in init + step):
                continue
            k = {x.const() for x in init}
            if len(k) != 1 or None in k or min(k) < 0 or not all(x - atom(a) == P(1) for x in step):
                continue
            for s in self.inner(h):
                for l in s.lits:
                    g = self.end_of(l, a, True)
                    if g and s.start == h and (min(k) > 0 or g[1] is None):
                        return Iter(h, 'index', g[0], fz(atom(a)), a, body)
        return None

    def first(self, init):
        K = None
        for x in init:
            l = None
            if isinstance(x, tuple) and x[0] == 'ptr' and x[1] and x[1][0][0] == 'elem' and x[1][1] == 0 and x[1][0][2] == fz(P(0)):
                l = x[1][0][1]
            elif isinstance(x, P):
                t = atom1(x)
                if t is not None and callname(t) in ('begin', 'cbegin'):
                    l = container_of(self.segs, t)
                elif t is not None and t[0] == 'ptr' and t[1] and t[1][0][0] == 'elem' and t[1][0][2] == fz(P(0)):
                    l = t[1][0][1]
            if l is None or K is not None and erase(K) != erase(l):
                return None
            K = l
        return K

    def incremented(self, x, a):
        """x is iterator a moved on by one"""
        t = atom1(x) if isinstance(x, P) else x
        if t is None or t[0] not in ('out', 'call', 'callv'):
            return False
        c = t[1] if t[0] == 'out' else t
        if callname(c) != 'operator++':
            return False
        return a in atoms_in(c) or c[0] == 'callv' and self.on_iter(c, a)

    def on_iter(self, c, a):
        i = self.fn.inst.get(c[2]) if len(c) > 2 and isinstance(c[2], int) else None
        if i is None:
            return False
        for s in self.segs:
            if i.block in s.v.path:
                l = s.v.loc(i.ops[1 if i.sret else 0])
                return l == a[2]
        return False

    def bounded(self, h, a, K):
        """the container whose end (or size) the loop variable is compared with"""
        for s in self.inner(h):
            for l in s.lits:
                g = self.end_of(l, a)
                if g and (K is None or erase(g[0]) == erase(K)):
                    return K or g[0]
        return None

    def end_of(self, l, a, near=False):
        """(container, True when the literal says the loop is over) of a literal about loop variable a"""
        if a not in atoms_in(l):
            return None
        if l[0] == 'bool' and len(l) > 2:
            t = atom1(unfz(l[1])) if l[1] and l[1][0] == 'P' else l[1]
            if callname(t) in ('operator!=', 'operator==') and self.alone(t, a):
                e = [x for x in calls_in(t) if callname(x) in ('end', 'cend')]
                if len(e) == 1:
                    K = container_of(self.segs, e[0])
                    return (K, l[2] == (callname(t) == 'operator==')) if K else None
            return None
        if l[0] in ('eq', 'ne', 'ge', 'uge') and l[1] and l[1][0] == 'P':
            p = unfz(l[1])
            v = p.t.get((a,), 0)
            if abs(v) != 1:
                return None
            rest = p - atom(a) * num(v)
            c = rest.t.get((), 0)
            ks = [(k, x) for k, x in rest.t.items() if k]
            if len(ks) != 1 or len(ks[0][0]) != 1 or ks[0][1] != -v:
                return None
            t = ks[0][0][0]
            if t[0] == 'trunc':
                t = atom1(unfz(t[2])) or t
            n = callname(t)
            if n in ('end', 'cend') and l[0] in ('eq', 'ne') and c == 0 or n in ('size', 'Size', 'length'):
                K = container_of(self.segs, t) if n not in ('Size',) else ('Size', t)
                if K is None:
                    return None
                if near and l[0] in ('ge', 'uge') and not (v == 1 and c == 0 or v == -1 and c == -1):
                    # skips items when the loop stops before the size
                    return (K, None) if v == 1 and c > 0 or v == -1 and c < -1 else None
                if l[0] in ('eq', 'ne'):
                    if near and c != 0:
                        return (K, None) if c * v > 0 else None
                    return (K, l[0] == 'eq') if c == 0 else None
                # a - size >= 0: over;  size - a - 1 >= 0: going on
                if v == 1 and c == 0:
                    return (K, True)
                if v == -1 and c == -1:
                    return (K, False)
        return None

    def alone(self, t, a):
        return True

    def over(self, s, it):
        """segment s has established that loop it has visited its last item"""
        return any(g and g[1] and erase(g[0]) == erase(it.K) for g in (self.end_of(l, it.atom) for l in s.lits))

    def early(self, it):
        """segments that leave the loop (other than by throwing) before its end"""
        out = []
        for s in self.inner(it.h):
            if s.stop == ('throw',):
                continue
            if s.stop[0] == 'loop' and s.stop[1] in it.body:
                continue
            if s.start == it.h and self.over(s, it):
                continue
            out.append(s)
        return out


def misses(ss, first, end, hit):
    """a segment satisfying end that can be reached from the segments first without one satisfying hit (None when there is none)"""
    seen, todo = set(), [s for s in first]
    while todo:
        s = todo.pop()
        if id(s) in seen or hit(s):
            continue
        seen.add(id(s))
        if end(s):
            return s
        if s.stop[0] == 'loop':
            todo += [q for q in ss if q.start == s.stop[1]]
    return None


def flags(fn, ss, it, hit):
    """variables of loop it that are true exactly when an item satisfying one of the literals hit was visited"""
    out = []
    body = fn.loops()[it.h]
    for i in fn.blocks[it.h]:
        if i.op != 'phi' or i.ty == 'ptr':
            continue
        a = ('phi', i.id)
        ok = True
        for s in ss:
            if s.stop != ('loop', it.h):
                continue
            t = arriving(fn, s, a)
            if not isinstance(t, P):
                ok = False
            elif s.start not in body:
                ok &= t == P(0)
            else:
                lits = [erase(x) for x in s.lits]
                if any(h in lits for h in hit):
                    ok &= t.const() not in (None, 0)
                elif any(negate(h) in lits for h in hit):
                    ok &= t == atom(a)
                else:
                    ok = False
            if not ok:
                break
        if ok:
            out.append(a)
    return out


def truth(lits, a):
    """what the literals say about the boolean a"""
    t = fz(atom(a))
    for x in lits:
        if x[0] == 'bool' and x[1] in (t, a):
            return x[2]
        if x[0] in ('eq', 'ne') and x[1] in (t, fz(P(0) - atom(a))):
            return x[0] == 'ne'
        if x[0] == 'bool' and x[1][0] == 'P':
            b = unfz(x[1])
            if b in (atom(('trunc', 'i1', t)), atom(('trunc', 'i1', a))):
                return x[2]
    return None
