"""Lambda bodies seen from the function that creates them: captured places and values
are replaced by what the creator stored into the closure, arguments of the creator
become ('O', k)."""
import re

from codec import P, atom
from flow import atom1
from loops import erase
from val import V, fz, unfz, subst

LOOP = re.compile(r'parallelism::(\w*Parallel\w*IndexLoop)<(.*)>$')


def body_of(m, callee):
    """function whose closure type is the template argument of a parallel loop"""
    x = LOOP.search(callee).group(2)
    return next((f for f in m.fns if f.qual.endswith('::operator()') and x.endswith(f.qual[:-12])), None)


class View:
    """terms of f with versions erased and everything of the creator named ('O', k)"""
    def __init__(self, f, creator=None, closure=None):
        """closure: alloca place of the closure in the creator (whose View is creator)"""
        self.f, self.creator = f, creator
        self.refs, self.vals, self.slots = {}, {}, {}
        if creator is None:
            v = V(f)
            st = {}
            for i in f.insts():
                if i.op == 'store':
                    l = v.loc(i.ops[1])
                    if l and l[0][0] == 'alloca':
                        st.setdefault(l, []).append(v.val(i.ops[0]))
            self.slots = {erase(l): erase(fz(x[0]) if isinstance(x[0], P) else x[0]) for l, x in st.items() if len(x) == 1}
            return
        for l, x in creator.slots.items():
            if l[0] == closure[0] and l[1] >= closure[1]:
                off = l[1] - closure[1]
                if x[0] == 'ptr':
                    self.refs[off] = creator.T(x[1])
                elif x[0] == 'P':
                    a = atom1(unfz(x))
                    if a and a[0] == 'ptr':
                        self.refs[off] = creator.T(a[1])
                    else:
                        self.vals[off] = creator.T(x)

    def T(self, t):
        if t is None:
            return None
        if isinstance(t, P):
            return unfz(self.T(fz(t)))
        return self._w(erase(t))

    def _cap(self, x):
        """captured place a root denotes"""
        if self.creator is not None and x[0] == 'deref':
            a = atom1(unfz(x[1])) if isinstance(x[1], tuple) and x[1] and x[1][0] == 'P' else None
            if a and a[0] == 'm' and a[1][0] == ('arg', 0):
                return self.refs.get(a[1][1])
        return None

    def _w(self, x):
        if not isinstance(x, tuple) or not x:
            return x
        if x[0] == 'P' and len(x) == 2:
            r = P(0)
            for k, v in x[1]:
                y = P(v)
                for a in k:
                    z = self._atom(a)
                    y = y * z
                r = r + y
            return fz(r)
        if x[0] in ('m', 'trunc', 'call', 'obj') or isinstance(x[0], str):
            if x[0] == 'arg' and len(x) == 2:
                return ('O', x[1]) if self.creator is None else ('own', x[1])
            if x[0] == 'alloca' and self.creator is not None:
                return ('local', x[1])
            if x[0] == 'm' and len(x) == 2:
                z = self._atom(x)
                a = atom1(z)
                return a if a is not None else ('val', fz(z))
            c = self._cap(x)
            if c is not None:
                return c[0] if c[1] == 0 else ('deref', fz(atom(('ptr', c))))
            return tuple(self._w(y) for y in x)
        if len(x) == 2 and isinstance(x[1], int) and isinstance(x[0], tuple):
            c = self._cap(x[0])
            if c is not None:
                return (c[0], c[1] + x[1])
            r = self._w(x[0])
            if isinstance(r, tuple) and r and r[0] == 'deref':      # deref of a known pointer
                a = atom1(unfz(r[1])) if r[1] and r[1][0] == 'P' else None
                if a and a[0] == 'ptr':
                    return (a[1][0], a[1][1] + x[1])
            return (r, x[1])
        return tuple(self._w(y) for y in x)

    def _atom(self, a):
        if isinstance(a, tuple) and a and a[0] == 'm' and len(a) == 2:
            l = a[1]
            if self.creator is not None and l[0] == ('arg', 0) and l[1] in self.vals:
                v = self.vals[l[1]]
                return unfz(v) if v[0] == 'P' else atom(v)
            if self.creator is not None and l[0] == ('arg', 0) and l[1] in self.refs:
                return atom(('ptr', self.refs[l[1]]))
            l = self._w(l)
            s = (self.creator or self).slots.get(l)
            if s is not None:
                s = (self.creator or self).T(s) if self.creator is not None else self._w(s)
                return unfz(s) if s[0] == 'P' else atom(s)
            return atom(('m', l))
        return atom(self._w(a))
