"""Roles of the grid classes' storage, found through their public accessors, and the
terms a correct lookup has to produce."""
import re

import sa
from codec import P, atom
from paths import paths, negate
from val import fz, unfz, num, pmul, pinv, subst

NSG = r'voxel_grid::'
LOAD = dict(keep=[r'^Eigen::Transform<.*>::(inverse|operator\*)'], inline=[r'^Eigen::', r'^std::forward'],
            flags=['-DEIGEN_DONT_VECTORIZE', '-DNDEBUG'])
AX = 'XYZ'


def M(root, off):
    return atom(('m', (root, off)))


def derem(t):
    """remainders as a - b*(a/b); products of divisions untouched"""
    for _ in range(6):
        rs = [a for a in all_atoms(t) if a[0] == 'rem']
        if not rs:
            return t
        m = {}
        for r in rs:
            a, b = (unfz(x) for x in r[1:])
            m[r] = a - pmul(b, atom(('div', fz(a), fz(b))))
        t = subst(t, m)
    return t


def all_atoms(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if isinstance(x, P):
            x = fz(x)
        if not isinstance(x, tuple) or x in seen:
            continue
        seen.add(x)
        if x and isinstance(x[0], str) and x[0] not in ('P',):
            out.append(x)
        st += list(x)
    return out


class Roles:
    """byte offsets of the fields behind the accessors of GridSizes"""
    def __init__(self, mod):
        self.off = {}
        for f in mod.find(NSG + r'GridSizes::\w+$'):
            nm = f.qual.split('::')[-1]
            if len(f.argtypes) != 2 or not f.argtypes[1].startswith('const ') or f.loops():
                continue
            ps = paths(f)
            if not ps or len(ps) != 1 or not ps[0].end.ops:
                continue
            t = ps[0].ret()
            if isinstance(t, P) and len(t.t) == 1:
                (k, v), = t.t.items()
                if v == 1 and len(k) == 1:
                    a = k[0]
                    if a[0] == 'trunc':
                        a = next(iter(unfz(a[2]).t))[0]
                    if a[0] == 'm' and a[1][0] == ('arg', 0):
                        self.off[nm] = a[1][1]
        for n in ('NumXCells', 'NumYCells', 'NumZCells', 'CellXSize', 'CellYSize', 'CellZSize', 'InvCellXSize',
                  'InvCellYSize', 'InvCellZSize', 'XSize', 'YSize', 'ZSize', 'Valid'):
            if n not in self.off:
                raise sa.Broken(f'GridSizes::{n} is no plain field read')

    def field(self, at, name):
        """term of a GridSizes field of the sizes object at place at=(root, off)"""
        return M(at[0], at[1] + self.off[name])

    def derived(self, at):
        """substitution that writes the derived fields in terms of counts and cell sizes"""
        F = lambda n: self.field(at, n)
        key = lambda n: ('m', (at[0], at[1] + self.off[n]))
        m = {}
        for c in AX:
            m[key(f'InvCell{c}Size')] = pinv(F(f'Cell{c}Size'))
            m[key(f'{c}Size')] = pmul(F(f'Num{c}Cells'), F(f'Cell{c}Size'))
        if 'Stride1' in self.off:
            m[key('Stride1')] = pmul(F('NumYCells'), F('NumZCells'))
        if 'Stride2' in self.off:
            m[key('Stride2')] = F('NumZCells')
        return m

    def row_major(self, at, c):
        n = [self.field(at, f'Num{a}Cells') for a in AX]
        return pmul(c[0], pmul(n[1], n[2])) + pmul(c[1], n[2]) + c[2]

    def bounds(self, at, c):
        """the six terms that have to be >= 0"""
        out = []
        for k in range(3):
            out += [c[k], self.field(at, f'Num{AX[k]}Cells') - c[k] - P(1)]
        return out


def implied(lits, goal):
    """goal >= 0 follows from one literal"""
    c = goal.const()
    if c is not None:
        return c >= 0
    for p in lits:
        if p[0] == 'ge':
            d = (goal - unfz(p[1])).const()
            if d is not None and d >= 0:
                return True
        elif p[0] == 'eq':
            q = unfz(p[1])
            for x in (q, P(0) - q):
                d = (goal - x).const()
                if d is not None and d >= 0:
                    return True
        elif p[0] == 'uge':
            q = unfz(p[1])
            if (goal - q).const() is not None and (goal - q).const() >= 0:
                return True
            # index <u count: the index is not negative either
            neg = P({k: -v for k, v in q.t.items() if v < 0 and k != ()})
            if neg == goal:
                return True
        elif p[0] == 'any' and all(implied([x] if x[0] != 'all' else list(x[1]), goal) for x in p[1]):
            return True
    return False


def refuted(lits, goals):
    """some literal says that one of the goals (>= 0) fails"""
    bad = [P(-1) - g for g in goals]
    for p in lits:
        if p[0] == 'any':
            if all(refuted([x] if x[0] != 'all' else list(x[1]), goals) for x in p[1]):
                return True
        elif p[0] == 'uge':
            q = unfz(p[1])
            # index >=u count
            for k in range(0, len(goals), 2):
                if (bad[k + 1] - q).const() == 0:
                    return True
        elif any(implied([p], b) for b in bad):
            return True
    return False


def slit(p, m):
    """literal under a substitution"""
    if p[0] in ('any', 'all'):
        return (p[0], tuple(slit(x, m) for x in p[1]))
    if len(p) > 1 and isinstance(p[1], tuple) and p[1] and p[1][0] == 'P':
        return (p[0], fz(subst(unfz(p[1]), m))) + tuple(p[2:])
    return p
