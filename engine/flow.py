"""Reasoning over cut-point segments: loop counters, simple inequalities."""
from codec import P, atom
from val import V, fz, unfz, subst, atoms_in


def facts(lits):
    """polynomials known to be >= 0"""
    g, ne = [], set()
    for p in lits:
        if p[0] == 'ge':
            g.append(unfz(p[1]))
        elif p[0] == 'eq':
            g += [unfz(p[1]), P(0) - unfz(p[1])]
        elif p[0] == 'ne':
            ne |= {p[1], fz(P(0) - unfz(p[1]))}
        elif p[0] == 'all':
            g += facts(p[1])
    for x in list(g):
        if fz(x) in ne:
            g.append(x - P(1))
    return g


def proves(lits, goal):
    """goal >= 0 follows from at most two of the literals"""
    c = goal.const()
    if c is not None:
        return c >= 0
    fs = facts(lits)
    for i, a in enumerate(fs):
        d = (goal - a).const()
        if d is not None and d >= 0:
            return True
        for b in fs[i + 1:]:
            d = (goal - a - b).const()
            if d is not None and d >= 0:
                return True
    for p in lits:
        if p[0] == 'any' and all(proves([x for x in lits if x != p] + [y], goal) for y in p[1]):
            return True
    return False


def atom1(p):
    """the single atom p consists of, or None"""
    if isinstance(p, P) and len(p.t) == 1:
        (k, v), = p.t.items()
        if v == 1 and len(k) == 1:
            return k[0]
    return None


def cond_lits(t, pol=True):
    """literals a select condition term stands for"""
    if t[0] == 'cond':
        from paths import negate
        return [t[1]] if pol else [negate(t[1])]
    return []


def leq(x, bound, lits):
    """x <= bound, looking through selects, minima and lossless narrowing"""
    if proves(lits, bound - x):
        return True
    a = atom1(x)
    if a is None:
        return False
    if a[0] == 'trunc':
        return leq(unfz(a[2]), bound, lits)
    if a[0] == 'sel' and a[2][0] == 'P' and a[3][0] == 'P':
        return leq(unfz(a[2]), bound, lits + cond_lits(a[1])) and leq(unfz(a[3]), bound, lits + cond_lits(a[1], False))
    if a[0] == 'smin':
        return any(leq(unfz(y), bound, lits) for y in a[1:] if y[0] == 'P')
    if a[0] == 'smax':
        return all(y[0] == 'P' and leq(unfz(y), bound, lits) for y in a[1:])
    return False


def geq(x, low, lits):
    if proves(lits, x - low):
        return True
    a = atom1(x)
    if a is None:
        return False
    if a[0] == 'trunc':
        return geq(unfz(a[2]), low, lits)
    if a[0] == 'sel' and a[2][0] == 'P' and a[3][0] == 'P':
        return geq(unfz(a[2]), low, lits + cond_lits(a[1])) and geq(unfz(a[3]), low, lits + cond_lits(a[1], False))
    if a[0] == 'smin':
        return all(y[0] == 'P' and geq(unfz(y), low, lits) for y in a[1:])
    if a[0] == 'smax':
        return any(y[0] == 'P' and geq(unfz(y), low, lits) for y in a[1:])
    return False


class Counter:
    """A quantity that a loop nest carries from header to header.

    at: header -> atom naming it there; init: terms it starts with;
    step: segment -> increment (for segments between headers in at)"""
    def __init__(self):
        self.at, self.init, self.step = {}, [], {}


def arriving(fn, s, a):
    """value that atom a of the header s arrives at has on arrival"""
    h = s.stop[1]
    if a[0] == 'phi':
        i = fn.inst[a[1]]
        if i.block != h:
            return atom(a)      # of an enclosing loop: unchanged on the way
        t = s.next(i)
    elif a[1] != h:
        return atom(a)
    else:
        t = s.v.at_end(a[2], width(fn, a[2]), s.v.path[-1])
    return t if isinstance(t, P) else atom(t)


def width(fn, l):
    if l[0][0] == 'alloca':
        for i in fn.insts():
            if i.op in ('load', 'store'):
                from val import tsize
                b, off, var = fn.ptr(i.ops[0] if i.op == 'load' else i.ops[1])
                if b == ('i', l[0][1]) and not var and off == l[1]:
                    ty = i.ty if i.op == 'load' else i.d.get('vty') or i.d.get('sty')
                    if tsize(ty):
                        return tsize(ty)
    return 8


def state_atoms(t):
    return [x for x in atoms_in(t) if isinstance(x, tuple) and x and x[0] in ('phi', 'mphi') and len(x) > 1 and
            (x[0] == 'phi' and isinstance(x[1], int) or x[0] == 'mphi')]


def home(fn, a):
    return fn.inst[a[1]].block if a[0] == 'phi' else a[1]


def encl(fn, h):
    """h and the loop headers passed on every way to h"""
    return {x for x in fn.loops() if fn.bdom(x, h)} if h else set()


def counter(fn, segs, a):
    """follows atom a backwards through the segments; None when it is not carried by +constant"""
    c = Counter()
    h0 = fn.inst[a[1]].block if a[0] == 'phi' else a[1]
    c.at[h0] = a
    todo = [h0]
    while todo:
        h = todo.pop()
        for s in segs:
            if s.stop != ('loop', h):
                continue
            t = arriving(fn, s, c.at[h])
            if t is None:
                return None
            st = [x for x in state_atoms(t) if home(fn, x) in encl(fn, s.start)] if s.start else []
            if not st:
                if s.start in c.at and s.start == h:
                    return None
                c.init.append((s, t))
                continue
            if len(st) > 1:
                return None
            d = (t - atom(st[0])).const()
            if d is None:
                return None
            b = c.at.get(s.start)
            if b is None:
                c.at[s.start] = st[0]
                todo.append(s.start)
            elif b != st[0]:
                return None
            c.step[id(s)] = d
    return c
