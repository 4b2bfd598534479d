"""Entry-to-return paths of a function with, per path, the literals its branches
establish and the values and memory along it (engine/val.py restricted to the path).
Nothing is executed or solved: paths are walked over the CFG and only pruned when a
branch tests a constant or contradicts an identical earlier test."""
import sa
from codec import P
from sa import tuple_ref
from val import V, num, fz, unfz

NEG = {'ge': None, 'eq': 'ne', 'ne': 'eq', 'foeq': 'fune', 'fune': 'foeq', 'folt': 'fuge', 'fuge': 'folt',
       'fogt': 'fule', 'fule': 'fogt', 'foge': 'fult', 'fult': 'foge', 'fole': 'fugt', 'fugt': 'fole',
       'fone': 'fueq', 'fueq': 'fone', 'ford': 'funo', 'funo': 'ford'}


def negate(p):
    if p[0] == 'all':
        return ('any', tuple(negate(x) for x in p[1]))
    if p[0] == 'any':
        return ('all', tuple(negate(x) for x in p[1]))
    if p[0] == 'not':
        return p[1]
    if p[0] in ('ge', 'uge'):
        return (p[0], fz(P(-1) - unfz(p[1])))
    if p[0] == 'fogt':      # a > b  ->  not: b >= a or unordered
        return ('fuge', fz(P(0) - unfz(p[1])))
    if p[0] == 'foge':
        return ('fugt', fz(P(0) - unfz(p[1])))
    if p[0] == 'fugt':
        return ('foge', fz(P(0) - unfz(p[1])))
    if p[0] == 'fuge':
        return ('fogt', fz(P(0) - unfz(p[1])))
    if p[0] == 'bool':
        return ('bool', p[1], not p[2])
    if p[0] in NEG and NEG[p[0]]:
        return (NEG[p[0]],) + tuple(p[1:])
    return ('not', p)


class PathV(V):
    def __init__(self, fn, path, choice=None, quiet=None):
        super().__init__(fn, quiet)
        self.path = path
        self.prevb = dict(zip(path[1:], path))
        self.live = set(path)
        self.choice = choice or {}
        self.base = None        # function-level view for what precedes a segment

    def _entry(self, l, n, b):
        if b in self.prevb:
            p = self.prevb[b]
            return self._scan(l, n, p, len(self.fn.blocks[p]))
        from codec import atom
        if self.base is not None:
            return self.base._entry(l, n, b)
        return atom(('m', l)) if n else ('init', l)

    def mem(self, l, n, at):
        if self.base is not None and at.block not in self.live:
            return self.base.mem(l, n, at)
        return super().mem(l, n, at)

    def _inst(self, i):
        if self.base is not None:
            if i.block not in self.live:
                return self.base.val(('i', i.id))
            if i.op == 'phi' and i.block == self.path[0]:
                return self.base.val(('i', i.id))
        if i.op == 'phi' and i.block in self.prevb:
            p = self.prevb[i.block]
            for r, b in i.inc:
                if b == p:
                    return self.val(r)
        if i.op == 'select' and i.id in self.choice:
            return self.val(i.ops[1] if self.choice[i.id] else i.ops[2])
        return super()._inst(i)

    def on_path(self, op=None):
        for b in self.path:
            for i in self.fn.blocks[b]:
                if op is None or i.op in op:
                    yield i

    def expand(self, ref, pol):
        """list of props that hold when ref has truth value pol"""
        ref = tuple_ref(ref)
        if ref[0] == 'c':
            return [] if bool(ref[1] & 1 if isinstance(ref[1], int) else ref[1]) == pol else [('false',)]
        i = self.fn.get(ref) if ref[0] == 'i' else None
        if i is not None:
            if i.op == 'freeze':
                return self.expand(i.ops[0], pol)
            if i.op == 'xor' and i.ty == 'i1' and i.ops[1][0] == 'c':
                return self.expand(i.ops[0], not pol)
            if i.op == 'phi' and i.block in self.prevb:
                for r, b in i.inc:
                    if b == self.prevb[i.block]:
                        return self.expand(r, pol)
            if i.op == 'select' and i.id in self.choice:
                return self.expand(i.ops[1] if self.choice[i.id] else i.ops[2], pol)
            parts = None
            if i.op == 'select' and i.ty == 'i1':
                c, a, b = i.ops
                if b[0] == 'c' and not b[1]:
                    parts, conj = [(c, True), (a, True)], True
                elif a[0] == 'c' and a[1]:
                    parts, conj = [(c, True), (b, True)], False
            elif i.op in ('and', 'or') and i.ty == 'i1':
                parts, conj = [(o, True) for o in i.ops], i.op == 'and'
            if parts:
                if conj == pol:
                    return [x for o, _ in parts for x in self.expand(o, pol)]
                alts = []
                for o, _ in parts:
                    e = self.expand(o, pol)
                    if ('false',) in e:
                        continue
                    if not e:
                        return []
                    for x in ([('all', tuple(e))] if len(e) > 1 else e):
                        alts += x[1] if x[0] == 'any' else [x]
                if not alts:
                    return [('false',)]
                return alts if len(alts) == 1 else [('any', tuple(alts))]
            wide = i.ops[0] if i.op == 'trunc' and i.ty == 'i1' else None
            if i.op == 'icmp' and i.pred in ('eq', 'ne') and i.ops[1][0] == 'c' and i.ops[1][1] in (0, 1):
                wide = i.ops[0]
            if wide is not None:
                # a truth value kept in a wider variable
                z = resolve(self.fn, wide, self.path, self.choice)
                want = pol if i.op == 'trunc' else pol == ((i.pred == 'eq') == (i.ops[1][1] == 1))
                if z[0] == 'c' and z[1] in (0, 1) and tuple_ref(wide)[0] == 'i':
                    return [] if bool(z[1]) == want else [('false',)]
                y = self.fn.get(z) if z[0] == 'i' else None
                if y is not None and y.op == 'zext' and y is not self.fn.get(wide):
                    src = tuple_ref(y.ops[0])
                    y = self.fn.get(src) if src[0] == 'i' else None
                    if y is not None and y.ty == 'i1':
                        return self.expand(src, want)
            if i.op == 'icmp' and i.pred in ('eq', 'ne') and i.ops[1][0] == 'c' and i.ops[1][1] in (0, 1):
                z = self.fn.get(i.ops[0]) if i.ops[0][0] == 'i' else None
                while z is not None and z.op in ('zext', 'freeze'):
                    src = z.ops[0]
                    z = self.fn.get(src) if src[0] == 'i' else None
                    if z is not None and z.ty == 'i1' or src[0] == 'a' and self.fn.params[src[1]]['ty'] == 'i1':
                        return self.expand(src, pol == ((i.pred == 'eq') == (i.ops[1][1] == 1)))
            if i.op == 'trunc' and i.ty == 'i1':
                z = self.fn.get(i.ops[0]) if i.ops[0][0] == 'i' else None
                if z is not None and z.op == 'zext':
                    return self.expand(z.ops[0], pol)
        p = self.prop(ref, pol)
        if p[0] == 'bool':
            t = p[1]
            if t[0] == 'P':
                c = unfz(t).const()
                if c is not None:
                    return [] if bool(c) == p[2] else [('false',)]
        if p[0] in ('ge', 'eq', 'ne'):
            c = unfz(p[1]).const()
            if c is not None:
                ok = c >= 0 if p[0] == 'ge' else (c == 0) == (p[0] == 'eq')
                return [] if ok else [('false',)]
        if p[0] == 'not':
            p = negate(p[1]) if p[1][0] != 'cond' else p
        return [p]

    def edge(self, a, s):
        t = self.fn.blocks[a][-1]
        if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
            return self.expand(t.ops[0], t.ops[2][1] == s)
        if t.op == 'switch':
            vals = [v for v, tg in t.cases if tg == s]
            if s != t.ops[1][1]:
                e = [('eq', norm(self.n(t.ops[0]) - num(v))) for v in vals]
                return e if len(e) == 1 else [('any', tuple(e))]
            return [('ne', norm(self.n(t.ops[0]) - num(v))) for v, tg in t.cases if tg != s]
        return []


def norm(d):
    a, b = fz(d), fz(P(0) - d)
    return min(a, b, key=repr)


class Path:
    def __init__(self, v, lits, end):
        self.v, self.lits, self.end = v, lits, end
        self.flat = list(lits)

    def ret(self):
        return self.v.val(self.end.ops[0]) if self.end.ops else None

    def outcomes(self):
        """[(0/1, extra literals)] of a boolean-returning path"""
        r = self.end.ops[0]
        out = []
        for pol in (True, False):
            e = self.v.expand(r, pol)
            if ('false',) not in e and feasible(self.lits + e):
                out.append((pol, e))
        return out


def constant_false(x):
    if x[0] in ('eq', 'ne', 'ge') and x[1] and x[1][0] == 'P':
        c = unfz(x[1]).const()
        return c is not None and not (c == 0 if x[0] == 'eq' else c != 0 if x[0] == 'ne' else c >= 0)
    return x == ('false',)


def feasible(lits):
    s = set(lits)
    if ('false',) in s:
        return False
    for x in lits:
        if negate(x) in s:
            return False
        if constant_false(x):
            return False
        if x[0] == 'any' and all(negate(y) in s or constant_false(y) for y in x[1]):
            return False
    return True


def block_paths(fn, cap):
    """[(blocks, {select id: bool})]; None when the function has loops or too many paths"""
    if fn.loops():
        return None
    out = []
    st = [([0], {}, {})]
    while st:
        path, choice, known = st.pop()
        if len(out) + len(st) > cap:
            return None
        b = path[-1]
        sel = [i for i in fn.blocks[b] if i.op == 'select' and i.id not in choice and not boolsel(i)]
        if sel:
            for c in (True, False):
                st.append((path, {**choice, sel[0].id: c}, known))
            continue
        ss = fn.succs[b]
        t = fn.blocks[b][-1]
        if not ss:
            if t.op == 'ret':
                out.append((path, choice))
            continue
        if t.op == 'br' and len(t.ops) == 3 and len(ss) == 2:
            c = resolve(fn, t.ops[0], path, choice)
            k = None
            if c[0] == 'c':
                k = bool(c[1])
            elif c in known:
                k = known[c]
            for s in ss:
                pol = t.ops[2][1] == s
                if k is None or k == pol:
                    st.append((path + [s], choice, {**known, c: pol}))
            continue
        for s in ss:
            st.append((path + [s], choice, known))
    return out


def boolsel(i):
    if i.ty != 'i1':
        return False
    _, a, b = i.ops
    return b[0] == 'c' and not b[1] or a[0] == 'c' and bool(a[1])


def resolve(fn, ref, path, choice):
    ref = tuple_ref(ref)
    for _ in range(40):
        i = fn.get(ref) if ref[0] == 'i' else None
        if i is None:
            return ref
        if i.op == 'phi' and i.block in path:
            k = path.index(i.block)
            if k == 0:
                return ref
            nxt = [r for r, b in i.inc if b == path[k - 1]]
            if not nxt:
                return ref
            ref = tuple_ref(nxt[0])
        elif i.op == 'select' and i.id in choice:
            ref = tuple_ref(i.ops[1] if choice[i.id] else i.ops[2])
        elif i.op == 'freeze':
            ref = tuple_ref(i.ops[0])
        else:
            return ref
    return ref


def paths(fn, cap=6000, quiet=None):
    """feasible returning paths, or None"""
    bp = block_paths(fn, cap)
    if bp is None:
        return None
    out = []
    for blocks, choice in bp:
        v = PathV(fn, blocks, choice, quiet)
        lits = []
        for a, s in zip(blocks, blocks[1:]):
            lits += v.edge(a, s)
        for sid, c in choice.items():
            lits += v.expand(fn.inst[sid].ops[0], c)
        lits = list(dict.fromkeys(lits))
        if feasible(lits):
            out.append(Path(v, lits, fn.blocks[blocks[-1]][-1]))
    return out


class Segment(Path):
    """a stretch between cut points (function entry, loop headers, returns); stop is
    ('ret',), ('throw',) or ('loop', header); back: the header is the one it started at
    or one of an enclosing loop"""
    def __init__(self, v, lits, end, start, stop):
        super().__init__(v, lits, end)
        self.start, self.stop = start, stop

    def next(self, phi):
        """value phi of the loop header this segment arrives at receives"""
        for r, b in phi.inc:
            if b == self.v.path[-1]:
                return self.v.val(r)
        return None


def segments(fn, cap=6000, quiet=None, throws=False):
    """feasible cut-point segments, or None when there are too many"""
    heads = set(fn.loops())
    base = V(fn, quiet)
    out = []
    for start in [0] + sorted(heads - {0}):
        st = [([start], {}, {})]
        n = 0
        while st:
            path, choice, known = st.pop()
            n += 1
            if n > 4 * cap:
                return None
            b = path[-1]
            sel = [i for i in fn.blocks[b] if i.op == 'select' and i.id not in choice and not boolsel(i)]
            if sel:
                for c in (True, False):
                    st.append((path, {**choice, sel[0].id: c}, known))
                continue
            t = fn.blocks[b][-1]
            ss = fn.succs[b]
            if not ss:
                if t.op == 'ret':
                    seg(out, fn, base, path, choice, start, ('ret',), quiet, t)
                elif throws:
                    seg(out, fn, base, path, choice, start, ('throw',), quiet, t)
                continue
            k = c = None
            if t.op == 'br' and len(t.ops) == 3 and len(ss) == 2:
                c = resolve(fn, t.ops[0], path, choice)
                k = bool(c[1]) if c[0] == 'c' else known.get(c)
            for s in ss:
                kn = known
                if c is not None:
                    pol = t.ops[2][1] == s
                    if k is not None and k != pol:
                        continue
                    kn = {**known, c: pol}
                if s in heads:
                    seg(out, fn, base, path, choice, start, ('loop', s), quiet, t)
                else:
                    st.append((path + [s], choice, kn))
        if len(out) > cap:
            return None
    return out


def seg(out, fn, base, path, choice, start, stop, quiet, t):
    v = PathV(fn, path, choice, quiet)
    v.base = base
    lits = list(base.props(start)) if start else []
    for a, s in zip(path, path[1:]):
        lits += v.edge(a, s)
    if stop[0] == 'loop':
        lits += v.edge(path[-1], stop[1])
    for sid, c in choice.items():
        lits += v.expand(fn.inst[sid].ops[0], c)
    lits = list(dict.fromkeys(lits))
    if feasible(lits):
        out.append(Segment(v, lits, t, start, stop))
