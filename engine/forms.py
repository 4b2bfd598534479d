"""Two functions compared path by path: the same inputs must lead to the same values.

Both are taken apart into the stretches between loop heads.  Loops are paired in order,
their variables by the values they start from; every pair of stretches that start at
paired places and whose conditions can hold together must end alike: throw, return or
continue at paired places, with the same result, the same stored elements and the same
next values of the loop variables.  Values are polynomials over the arguments, elements
and pure function applications, so regrouped or renamed arithmetic compares equal."""
import re

import sa
from codec import P, atom
from flow import arriving, atom1
from folds import Body, holds, leaves
from lists import method
from val import fz, unfz

RESULT = (('O', 0), 0)
PURE = ('sin', 'cos', 'tan', 'atan2', 'atan', 'acos', 'asin', 'exp', 'log', 'pow', 'fmod', 'sqrt', 'hypot', 'fabs', 'floor', 'ceil', 'round', 'abs')
COMMON = re.compile(r'^llvm\.|^__cxa|^operator (new|delete)|::~\w+$|^std::(__throw|allocator::|terminate|fill_n$|invalid_argument|runtime_error|logic_error|to_string|operator\+|basic_string)'
                    r'|^std::vector::(vector|size|data|at|operator\[\]|begin|end|front|back|reserve|empty)$|^(std::)?(' + '|'.join(PURE) + r')$|^(malloc|free)$|^Eigen::internal::throw'
                    r'|ClampValueAndLog|function')
QUIET = re.compile(r'operator bool|ClampValueAndLog|logging')


class Unclear(Exception):
    pass


def rounded(v):
    if isinstance(v, float) or hasattr(v, 'denominator') and getattr(v, 'denominator', 1) != 1:
        v = float(f'{float(v):.12g}')
        return int(v) if v == int(v) and abs(v) < 1e15 else v
    return v


def half(x):
    """x / 2 as a frozen polynomial with positive leading coefficient, and the sign taken out"""
    p = P({k: v / 2.0 for k, v in x.t.items()})
    p = P({k: rounded(v) for k, v in p.t.items()})
    ks = sorted((k for k in p.t if k), key=repr) or [()]
    sgn = -1 if p.t.get(ks[0], 0) < 0 else 1
    return fz(p if sgn > 0 else P(0) - p), sgn


class Form:
    def __init__(self, f):
        self.f = f
        self.b = Body(f)
        if self.b.ok:
            self.b.segs = [s for s in self.b.segs if not self.alloc_failure(s)]
        self.ren = {}
        self.copies = {}
        self._memo = {}

    # ------------------------------------------------ terms
    def T(self, x):
        """canonical P or tuple"""
        if isinstance(x, P):
            return self.poly(x)
        if isinstance(x, tuple):
            if x[:1] == ('P',) and len(x) == 2:
                return fz(self.poly(unfz(x)))
            if x in self.ren:
                return self.ren[x]
            if len(x) == 2 and x[0] == 'arg' and isinstance(x[1], int):
                return ('O', x[1])
            if len(x) == 2 and x[0] == 'phi':
                return ('?', 'phi', x[1])
            y = tuple(self.T(y) for y in x)
            if len(y) == 2 and isinstance(y[1], int) and y[1] and y[1] % 8 == 0 and isinstance(y[0], tuple) and len(y[0]) == 3 and y[0][0] == 'elem' \
                    and isinstance(y[0][2], tuple) and y[0][2][:1] == ('P',):
                # doubles lie side by side
                y = (('elem', y[0][1], fz(unfz(y[0][2]) + P(y[1] // 8))), 0)
            if len(y) == 2 and y[0] == 'm' and isinstance(y[1], tuple) and len(y[1]) == 2 and y[1][1] == 0 and y[1][0][0] == 'elem' and y[1][0][1] in self.copies \
                    and any(z[:1] == ('it',) for z in leaves(y[1][0][2]) if isinstance(z, tuple)):
                # not yet written in this round
                y = ('m', (('elem', self.copies[y[1][0][1]], y[1][0][2]), 0))
            return y
        return x

    def poly(self, p):
        k = fz(p)
        if k in self._memo:
            return self._memo[k]
        out = P(0)
        for mono, v in p.t.items():
            t = P({(): rounded(v)})
            for a in mono:
                t = t * self.atom(a)
                if len(t.t) > 4000:
                    raise Unclear('too large')
            out = out + t
        out = reduce(out)
        self._memo[k] = out
        return out

    def atom(self, a):
        if a in self.ren:
            r = self.ren[a]
            return unfz(r) if r[:1] == ('P',) else atom(r)
        if isinstance(a, tuple) and a and a[0] in ('callv', 'call') and isinstance(a[1], str) or isinstance(a, tuple) and a and a[0] in PURE:
            n = (a[1] if a[0] in ('callv', 'call') else a[0]).split('::')[-1]
            if n in PURE:
                if a[0] == 'callv':
                    i = self.f.inst.get(a[2])
                    if i is None:
                        raise Unclear(str(a)[:80])
                    if any(self.f.is_ptr(o) for o in i.ops):
                        raise Unclear(str(a)[:80])
                    args = [self.poly(self.b.C(self.v.n(o))) for o in i.ops]
                else:
                    args = [unfz(self.T(x)) if isinstance(x, tuple) and x[:1] == ('P',) else None for x in (a[2:] if a[0] == 'call' else a[1:])]
                    if None in args:
                        return atom(self.T(a))
                return apply(n, args)
            if a[0] == 'callv' and method(a[1]) in ('operator new', 'malloc'):
                return atom(('new',))
            if a[0] == 'callv':
                return atom(('?',) + a)
        if isinstance(a, tuple) and len(a) == 2 and a[0] == 'inv':
            x = a[1]
            q = unfz(x[1]) if x[0] == 'sum' else atom(x)
            q = self.poly(q)
            return inverse(q)
        if isinstance(a, tuple) and a and a[0] in ('clobber', 'v', 'icall', 'out', 'ev'):
            return atom(('?',) + tuple(self.T(a)))
        return atom(self.T(a))

    def alloc_failure(self, s):
        return s.stop == ('throw',) and any(i.callee and 'bad_alloc' in i.callee or (i.callee or i.cn or '').endswith('throw_bad_alloc') for i in s.v.on_path(('call', 'invoke')))

    def at(self, s):
        self.v = s.v
        self._memo = {}
        return self

    def val(self, s, t):
        return self.at(s).T(self.b.C(t)) if t is not None else None

    def lits(self, s):
        self.at(s)
        out = []
        for l in self.b.lits(s):
            x = lit(self.T(l))
            if x is not None:
                out.append(x)
        return out


def lit(l):
    if l[0] in ('ge', 'uge', 'eq', 'ne', 'fogt', 'foge', 'fugt', 'fuge', 'foeq', 'fueq', 'fone', 'fune') and isinstance(l[1], tuple) and l[1][:1] == ('P',):
        p = unfz(l[1])
        if l[0] in ('eq', 'ne', 'foeq', 'fueq', 'fone', 'fune'):
            q = fz(P(0) - p)
            return (l[0], min(l[1], q, key=repr))
    return l


def inverse(q):
    if len(q.t) == 1:
        (k, v), = q.t.items()
        r = P({(): rounded(1.0 / v)})
        for x in k:
            if x[0] == 'inv':
                r = r * (atom(x[1]) if x[1][0] != 'sum' else unfz(x[1][1]))
            else:
                r = r * atom(('inv', x))
        return r
    return atom(('inv', ('sum', fz(q))))


def apply(n, args):
    """application of a pure function, symmetries taken out"""
    if n == 'abs':
        n = 'fabs'
    if n in ('sin', 'cos') and len(args) == 1:
        c = args[0].const()
        if c is not None:
            import math
            return P({(): rounded(getattr(math, n)(c))})
        h, sg = half(args[0])
        s, k = atom(('fn', 'sin', h)), atom(('fn', 'cos', h))
        if n == 'sin':
            return reduce(P({(): 2 * sg}) * s * k)
        return reduce(P({(): 2}) * k * k - P(1))
    if n == 'fabs' and len(args) == 1:
        x = args[0]
        ks = sorted(x.t, key=repr)
        if ks and x.t[ks[0]] < 0:
            x = P(0) - x
        if not x.t or x.const() is not None:
            return P({(): abs(x.const() or 0)})
        return atom(('fn', 'fabs', fz(x)))
    if n == 'sqrt' and len(args) == 1 and args[0].const() in (0, 1):
        return args[0]
    return atom(('fn', n) + tuple(fz(x) for x in args))


def reduce(p):
    """sin^2 = 1 - cos^2, sqrt(x)^2 = x, |x|^2 = x^2, x / x = 1"""
    for _ in range(12):
        out, hit = P(0), False
        for mono, v in p.t.items():
            m = list(mono)
            done = False
            for a in set(m):
                if isinstance(a, tuple) and a[:1] == ('inv',) and (a[1] in m):
                    m.remove(a)
                    m.remove(a[1])
                    out = out + P({tuple(m): v})
                    done = True
                    break
                if m.count(a) >= 2 and isinstance(a, tuple) and a[:1] == ('fn',) and a[1] in ('sin', 'sqrt', 'fabs'):
                    m.remove(a)
                    m.remove(a)
                    if a[1] == 'sin':
                        c = atom(('fn', 'cos', a[2]))
                        r = P(1) - c * c
                    elif a[1] == 'sqrt':
                        r = unfz(a[2])
                    else:
                        r = unfz(a[2]) * unfz(a[2])
                    out = out + P({tuple(m): v}) * r
                    done = True
                    break
            if done:
                hit = True
            else:
                out = out + P({mono: v})
        p = out
        if not hit:
            break
    return P({k: rounded(v) for k, v in p.t.items() if abs(float(v)) > 1e-14 or isinstance(v, int)})


def alike(x, y):
    if isinstance(x, P) and isinstance(y, P):
        for k in set(x.t) | set(y.t):
            a, b = float(x.t.get(k, 0)), float(y.t.get(k, 0))
            if abs(a - b) > 1e-9 * max(1.0, abs(a), abs(b)):
                return False
        return True
    if isinstance(x, P) or isinstance(y, P):
        return False
    if isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == ('P',) == y[:1]:
        return alike(unfz(x), unfz(y))
    return x == y


def unknown(x):
    return any(isinstance(z, tuple) and z[:1] == ('?',) for z in leaves(fz(x) if isinstance(x, P) else x)) if x is not None else True


def symbols(x):
    return {z[1] for z in leaves(fz(x) if isinstance(x, P) else x) if isinstance(z, tuple) and len(z) >= 2 and z[0] in ('fn', 'call') and isinstance(z[1], str)}


# ---------------------------------------------------------------- cases inside values
NEG = {'fogt': 'fule', 'foge': 'fult', 'fugt': 'fole', 'fuge': 'folt', 'foeq': 'fune', 'fune': 'foeq', 'fone': 'fueq', 'fueq': 'fone', 'eq': 'ne', 'ne': 'eq'}


def negated(l):
    if l[0] == 'bool':
        return ('bool', l[1], not l[2])
    if l[0] == 'not':
        return l[1]
    if l[0] in ('ge', 'uge'):
        return (l[0], fz(P(-1) - unfz(l[1])))
    n = NEG.get(l[0])
    if n is None:
        return ('not', l)
    if n in ('fule', 'fult', 'fole', 'folt'):
        return ({'fule': 'fuge', 'fult': 'fugt', 'fole': 'foge', 'folt': 'fogt'}[n], fz(P(0) - unfz(l[1])))
    return lit((n, l[1]))


def conds(x):
    x = fz(x) if isinstance(x, P) else x
    return [z for z in leaves(x) if isinstance(z, tuple) and len(z) == 2 and z[0] == 'cond'] if x is not None else []


def subst(x, c, v):
    """x with condition c decided"""
    if isinstance(x, P):
        out = P(0)
        for mono, k in x.t.items():
            t = P({(): k})
            for a in mono:
                b = subst(a, c, v)
                t = t * (b if isinstance(b, P) else unfz(b) if isinstance(b, tuple) and b[:1] == ('P',) else atom(b))
            out = out + t
        return reduce(out)
    if not isinstance(x, tuple):
        return x
    if x == c:
        return P(1 if v else 0)
    if x[:1] == ('P',) and len(x) == 2:
        return fz(subst(unfz(x), c, v))
    if x[:1] == ('sel',) and x[1] == c:
        return subst(x[2] if v else x[3], c, v)
    y = tuple(subst(z, c, v) for z in x)
    y = tuple(fz(z) if isinstance(z, P) else z for z in y)
    if y != x and y[:1] == ('fn',) and all(isinstance(z, tuple) and z[:1] == ('P',) for z in y[2:]):
        return apply(y[1], [unfz(z) for z in y[2:]])
    return y


def cases(x, y, ls, depth=0):
    """both values under every way the conditions inside them can turn out"""
    cs = conds(x) + conds(y)
    if not cs or depth > 6:
        yield x, y, ls
        return
    c = next((z for z in cs if not conds(z[1])), cs[0])
    for v in (True, False):
        l = lit(c[1]) if v else negated(c[1])
        lc = [lit(subst(z, c, v)) for z in ls] + [l]
        if not contradict(lc):
            yield from cases(subst(x, c, v), subst(y, c, v), lc, depth + 1)


# ---------------------------------------------------------------- conditions
def contradict(ls):
    """the literals cannot hold together"""
    for k, l in enumerate(ls):
        if l[0] == 'any':
            rest = ls[:k] + ls[k + 1:]
            return contradict([x for x in rest if x[0] != 'any']) or all(contradict(rest + ([lit(y) for y in x[1]] if x[0] == 'all' else [lit(x)])) for x in l[1])
    if any(l[0] == 'bool' and ('bool', l[1], not l[2]) in ls for l in ls):
        return True
    eq = {l[1] for l in ls if l[0] == 'eq'}
    if any(l[0] == 'ne' and l[1] in eq for l in ls):
        return True
    feq = {l[1] for l in ls if l[0] in ('foeq', 'fueq')}
    if any(l[0] in ('fune', 'fone') and l[1] in feq for l in ls):
        return True
    if any(l[0] in ('ge', 'uge', 'eq', 'ne') for l in ls):
        if holds([l for l in ls if l[0] in ('ge', 'uge', 'eq', 'ne')], [P(-1)]):
            return True
        for l in ls:
            if l[0] == 'ne':
                p = unfz(l[1])
                rest = [x for x in ls if x[0] in ('ge', 'uge', 'eq')]
                if holds(rest, [p]) and holds(rest, [P(0) - p]):
                    return True
    # bounds of the same real quantity
    low, up = {}, {}
    nan = {}
    for l in ls:
        if l[0] not in ('fogt', 'foge', 'fugt', 'fuge'):
            continue
        p = unfz(l[1])
        c = float(p.t.get((), 0))
        q = P({k: v for k, v in p.t.items() if k})
        if not q.t:
            if c < 0 or c == 0 and l[0] in ('fogt', 'fugt'):
                return True
            continue
        ks = sorted(q.t, key=repr)
        f = float(q.t[ks[0]])
        q = P({k: rounded(float(v) / abs(f)) for k, v in q.t.items()})
        c /= abs(f)
        st = l[0] in ('fogt', 'fugt')
        # q + c >= 0
        if f > 0:
            low.setdefault(fz(q), []).append((-c, st))
        else:
            up.setdefault(fz(P(0) - q), []).append((c, st))
    for q, ls_ in low.items():
        for (a, s) in ls_:
            for (b, t) in up.get(q, ()):
                if a > b + 1e-12 or abs(a - b) <= 1e-12 and (s or t):
                    return True
    return False


def pinned(ls):
    """quantities the literals say are zero"""
    out = [unfz(l[1]) for l in ls if l[0] in ('eq', 'foeq', 'fueq')]
    weak = [unfz(l[1]) for l in ls if l[0] in ('foge', 'fuge', 'ge')]
    for k, p in enumerate(weak):
        for q in weak[k + 1:]:
            if p.t and alike(p, P(0) - q):
                out.append(p)
    return out


def agree(x, y, zeros):
    """equal once every zero is solved for one of its quantities"""
    if not isinstance(x, P) or not isinstance(y, P):
        return False
    for z in zeros:
        for k, v in z.t.items():
            if len(k) == 1 and not any(k[0] in m for m in z.t if m != k):
                r = P({m: -float(w) / float(v) for m, w in z.t.items() if m != k})
                swap = lambda p: sum((P({(): c}) * product([r if a == k[0] else atom(a) for a in m]) for m, c in p.t.items()), P(0))
                if alike(swap(x), swap(y)):
                    return True
    return False


def product(ps):
    t = P(1)
    for p in ps:
        t = t * p
    return t


def subject(l):
    """what a literal compares, without constants and direction"""
    if len(l) > 1 and isinstance(l[1], tuple) and l[1][:1] == ('P',):
        p = unfz(l[1])
        q = P({k: v for k, v in p.t.items() if k})
        return min(fz(q), fz(P(0) - q), key=repr)
    return l[1:2]


# ---------------------------------------------------------------- comparing
class Pair:
    """library function f against reference g; report(ok, key, text, readable)"""
    def __init__(self, f, g, words, report, unsure):
        self.F, self.G = Form(f), Form(g)
        self.words, self.report, self.unsure = words, report, unsure
        self.n = 0
        self.modelled = set()

    def run(self):
        F, G = self.F, self.G
        if not F.b.ok or not G.b.ok:
            return self.unsure('paths', 'too many paths')
        hf, hg = sorted(F.f.loops()), sorted(G.f.loops())
        if len(hf) != len(hg):
            return self.unsure('loops', f'{len(hf)} loops instead of {len(hg)}')
        self.heads = dict(zip(hf, hg))
        try:
            self.vectors(F)
            self.vectors(G)
            self.appending(F)
            self.appending(G)
            for k, (x, y) in enumerate(zip(hf, hg)):
                if not self.variables(k, x, y):
                    return
            self.compare()
        except Unclear as e:
            self.unsure('terms', str(e))

    def vectors(self, X):
        """sizes of vectors made in the function"""
        X.made = {}
        X.copies = {}
        for s in X.b.segs:
            for i in s.v.on_path(('call', 'invoke')):
                if i.callee and re.match(r'std::vector<.*>::(vector|resize)$', i.callee) and len(i.ops) >= 2:
                    l = X.b.place(s.v.loc(i.ops[0]))
                    n = s.v.n(i.ops[1]) if not X.f.is_ptr(i.ops[1]) else None
                    w = X.b.place(s.v.loc(i.ops[1])) if X.f.is_ptr(i.ops[1]) and len(i.ops) == 2 and i.callee.endswith('::vector') else None
                    if l and w and '&&' not in (i.cd or ''):
                        # a copy
                        l, w = X.at(s).T(l), X.T(w)
                        X.copies[l] = w
                        X.ren[('size', l)] = X.ren[('size', X.b.place(s.v.loc(i.ops[0])))] = fz(atom(('size', w)))
                        self.modelled.add(i.id)
                    if l and isinstance(n, P) and not X.f.is_ptr(i.ops[1]):
                        l = X.at(s).T(l)
                        X.made[l] = fz(X.val(s, n))
                        X.ren[('size', l)] = X.made[l]
                        X.ren[('size', X.b.place(s.v.loc(i.ops[0])))] = X.made[l]

    def variables(self, k, x, y):
        F, G = self.F, self.G
        wf, wg = F.b.walks.get(x), G.b.walks.get(y)
        if wf is None or wg is None:
            self.unsure('loops', f'loop at {self.where(x)} is not over a range')
            return False
        F.ren[wf.a] = G.ren[wg.a] = ('it', k)
        ef = next((s for s in F.b.segs if s.stop == ('loop', x) and s.start not in F.f.loops()[x]), None)
        eg = next((s for s in G.b.segs if s.stop == ('loop', y) and s.start not in G.f.loops()[y]), None)
        if ef is None or eg is None:
            return True
        lf, lg = F.at(ef).T(wf.lo), G.at(eg).T(wg.lo)
        uf, ug = F.at(ef).T(wf.hi), G.at(eg).T(wg.hi)
        ls = F.lits(ef)
        same = lambda a, b: alike(a, b) or isinstance(a, P) and isinstance(b, P) and holds([l for l in ls if l[0] in ('eq', 'ge', 'uge')], [a - b, b - a])
        self.n += 1
        ok = same(lf, lg) and same(uf, ug)
        self.bad_range = None if ok else (f'{F.f.where()}: visits {lf} to {uf} instead of {lg} to {ug}', not unknown(lf) and not unknown(uf))
        # other variables, by the values they start from
        pf, pg = self.phis(F, x, wf), self.phis(G, y, wg)
        start = lambda X, ph, h: [X.val(s, arriving(X.f, s, ph)) for s in X.b.segs if s.stop == ('loop', h) and s.start not in X.f.loops()[h]]
        left = []
        free = list(pg)
        m = 0
        for a in pf:
            va = start(F, a, x)
            hit = None
            for b in free:
                vb = start(G, b, y)
                if any(alike(u, v) for u in va for v in vb) and F.f.inst[a[1]].ty == G.f.inst[b[1]].ty:
                    hit = b
                    break
            if hit is None:
                left.append(a)
                continue
            free.remove(hit)
            F.ren[a] = G.ren[hit] = ('acc', k, m)
            self.pairs.append((x, a, hit, True))
            m += 1
        if len(left) == 1 and len(free) == 1 and F.f.inst[left[0][1]].ty == G.f.inst[free[0][1]].ty:
            F.ren[left[0]] = G.ren[free[0]] = ('acc', k, m)
            self.pairs.append((x, left[0], free[0], False))
            if self.bad_range:
                self.unsure('loops', 'another range and another start')
                return False
        elif left and free:
            self.unsure('loops', 'other variables')
            return False
        if self.bad_range:
            t, r = self.bad_range
            self.report(False, 'range', t, r)
            return True
        self.report(True, 'range', '', True)
        return True

    pairs = None

    def phis(self, X, h, w):
        if self.pairs is None:
            self.pairs = []
        out = []
        for i in X.f.blocks[h]:
            if i.op == 'phi' and ('phi', i.id) != w.a:
                out.append(('phi', i.id))
        return out

    def where(self, h):
        i = self.F.f.blocks[h][-1]
        return i.where()

    def compare(self):
        F, G = self.F, self.G
        parts = lambda l: [y for x in l[1] for y in parts(x)] if l[0] in ('any', 'all') else [l]
        subjects = {subject(x) for t in G.b.segs for l in G.lits(t) for x in parts(l)}
        self.known_calls = {sa.canon_callee(i.callee) for t in G.b.segs for i in t.v.on_path(('call', 'invoke')) if i.callee}
        self.symbols = set()
        for t in G.b.segs:
            self.symbols |= symbols(G.lits(t))
            for v in self.results(G, t, 'G').values():
                if v is not None:
                    self.symbols |= symbols(v)
        self.symbols.add('fabs')
        if self.words == 'bool':
            self.compared()
        back = {v: k for k, v in self.heads.items()}
        for s in F.b.segs:
            if s.start != 0 and s.start not in self.heads:
                self.unsure('paths', f'starts at {s.start}')
                continue
            for ef in self.entries(F, s):
                self.enter(F, ef)
                for eg in self.entries(G, next((t for t in G.b.segs if t.start == self.heads.get(s.start, 0)), None)):
                    self.enter(G, eg)
                    le = (F.lits(ef) if ef else []) + (G.lits(eg) if eg else [])
                    if not contradict(le):
                        self.stretch(s, le, subjects, back)
                    self.leave(G)
                self.leave(F)

    def compared(self):
        """a yes-or-no answer that rests on other quantities than the reference's"""
        parts = lambda l: [y for x in l[1] for y in parts(x)] if l[0] in ('any', 'all') else [l]

        def of(X):
            ls = [x for s in X.b.segs for l in X.lits(s) for x in parts(l)]
            for s in X.b.segs:
                if s.stop == ('ret',):
                    r = self.results(X, s, '')[('ret',)]
                    ls += [lit(x[1]) for x in conds(r)] if r is not None else [('?',)]
            return ls
        f, g = of(self.F), of(self.G)
        flat = lambda l: l[0][0] == 'f' and len(l) == 2 and all(len(k) <= 1 for k in unfz(l[1]).t) and not unknown(l)
        if all(flat(l) for l in f + g) and not any(self.foreign(s) for s in self.F.b.segs):
            a, b = {subject(l) for l in f}, {subject(l) for l in g}
            lost = b - a
            self.report(not (lost and a - b), 'compares', f'{self.F.f.where()}: compares {str(sorted(a - b, key=repr))[:200]} instead of {str(sorted(lost, key=repr))[:200]}', True)

    def entries(self, X, s):
        """ways into the loop of this stretch, when values joined before the loop matter"""
        if s is None or s.start == 0:
            return [None]
        heads = set(X.f.loops())
        if not any(i.op == 'phi' for b, blk in enumerate(X.f.blocks) if b not in heads for i in blk):
            return [None]
        got = [e for e in X.b.segs if e.start == 0 and e.stop == ('loop', s.start) and not contradict(X.lits(e))]
        return got or [None]

    def enter(self, X, e):
        X.bound = {}
        if e is None:
            return
        heads = set(X.f.loops())
        for b, blk in enumerate(X.f.blocks):
            if b in heads:
                continue
            for i in blk:
                if i.op == 'phi' and ('phi', i.id) not in X.ren:
                    try:
                        v = X.val(e, e.v.n(('i', i.id)))
                    except Exception:
                        continue
                    if v is not None and not unknown(v):
                        X.bound[('phi', i.id)] = fz(v) if isinstance(v, P) else v
        X.ren.update(X.bound)

    def leave(self, X):
        for k in X.bound:
            X.ren.pop(k, None)

    def stretch(self, s, le, subjects, back):
        F, G = self.F, self.G
        ls = F.lits(s)
        if contradict(ls + le):
            return
        parts = lambda l: [y for x in l[1] for y in parts(x)] if l[0] in ('any', 'all') else [l]
        odd = [l for l in ls if unknown(l) or any(subject(x) not in subjects for x in parts(l)) and not noise(l)]
        self.results(F, s, 'F')
        odd += self.foreign(s)
        hits = []
        for t in G.b.segs:
            if t.start != (0 if s.start == 0 else self.heads[s.start]):
                continue
            lt = G.lits(t)
            if contradict(ls + lt + le):
                continue
            hits.append((t, lt))
        open_ = [l for l in odd if l[0] == 'call' or unknown(l) or l[0] not in ('fogt', 'foge', 'fugt', 'fuge', 'fone', 'fune', 'noise')]
        if odd and not open_ and hits and s.stop == ('ret',) and all(t.stop == ('ret',) for t, _ in hits):
            # another division into cases: whichever case of the reference applies, the value must be its value
            rf = self.results(F, s, 'F')
            k = self.worst(rf, hits, ls)
            if k is not None:
                odd = []
        for t, lt in hits:
            self.one(s, t, ls, lt + le, odd, back)

    def one(self, s, t, ls, lt, odd, back):
        F, G = self.F, self.G
        self.n += 1
        end = lambda q, hs: ('loop', hs.get(q[1])) if q[0] == 'loop' else q[:1]
        ef, eg = end(s.stop, {h: h for h in self.heads}), end(t.stop, back)
        where = next((i.where() for i in reversed(list(s.v.on_path(('br', 'ret', 'store', 'call', 'invoke')))) if '/include/common_robotics' in i.where() or '/src/common' in i.where()), F.f.where())
        if ef != eg:
            if 'throw' in (ef[0], eg[0]) or ef[0] == 'ret' or eg[0] == 'ret':
                self.report(False, 'outcome', f'{where}: {self.says(ef)} where {self.says(eg)} is due' + self.cond(lt), not odd)
            else:
                self.unsure('paths', f'{where}: goes on elsewhere')
            return
        self.report(True, 'outcome', '', True)
        if ef[0] == 'throw':
            return
        rf, rg = self.results(F, s, 'F'), self.results(G, t, 'G')
        for k in sorted(set(rf) | set(rg), key=repr):
            a, b = rf.get(k), rg.get(k)
            if a is None or b is None:
                if k[0] in ('ret', 'word'):
                    self.unsure('values', f'{where}: {k} unknown')
                elif a is None:
                    self.report(False, 'value', f'{where}: {self.name(k)} is not set', not odd and not self.F_other(rf) and not unknown(k))
                else:
                    self.report(False, 'value', f'{where}: {self.name(k)} is set, too', not odd and not unknown(k) and k[0] == 'elem')
                continue
            ok, known = True, True
            for a, b, lc in cases(a, b, ls + lt):
                if alike(a, b):
                    continue
                if agree(a, b, pinned(lc)):
                    continue
                # equal under the equalities of this path
                if isinstance(a, P) and isinstance(b, P) and any(l[0] in ('eq', 'foeq', 'fueq') and any(alike(a - b, P({(): q}) * unfz(l[1])) for q in (1, -1)) for l in lc):
                    continue
                ok = False
                known = not unknown(a) and not unknown(b) and not odd and symbols(a) <= self.symbols | symbols(ls) and not any(unknown(l) for l in lc)
                break
            self.report(ok, 'value', f'{where}: {self.name(k)} is {str(a)[:110]} instead of {str(b)[:110]}', known)
        if ef[0] == 'loop':
            for h, a, b, started in self.pairs or ():
                if h != s.stop[1]:
                    continue
                u, v = F.val(s, arriving(F.f, s, a)), G.val(t, arriving(G.f, t, b))
                ok = u is not None and v is not None and alike(u, v)
                inside = s.start in F.f.loops()[h]
                self.report(ok, 'step' if inside else 'start', f'{where}: goes on with {str(u)[:110]} instead of {str(v)[:110]}',
                            not odd and u is not None and not unknown(u) and not unknown(v) and symbols(u) <= self.symbols)

    def worst(self, rf, hits, ls):
        """a component that agrees with none of the cases"""
        for k in sorted(rf, key=repr):
            if all(self.differs(rf, self.results(self.G, t, 'G'), k, ls + lt) for t, lt in hits):
                return k
        return None

    def differs(self, rf, rg, k, ls):
        a, b = rf.get(k), rg.get(k)
        if a is None or b is None or unknown(a) or unknown(b) or alike(a, b) or not symbols(a) <= self.symbols:
            return False
        return not (isinstance(a, P) and isinstance(b, P) and (pinned(ls) or any(l[0] in ('eq', 'foeq', 'fueq') for l in ls)))

    def foreign(self, s):
        """calls that neither the reference makes nor this analysis models"""
        out = []
        for i in s.v.on_path(('call', 'invoke')):
            if not i.callee:
                if not i.cn:
                    out.append(('call', 'through a pointer'))
                continue
            n = sa.canon_callee(i.callee)
            if n in self.known_calls or COMMON.search(n) or i.id in self.modelled:
                continue
            out.append(('call', n))
        return out

    def F_other(self, rf):
        return any(k[0] == 'odd' for k in rf)

    @staticmethod
    def says(e):
        return {'throw': 'refuses', 'ret': 'returns', 'loop': 'goes on'}[e[0]]

    @staticmethod
    def cond(ls):
        return ''

    @staticmethod
    def name(k):
        return {'ret': 'the result', 'word': f'component {k[1:]}', 'elem': f'element {str(k[1:])[:60]}', 'length': 'the number of elements'}.get(k[0], str(k)[:80])

    def appended(self, X, s, out):
        """elements put at the end of the result; copies of a stretch of doubles"""
        at = P(0)
        loop = X.f.loops()
        inside = [h for h in loop if s.start in loop[h]]
        if len(inside) == 1:
            w = X.b.walks.get(inside[0])
            if w is None:
                return
            at = X.T(atom(w.a)) - X.T(w.lo)
        k = 0
        for i in s.v.on_path(('call', 'invoke')):
            if not i.callee or not i.ops:
                continue
            n = sa.canon_callee(i.callee)
            if n in ('std::vector::push_back', 'std::vector::emplace_back') and len(i.ops) == 2 and X.T(X.b.place(s.v.loc(i.ops[0]))) == RESULT:
                l = s.v.loc(i.ops[1])
                if l is None or (inside and (k or s.stop != ('loop', inside[0]))) or not inside and loop:
                    raise Unclear(f'{i.where()}: appended')
                j = (at + P(k)).const()
                x = X.val(s, s.v.mem(l, 8, i))
                out[('elem', int(j)) if j is not None else ('elem', (('elem', RESULT, fz(at + P(k))), 0))] = x
                self.modelled.add(i.id)
                k += 1
                if not loop:
                    out[('length',)] = P(k)
            elif i.id in self.modelled and n == 'std::vector::vector' and len(i.ops) == 2 and X.T(X.b.place(s.v.loc(i.ops[0]))) == RESULT:
                out[('length',)] = X.T(atom(('size', X.b.place(s.v.loc(i.ops[1])))))
            elif n == 'std::vector::vector' and len(i.ops) >= 3 and X.f.is_ptr(i.ops[1]) and X.f.is_ptr(i.ops[2]) and X.T(X.b.place(s.v.loc(i.ops[0]))) == RESULT:
                a, b = s.v.loc(i.ops[1]), s.v.loc(i.ops[2])
                if a is None or b is None or a[0] != b[0] or 'double' not in i.callee + (i.cd or ''):
                    raise Unclear(f'{i.where()}: copied')
                n = (b[1] - a[1]) // 8
                for j in range(n):
                    out[('elem', j)] = X.val(s, s.v.mem((a[0], a[1] + 8 * j), 8, i))
                out[('length',)] = P(n)
        if self.words == 'vec' and loop and s.start == 0 and X.appends:
            (h,) = X.appends if len(X.appends) == 1 else (None,)
            w = X.b.walks.get(h)
            if w is not None and s.stop == ('loop', h):
                out[('length',)] = X.T(w.hi) - X.T(w.lo)

    def appending(self, X):
        """loops that append to the result once per round"""
        X.appends = set()
        for h, body in X.f.loops().items():
            for s in X.b.segs:
                if s.start in body and any(i.callee and sa.canon_callee(i.callee) in ('std::vector::push_back', 'std::vector::emplace_back') for i in s.v.on_path(('call', 'invoke'))):
                    X.appends.add(h)

    def results(self, X, s, side):
        """what the stretch makes visible: result words, elements, lengths"""
        out = {}
        X.at(s)
        for i in s.v.on_path(('store',)):
            l = s.v.loc(i.ops[1])
            if l is None:
                out[('odd', i.id)] = None
                continue
            l = X.T(X.b.place(l))
            if l[0][0] in ('elem', 'idx') and (l[0][1][0] not in (('alloca',),) or True):
                out[('elem', l)] = X.val(s, s.v.n(i.ops[0]))
        if self.words == 'vec':
            self.appended(X, s, out)
            for i in s.v.on_path(('call', 'invoke')):
                if not i.callee or not re.match(r'std::vector<double.*>::vector$', i.callee) or len(i.ops) < 3:
                    continue
                if X.f.is_ptr(i.ops[1]) and not X.f.is_ptr(i.ops[2]):
                    # made of a list of values
                    n = s.v.n(i.ops[2])
                    n = n.const() if isinstance(n, P) else None
                    l = s.v.loc(i.ops[1])
                    if n is None or l is None:
                        raise Unclear(f'{i.where()}: list')
                    out[('length',)] = P(int(n))
                    for k in range(int(n)):
                        out[('elem', k)] = X.val(s, s.v.mem((l[0], l[1] + 8 * k), 8, i))
                elif not X.f.is_ptr(i.ops[1]):
                    out[('length',)] = X.val(s, s.v.n(i.ops[1]))
            for k in [k for k in out if k[0] == 'elem' and isinstance(k[1], tuple)]:
                e = k[1][0]
                if k[1][1] == 0 and e[0] == 'elem' and e[1] == RESULT:
                    j = unfz(e[2]).const()
                    if j is not None:
                        out[('elem', int(j))] = out.pop(k)
        if s.stop == ('ret',):
            if self.words in ('scalar', 'bool'):
                r = X.val(s, s.ret())
                if isinstance(r, tuple) and r[:1] == ('cond',):
                    r = atom(r)
                if self.words == 'bool' and isinstance(r, P) and r.const() == -1:
                    r = P(1)
                out[('ret',)] = r
            elif isinstance(self.words, int):
                r = list(s.v.on_path(('ret',)))[-1]
                for k in range(self.words):
                    out[('word', k)] = X.val(s, s.v.mem((('arg', 0), 8 * k), 8, r))
        return out


def noise(l):
    return 'function::operator bool' in str(l) or 'malloc' in str(l) or "('new',)" in str(l)
