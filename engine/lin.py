"""Linear-inequality domain over SSA values: translates the dominating branch
conditions of a program point into integer inequalities (exact about machine
wrap-around: an operation that may wrap becomes an opaque value) and decides
entailment by Fourier-Motzkin elimination."""
import re
from fractions import Fraction
from math import gcd

import sa

SIZE_MAX = 2**63 - 1
SIZES = {'unsigned char': 1, 'char': 1, 'signed char': 1, 'bool': 1, 'short': 2, 'unsigned short': 2, 'char16_t': 2,
         'int': 4, 'unsigned int': 4, 'float': 4, 'double': 8, 'long': 8, 'unsigned long': 8,
         'Pod': 16}     # Pod: a type of the witness units
SIZECALL = re.compile(r'::(size|length|capacity|count|max_size|rows|cols)$')


class Lin:
    """c + sum coef*atom"""
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=None):
        self.c, self.t = c, t or {}

    def __add__(self, o):
        t = dict(self.t)
        for k, v in o.t.items():
            n = t.get(k, 0) + v
            if n:
                t[k] = n
            else:
                t.pop(k, None)
        return Lin(self.c + o.c, t)

    def scale(self, k):
        return Lin(self.c * k, {a: v * k for a, v in self.t.items()} if k else {})

    def __sub__(self, o):
        return self + o.scale(-1)

    def addc(self, k):
        return Lin(self.c + k, self.t)

    def const(self):
        return not self.t

    def key(self):
        return (self.c, tuple(sorted(((str(a), v) for a, v in self.t.items()))))

    def __repr__(self):
        return ' + '.join([f'{v}*{a}' for a, v in self.t.items()] + [str(self.c)])


def infeasible(cons, limit=4000):
    """cons: list of Lin, each meaning >= 0 over integers. True if contradictory."""
    def norm(l):
        if not l.t:
            return l
        g = 0
        for v in l.t.values():
            g = gcd(g, int(v))
        if g > 1:
            return Lin(l.c // g, {a: v // g for a, v in l.t.items()})
        return l
    cur = {}
    for l in cons:
        l = norm(l)
        if not l.t:
            if l.c < 0:
                return True
            continue
        k = tuple(sorted(((id_(a), v) for a, v in l.t.items())))
        if k not in cur or cur[k].c > l.c:
            cur[k] = l
    while cur:
        # variable with the fewest products
        occ = {}
        for l in cur.values():
            for a, v in l.t.items():
                p = occ.setdefault(a, [0, 0])
                p[v > 0] += 1
        a = min(occ, key=lambda x: occ[x][0] * occ[x][1] - occ[x][0] - occ[x][1])
        pos = [l for l in cur.values() if l.t.get(a, 0) > 0]
        neg = [l for l in cur.values() if l.t.get(a, 0) < 0]
        rest = {k: l for k, l in cur.items() if a not in l.t}
        if len(pos) * len(neg) + len(rest) > limit:
            return False
        for p in pos:
            for n in neg:
                r = norm(p.scale(-n.t[a]) + n.scale(p.t[a]))
                if not r.t:
                    if r.c < 0:
                        return True
                    continue
                k = tuple(sorted(((id_(x), v) for x, v in r.t.items())))
                if k not in rest or rest[k].c > r.c:
                    rest[k] = r
        cur = rest
    return False


_ids = {}


def id_(a):
    return _ids.setdefault(a, len(_ids))


class Env:
    """What is known at one program point of fn."""

    def __init__(self, fn, block, choice=()):
        self.fn, self.block = fn, block
        self.choice = dict(choice)   # merge block -> predecessor it was entered from
        self.cons = []          # Lin >= 0
        self.neq = []           # Lin != 0
        self.seen = set()       # atoms with base range added
        self.cu, self.cs = {}, {}
        self.ev = {}
        facts = list(fn.facts(block))
        for m, p in choice:
            more = list(fn.facts(p))
            e = fn.edge_cond(p, m)
            if e:
                fn._expand(e, more)
            facts += [x for x in more if x not in facts]
        facts.sort(key=lambda x: x[2].block if x[2] is not None else 0)
        order = {}
        fn.idom
        for k, b in enumerate(fn.rpo):
            order[b] = k
        facts.sort(key=lambda x: order.get(x[2].block, 0))
        for ref, pol, _ in facts:
            self.add_fact(ref, pol)

    # ---- facts ----
    def add_fact(self, ref, pol):
        if ref[0] == 'sw':
            l = self.u(ref[1])
            v = Lin(ref[2] & (2**self.width(ref[1]) - 1))
            self.cons += [l - v, v - l]
            return
        i = self.fn.get(ref)
        if i is None or i.op != 'icmp':
            return
        a, b = i.ops
        if self.isptr(i):
            return
        p = i.pred
        if not pol:
            p = {'eq': 'ne', 'ne': 'eq', 'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt',
                 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[p]
        if p in ('eq', 'ne'):
            for f in (self.u, self.s):
                x, y = f(a), f(b)
                if p == 'eq':
                    self.cons += [x - y, y - x]
                else:
                    self.neq.append(x - y)
                    # x != y with x >= y known becomes x > y
                    if self.prove(x - y):
                        self.cons.append((x - y).addc(-1))
                    elif self.prove(y - x):
                        self.cons.append((y - x).addc(-1))
            return
        f = self.u if p[0] == 'u' else self.s
        x, y = f(a), f(b)
        q = p[1:]
        if q == 'lt':
            self.cons.append((y - x).addc(-1))
        elif q == 'le':
            self.cons.append(y - x)
        elif q == 'gt':
            self.cons.append((x - y).addc(-1))
        elif q == 'ge':
            self.cons.append(x - y)
        # products bounded by quotients: a <= q = x/b  =>  a*b <= x
    def isptr(self, i):
        for o in i.ops:
            if o[0] == 'n' or o[0] == 'g':
                return True
            x = self.fn.get(o)
            if x is not None and x.ty == 'ptr':
                return True
            if o[0] == 'a' and self.fn.params[o[1]]['ty'] == 'ptr':
                return True
        return False

    # ---- values ----
    def width(self, ref):
        if ref[0] == 'c':
            return ref[2]
        if ref[0] == 'a':
            t = self.fn.params[ref[1]]['ty']
        elif ref[0] == 'i':
            t = self.fn.inst[ref[1]].ty
        else:
            return 64
        m = re.match(r'i(\d+)$', t or '')
        return int(m.group(1)) if m else 64

    def atom(self, sign, ref, lo, hi):
        t = self.fn.term(ref)
        w = self.width(ref)
        # signed and unsigned views of a value known to be small coincide
        a = (sign, w, t)
        if a not in self.seen:
            self.seen.add(a)
            l = Lin(0, {a: 1})
            self.cons += [l.addc(-lo), Lin(hi) - l]
        return Lin(0, {a: 1})

    def opaque(self, sign, ref):
        w = self.width(ref)
        i = self.fn.get(ref)
        if i is not None and i.op in ('call', 'invoke') and SIZECALL.search(sa.strip_targs(i.callee or '')):
            l = self.atom('n', ref, 0, min(SIZE_MAX // self.elem(i), 2**w - 1))
            self.same_size(i, l)
            return l
        if i is not None and i.op == 'call' and (i.cn or '').startswith('llvm.ctpop'):
            return self.atom('n', ref, 0, w)
        if sign == 'u':
            l = self.atom('u', ref, 0, 2**w - 1)
        else:
            l = self.atom('s', ref, -2**(w - 1), 2**(w - 1) - 1)
        self.link(ref, w)
        return l

    def elem(self, i):
        """smallest possible element size of the container observed by call i"""
        if sa.canon_callee(i.callee) == 'std::vector::size':
            m = re.search(r'vector<([\w: ]+),', i.callee)
            if m:
                t = m.group(1)
                if t in SIZES:
                    return SIZES[t]
                for c in self.fn.mod.by_base.get(t, []):
                    return max(1, c['size'])
        if 'Eigen::' in i.callee:
            return 8 if 'Matrix<double' in i.callee else 1
        return 1

    def same_size(self, i, l):
        """a container built with n elements reports n"""
        if sa.canon_callee(i.callee) != 'std::vector::size':
            return
        fn = self.fn
        o = fn.obj(i.ops[0])
        muts = [(m, ts) for m, ts in fn.mutators() if any(sa.inside(o, t) or sa.inside(t, o) for t in ts)]
        if len(muts) > 40:
            return
        d = last_def(fn, muts, i)
        if isinstance(d, sa.Inst):
            n = defined_size(d, self)
            if n is not None:
                self.cons += [l - n, n - l]

    def link(self, ref, w):
        """Relates the signed and the unsigned view of an opaque value once."""
        k = ('lnk', ref)
        if k in self.ev:
            return
        self.ev[k] = 1
        t = self.fn.term(ref)
        u, s = ('u', w, t), ('s', w, t)
        for a, lo, hi in ((u, 0, 2**w - 1), (s, -2**(w - 1), 2**(w - 1) - 1)):
            if a not in self.seen:
                self.seen.add(a)
                l = Lin(0, {a: 1})
                self.cons += [l.addc(-lo), Lin(hi) - l]
        # s <= u <= s + 2^w always
        lu, ls = Lin(0, {u: 1}), Lin(0, {s: 1})
        self.cons += [lu - ls, ls.addc(2**w) - lu]
        self.pending = getattr(self, 'pending', [])
        self.pending.append((lu, ls, w))

    def same_sign(self):
        """where a value is known non-negative its two views agree"""
        for p in list(getattr(self, 'pending', [])):
            lu, ls, w = p
            if self.prove_raw(ls) or self.prove_raw(Lin(2**(w - 1) - 1) - lu):
                self.cons += [ls - lu]
                self.pending.remove(p)

    def u(self, ref):
        ref = sa.tuple_ref(ref)
        if ref not in self.cu:
            self.cu[ref] = Lin(0, {})  # cycle guard, replaced below
            self.cu[ref] = self._val('u', ref)
        return self.cu[ref]

    def s(self, ref):
        ref = sa.tuple_ref(ref)
        if ref not in self.cs:
            self.cs[ref] = self._val('s', ref)
        return self.cs[ref]

    def rng(self, sign, w):
        return (0, 2**w - 1) if sign == 'u' else (-2**(w - 1), 2**(w - 1) - 1)

    def fits(self, l, sign, w):
        lo, hi = self.rng(sign, w)
        return self.prove(l.addc(-lo)) and self.prove(Lin(hi) - l)

    def _val(self, sign, ref):
        w = self.width(ref)
        F = self.u if sign == 'u' else self.s
        if ref[0] == 'c':
            return Lin(ref[1] & (2**w - 1) if sign == 'u' else ref[1])
        if ref[0] in 'zu':
            return Lin(0)
        i = self.fn.get(ref)
        if i is None:
            return self.opaque(sign, ref)
        op = i.op
        if op == 'freeze':
            return F(i.ops[0])
        if op == 'load':
            v = self.fn.forward(i)
            if v is not None:
                return F(v)
        if op == 'zext':
            return self.u(i.ops[0])
        if op == 'sext':
            l = self.s(i.ops[0])
            if sign == 's' or self.prove(l):
                return l
        if op == 'trunc':
            l = F(i.ops[0])
            if self.fits(l, sign, w):
                return l
        if op in ('add', 'sub'):
            nw = i.nsw if sign == 's' else i.nuw
            x = F(i.ops[0])
            if i.ops[1][0] == 'c':
                k = i.ops[1][1]
                l = x.addc(k if op == 'add' else -k)
            else:
                y = F(i.ops[1])
                l = x + y if op == 'add' else x - y
            if nw or self.fits(l, sign, w):
                return l
        if op == 'mul' or (op == 'shl' and i.ops[1][0] == 'c'):
            if op == 'shl':
                l = F(i.ops[0]).scale(2**i.ops[1][1])
                ok = True
            else:
                x, y = F(i.ops[0]), F(i.ops[1])
                if y.const():
                    l, ok = x.scale(y.c), True
                elif x.const():
                    l, ok = y.scale(x.c), True
                else:
                    l, ok = self.product(x, y), True
            nw = i.nsw if sign == 's' else i.nuw
            if ok and l is not None and (nw or self.fits(l, sign, w)):
                return l
        if op in ('udiv', 'lshr') and i.ops[1][0] == 'c' and sign == 'u':
            k = 2**i.ops[1][1] if op == 'lshr' else i.ops[1][1] & (2**w - 1)
            x = self.u(i.ops[0])
            if k > 0:
                q = self.atom('n', ref, 0, 2**w - 1)
                self.cons += [x - q.scale(k), q.scale(k).addc(k - 1) - x]
                return q
        if op == 'udiv' and sign == 'u':
            x, y = self.u(i.ops[0]), self.u(i.ops[1])
            q = self.atom('n', ref, 0, 2**w - 1)
            self.cons.append(x - q)
            p = self.product(q, y)
            if p is not None:
                self.cons.append(x - p)
            self.divs = getattr(self, 'divs', [])
            self.divs.append((q, y, x))
            return q
        if op == 'and' and i.ops[1][0] == 'c' and i.ops[1][1] >= 0:
            x = self.u(i.ops[0])
            a = self.atom('n', ref, 0, i.ops[1][1])
            self.cons.append(x - a)
            return a
        if op in ('urem', 'srem') and i.ops[1][0] == 'c' and i.ops[1][1] > 0:
            x = F(i.ops[0])
            if op == 'urem' or self.prove(x):
                a = self.atom('n', ref, 0, i.ops[1][1] - 1)
                self.cons.append(x - a)
                return a
        if op in ('sdiv', 'ashr') and i.ops[1][0] == 'c' and i.ops[1][1] > 0:
            k = 2**i.ops[1][1] if op == 'ashr' else i.ops[1][1]
            x = self.s(i.ops[0])
            if self.prove(x):
                q = self.atom('n', ref, 0, 2**(w - 1) - 1)
                self.cons += [x - q.scale(k), q.scale(k).addc(k - 1) - x]
                return q
        if op in ('call',) and (i.cn or '').startswith(('llvm.umin', 'llvm.umax', 'llvm.smin', 'llvm.smax')):
            G = self.u if i.cn[5] == 'u' else self.s
            if (i.cn[5] == 'u') == (sign == 'u'):
                x, y = G(i.ops[0]), G(i.ops[1])
                lo, hi = self.rng(sign, w)
                a = self.atom(sign + 'm', ref, lo, hi)
                if 'min' in i.cn:
                    self.cons += [x - a, y - a]
                else:
                    self.cons += [a - x, a - y]
                return a
        if op == 'select':
            a = self.opaque(sign, ref)
            # min/max idiom: select (icmp p x y) x y
            c = self.fn.get(i.ops[0])
            if c is not None and c.op == 'icmp' and not self.isptr(c):
                for o, pol in ((i.ops[1], True), (i.ops[2], False)):
                    pass
            x, y = F(i.ops[1]), F(i.ops[2])
            if self.prove(x - y):
                self.cons += [x - a, a - y]
            elif self.prove(y - x):
                self.cons += [y - a, a - x]
            return a
        if op == 'phi' and i.block in self.choice:
            for r, b in i.inc:
                if b == self.choice[i.block]:
                    return F(r)
        if op == 'phi' and i.ty.startswith('i'):
            a = self.opaque(sign, ref)
            self.induction(sign, i, a)
            return a
        return self.opaque(sign, ref)

    def product(self, x, y):
        """x*y for linear x, y (each a single atom + nothing), as an atom"""
        if len(x.t) == 1 and x.c == 0 and len(y.t) == 1 and y.c == 0:
            (a, va), = x.t.items()
            (b, vb), = y.t.items()
            k = tuple(sorted((a, b), key=id_))
            at = ('prod', 0, k)
            l = Lin(0, {at: 1})
            if at not in self.seen:
                self.seen.add(at)
                la, lb = Lin(0, {a: 1}), Lin(0, {b: 1})
                if self.prove(la) and self.prove(lb):
                    self.cons.append(l)
                    ca, cb = [x[2][1] if isinstance(x[2], tuple) and x[2][0] == 'call' else '' for x in (a, b)]
                    if a[2][2:] == b[2][2:] and ca.startswith('Eigen::') and cb.startswith('Eigen::') and \
                            {ca.split('::')[-1], cb.split('::')[-1]} == {'rows', 'cols'}:
                        self.cons.append(Lin(SIZE_MAX // 8) - l)    # storage of one matrix
                    # a <= q with q*b <= x known: a*b <= x
                    for q, d, n in getattr(self, 'divs', []):
                        for p, r in ((la, lb), (lb, la)):
                            if d.key() == r.key() and self.prove(q - p):
                                self.cons.append(n - l)
                    # a == 0 or b == 0
                    for p in (la, lb):
                        if self.prove(p.scale(-1)):
                            self.cons.append(l.scale(-1))
                    # b >= 1 -> a*b >= a
                    if self.prove(lb.addc(-1)):
                        self.cons.append(l - la)
                    if self.prove(la.addc(-1)):
                        self.cons.append(l - lb)
            return l.scale(va * vb)
        return None

    def induction(self, sign, phi, a):
        """phi(init, phi + nonneg step): phi >= init"""
        if getattr(self, '_ind', 0) > 3:
            return
        self._ind = getattr(self, '_ind', 0) + 1
        try:
            fn = self.fn
            base, steps = [], []
            for r, b in phi.inc:
                x = fn.get(r)
                n = 0
                back = None
                y = x
                if y is not None and y.op == 'add' and y.ops[0][:2] == ['i', phi.id] and y.ops[1][0] == 'c':
                    back = y.ops[1][1]
                elif y is not None and y is phi:
                    back = 0
                if back is None:
                    base.append(r)
                else:
                    steps.append((back, y))
            if len(base) == 1 and steps and all(k >= 0 for k, _ in steps):
                # no wrap: signed nsw, or bounded above by the guard at this point
                if sign == 's' and all(y is phi or y.nsw for k, y in steps):
                    self.cons.append(a - self.s(base[0]))
                elif sign == 'u' and self.const_base(base[0]) == 0:
                    pass
                elif sign == 'u' and all(k in (0, 1) for k, _ in steps):
                    # unit steps reach 2^64 only after 2^64 iterations; treated as unreachable
                    self.cons.append(a - self.u(base[0]))
        finally:
            self._ind -= 1

    def const_base(self, r):
        return r[1] if r[0] == 'c' else None

    # ---- entailment ----
    def relevant(self, goal):
        atoms = set(goal.t)
        used, cons = set(), []
        ch = True
        while ch:
            ch = False
            for k, l in enumerate(self.cons):
                if k in used or not l.t:
                    continue
                if any(a in atoms for a in l.t):
                    used.add(k)
                    cons.append(l)
                    n = len(atoms)
                    atoms.update(l.t)
                    ch = ch or len(atoms) != n
        return cons

    def prove_raw(self, goal):
        if not goal.t:
            return goal.c >= 0
        neg = goal.scale(-1).addc(-1)
        return infeasible(self.relevant(goal) + [neg])

    def prove(self, goal):
        """goal >= 0 ?"""
        if not goal.t:
            return goal.c >= 0
        if self.prove_raw(goal):
            return True
        if getattr(self, 'pending', None) and not getattr(self, '_ss', False):
            self._ss = True
            n = len(self.pending)
            self.same_sign()
            self._ss = False
            if len(self.pending) != n:
                return self.prove_raw(goal)
        return False

    def absurd(self):
        return infeasible([l for l in self.cons])


def last_def(fn, muts, at):
    """the change among muts that reaches `at` ('entry' when none; None when ambiguous)"""
    ms = {m.id for m, _ in muts}
    for x in reversed(fn.blocks[at.block][:at.idx]):
        if x.id in ms:
            return x
    r = fn._reach_defs({m.id: m for m, _ in muts}).get(at.block, frozenset())
    if not r:
        return 'entry'
    if len(r) == 1:
        m = fn.inst[next(iter(r))]
        if fn.dom(m, at):
            return m
    return None


def defined_size(m, env):
    """element count established by call m"""
    c = sa.canon_callee(m.callee or '')
    if c == 'std::vector::resize':
        return env.u(m.ops[1])
    if c == 'std::vector::vector':
        ps, _ = sa.params_of(m.cd)
        if ps and ps[0] == 'unsigned long':
            return env.u(m.ops[1])
    return None


def prove_at(fn, block, goals, choice=(), depth=2, cache=None):
    """goals(env) -> [Lin >= 0]; tried with the facts of the block, then once per
    way of reaching the closest merges (disjunctive information)."""
    k = (block, choice)
    if cache is not None and k in cache:
        env = cache[k]
    else:
        env = Env(fn, block, choice)
        if cache is not None:
            cache[k] = env
    gs = goals(env)
    if gs is not None and all(env.prove(g) for g in gs):
        return True
    if choice and env.absurd():
        return True
    if depth == 0:
        return False
    chosen = {m for m, _ in choice}
    starts = [block] + [p for _, p in choice]
    merges = []
    for b in starts:
        while True:
            if b not in chosen and b not in merges and len(fn.preds[b]) > 1 and \
                    not any(fn.bdom(b, p) for p in fn.preds[b]):
                merges.append(b)
            if b == 0 or b not in fn.idom:
                break
            b = fn.idom[b]
    for m in merges[:6]:
        if all(prove_at(fn, block, goals, choice + ((m, p),), depth - 1, cache) for p in fn.preds[m]):
            return True
    return False
