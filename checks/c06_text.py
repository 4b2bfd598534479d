"""Base64: table look-ups, buffer positions and the composition of decoding with encoding.
The functions are evaluated over residue classes of the input length: lengths 3q+r and
4q+r with q unbounded, positions as linear terms in q and the block number t."""
import re

import sa
from codec import P, atom
from flow import atom1
from paths import resolve, segments
from sa import tuple_ref
from val import fz, unfz

Q, T = ('q',), ('t',)


class Und(Exception):
    pass


class Wrap(Und):
    pass


class Fork(Exception):
    def __init__(self, key):
        self.key = key


def coef(p):
    """constant, coefficient of q, coefficient of t"""
    c = [0, 0, 0]
    for k, v in p.d.items() if hasattr(p, 'd') else fz(p)[1]:
        if k == ():
            c[0] = v
        elif k == (Q,):
            c[1] = v
        elif k == (T,):
            c[2] = v
        else:
            raise Und(f'term {str(p)[:80]}')
    return c


def nonneg(p):
    """p >= 0 for all q, t >= 0: True, False (never) or None"""
    a, b, c = coef(p)
    if min(a, b, c) >= 0:
        return True
    if a < 0 and b <= 0 and c <= 0:
        return False
    return None


class Bits:
    """bits of the values of a segment, each a constant or a bit of an input element or table entry"""
    def __init__(self, f, s, tables, see):
        self.f, self.s, self.v, self.tables, self.see, self.memo = f, s, s.v, tables, see, {}

    def of(self, ref, n, depth=0):
        r = resolve(self.f, tuple_ref(ref), self.v.path, self.v.choice)
        if r[0] == 'c':
            return [('k', (r[1] >> j) & 1) for j in range(n)]
        i = self.f.get(r) if r[0] == 'i' else None
        if i is None or depth > 60:
            return [('?', str(r), j) for j in range(n)]
        if i.id not in self.memo:
            self.memo[i.id] = self.inst(i, depth + 1)
        x = self.memo[i.id]
        return (x + [('k', 0)] * n)[:n]

    def width(self, ty):
        m = re.match(r'i(\d+)$', ty or '')
        return int(m.group(1)) if m else 64

    def inst(self, i, d):
        n = self.width(i.ty)
        op = i.op
        unk = [('?', i.id, j) for j in range(n)]
        if op in ('zext', 'trunc', 'freeze'):
            src = i.ops[0]
            return self.of(src, n, d)
        if op == 'sext':
            j = self.f.get(resolve(self.f, tuple_ref(i.ops[0]), self.v.path, self.v.choice))
            w = self.width(j.ty) if j is not None else n
            x = self.of(i.ops[0], w, d)
            return x + [x[-1]] * (n - w)
        if op in ('and', 'or', 'xor', 'add'):
            x, y = self.of(i.ops[0], n, d), self.of(i.ops[1], n, d)
            out = []
            for p, q in zip(x, y):
                if p[0] == 'k':
                    p, q = q, p
                if q[0] == 'k':
                    if op == 'and':
                        out.append(p if q[1] else ('k', 0))
                    elif op == 'or':
                        out.append(('k', 1) if q[1] else p)
                    elif q[1] == 0:
                        out.append(p)
                    else:
                        return unk if op == 'add' else out + [('?', i.id, len(out))] + unk[len(out) + 1:]
                elif p == q and op in ('and', 'or'):
                    out.append(p)
                elif op == 'add':
                    return unk
                else:
                    out.append(('?', i.id, len(out)))
            return out
        if op in ('shl', 'lshr', 'ashr', 'mul', 'udiv', 'urem'):
            c = resolve(self.f, tuple_ref(i.ops[1]), self.v.path, self.v.choice)
            if c[0] != 'c':
                return unk
            k = c[1]
            if op in ('mul', 'udiv', 'urem'):
                if k <= 0 or k & (k - 1):
                    return unk
                k = k.bit_length() - 1
            x = self.of(i.ops[0], n, d)
            if op in ('shl', 'mul'):
                return ([('k', 0)] * k + x)[:n]
            if op == 'urem':
                return x[:k] + [('k', 0)] * (n - k)
            return x[k:] + [x[-1] if op == 'ashr' else ('k', 0)] * k
        if op == 'load':
            return self.load(i, n, d) or unk
        return unk

    def load(self, i, n, d):
        l = self.v.loc(i.ops[0])
        if l is None:
            return None
        root = l[0]
        if root[0] == 'elem' and n == 8 and l[1] == 0:
            return [('v', root[1], root[2], j) for j in range(8)]
        if root[0] == 'alloca':
            st = None
            for k in self.v.on_path(('store', 'load')):
                if k is i:
                    break
                if k.op == 'store' and self.v.loc(k.ops[1]) == l:
                    st = k
            return self.of(st.ops[0], n, d) if st is not None else None
        g = table_of(l)
        if g is None or g not in self.tables:
            return None
        tb, vals = self.tables[g]
        idx = self.index(i, tb // 8, d)
        if idx is None or tb != n:
            self.see(i, g, None, len(vals))
            return None
        top = sum(1 << j for j, b in enumerate(idx) if b != ('k', 0))
        self.see(i, g, top, len(vals))
        low = [b for b in idx if b != ('k', 0)]
        out = []
        for j in range(n):
            if not any((v >> j) & 1 for v in vals):
                out.append(('k', 0))
            elif len(low) == 8 and low[0][0] == 'v' and all(low[k] == ('v', low[0][1], low[0][2], k) for k in range(8)) and idx[:8] == low:
                out.append(('t', g, low[0][1], low[0][2], j))
            else:
                out.append(('sym', g, tuple(idx[:6]), j) if top < 64 else ('?', i.id, j))
        return out

    def index(self, i, size, d):
        """bits of the table index"""
        b, off, var = self.f.ptr(i.ops[0])
        if off % size:
            return None
        if not var:
            return self.of(('c', off // size), 64, d)
        if len(var) != 1 or off:
            return None
        x = var[0]
        ref, scale = (x[0], x[1]) if isinstance(x[1], int) else (x[1], x[0])
        if scale != size:
            return None
        j = self.f.get(resolve(self.f, tuple_ref(ref), self.v.path, self.v.choice))
        w = self.width(j.ty) if j is not None else 64
        z = self.of(ref, w, d)
        return z + [z[-1]] * (64 - w)


def table_of(l):
    r = l[0]
    if r[0] == 'idx':
        r = r[1][0]
    return r[1] if r[0] == 'g' else None


class Eval:
    """one residue class of the input length: n is the length of the input"""
    def __init__(self, f, segs, tables, see, n, facts):
        self.f, self.segs, self.tables, self.see = f, segs, tables, see
        self.n, self.facts = n, dict(facts)
        self.env, self.calls, self.length = {}, {}, {}
        self.events = []            # (kind, object, index, count of blocks or None, value bits, instruction)
        self.src = (('arg', 1), 0)
        self.t = None               # blocks of the loop being walked
        self.moved = {}

    # ---- terms
    def ev(self, t):
        if not isinstance(t, P):
            t = atom(t)
        out = P(0)
        for k, v in fz(t)[1]:
            m = P(v)
            for a in k:
                m = m * self.at(a)
            out = out + m
        return out

    def at(self, a):
        if a in (Q, T):
            return atom(a)
        if a in self.env:
            return self.env[a]
        if a in self.calls:
            return self.calls[a]
        if a[0] in ('div', 'rem') and len(a) >= 3:
            num, den = self.ev(unfz(a[1])), self.ev(unfz(a[2])).const()
            if not den or den <= 0 or den != int(den):
                raise Und('division')
            c = coef(num)
            if nonneg(num) is False:
                raise Wrap(f'{num} wraps around')
            if c[1] % den or c[2] % den or nonneg(num) is not True:
                raise Und(f'division of {num}')
            if a[0] == 'rem':
                return P(c[0] % den)
            return P(c[0] // den) + P(c[1] // den) * atom(Q) + P(c[2] // den) * atom(T)
        if a[0] == 'cond':
            return P(1 if self.true(a[1]) else 0)
        if a[0] in ('zext', 'sext') or a[0] == 'trunc' and len(a) == 3:
            return self.ev(unfz(a[-1]))
        if a[0] in ('call', 'callv') and re.search(r'::(size|length)$', str(a[1])) and fz(atom(a)) in self.calls:
            return self.calls[fz(atom(a))]
        raise Und(f'term {str(a)[:100]}')

    def char(self, p):
        """(key, code) when p == 0 compares a character of the input to a constant"""
        c, key, sign = 0, None, 0
        for k, v in fz(p)[1]:
            if k == ():
                c = v
            elif len(k) == 1 and k[0][0] in ('m', 'mphi') and isinstance(k[0][-1], tuple) and k[0][-1][0][0] == 'elem' and \
                    k[0][-1][0][1] == self.src and abs(v) == 1:
                key, sign = k[0][-1][0][2], v
            else:
                return None
        return None if key is None else (key, -c * sign)

    def true(self, l):
        k = l[0]
        if k == 'not':
            return not self.true(l[1])
        if k in ('and', 'or'):
            r = [self.true(x) for x in (l[1] if isinstance(l[1], (list, tuple)) and l[1] and isinstance(l[1][0], tuple) else l[1:])]
            return all(r) if k == 'and' else any(r)
        if k == 'bool':
            v = self.ev(unfz(l[1])).const()
            if v is None:
                raise Und('condition')
            return bool(v) == l[2]
        if k in ('eq', 'ne'):
            p = unfz(l[1])
            ch = self.char(p)
            if ch:
                if ch[1] != 61:
                    raise Und('comparison of a character')
                key = fz(self.ev(unfz(ch[0])))
                if key not in self.facts:
                    raise Fork(key)
                return self.facts[key] == (k == 'eq')
            d = self.ev(p)
            if d.const() is not None:
                return (d.const() == 0) == (k == 'eq')
            if nonneg(d - P(1)) is True or nonneg(P(0) - d - P(1)) is True:
                return k == 'ne'
            raise Und(f'condition {d} = 0')
        if k in ('uge', 'ge'):
            d = self.ev(unfz(l[1]))
            r = nonneg(d)
            if r is None:
                raise Und(f'condition {d} >= 0')
            return r
        raise Und(f'condition {k}')

    # ---- walking
    def run(self):
        s = self.pick(0)
        for _ in range(8):
            try:
                self.walk(s)
            except Wrap as e:
                e.walked = True
                raise
            self.joined(s)
            if s.stop == ('ret',):
                return self
            if s.stop[0] == 'throw':
                raise Und('throws')
            h = s.stop[1]
            phis = [i for i in self.f.blocks[h] if i.op == 'phi']
            self.env.update({('phi', i.id): self.nx(s, i) for i in phis if i.ty != 'ptr'})
            s = self.loop(h, phis)
        raise Und('too many loops')

    def nx(self, s, i):
        try:
            return self.ev(s.next(i))
        except Und:
            for r, b in i.inc:
                if b == s.v.path[-1]:
                    x = Bits(self.f, s, self.tables, lambda *a: None).of(r, 64)
                    if all(k[0] == 'k' for k in x):
                        return P(sum(k[1] << j for j, k in enumerate(x)))
            raise

    def pick(self, h):
        ok = [s for s in self.segs if s.start == h and s.stop != ('loop', h) and self.holds(s)]
        if len(ok) != 1:
            raise Und(f'{len(ok)} ways on')
        return ok[0]

    def holds(self, s):
        err = fork = None
        try:
            self.prescan(s)
        except Fork as e:
            fork = e
        except Und as e:
            err = None if isinstance(e, Wrap) else e
        for l in s.lits:
            try:
                if not self.true(l):
                    return False
            except Fork as e:
                fork = e
            except Und as e:
                err = e
        if fork or err:
            raise fork or err
        return True

    def prescan(self, s):
        """lengths that calls on the way read, so that the conditions can be evaluated"""
        ln = dict(self.length)
        self.calls = dict(self.calls)
        for i in s.v.on_path(('call', 'invoke')):
            self.call(s, i, ln)

    def call(self, s, i, ln, emit=None):
        q = i.callee or ''
        k = 1 if i.sret else 0
        if len(i.ops) <= k or not self.f.is_ptr(i.ops[k]):
            return
        l = s.v.loc(i.ops[k])
        if l is None:
            return
        last = sa.strip_targs(q).split('::')[-1]
        if not q.startswith('std::'):
            return
        if last in ('size', 'length'):
            n = self.n if l == self.src else ln.get(l)
            if n is not None:
                t = s.v.val(('i', i.id))
                a = atom1(t) if isinstance(t, P) else t
                if a:
                    self.calls[a] = n
        elif l == self.src:
            return
        elif last in ('vector', 'basic_string'):
            a = i.ops[k + 1:]
            if a and self.f.is_ptr(a[0]):
                o = s.v.loc(a[0])
                if o in ln:
                    ln[l] = ln[o]
                    if emit:
                        self.moved[l] = o
                else:
                    ln[l] = P(0)
            elif a:
                ln[l] = self.ev(s.v.val(a[0]))
            else:
                ln[l] = P(0)
        elif last in ('resize',) and l in ln:
            ln[l] = self.ev(s.v.val(i.ops[k + 1]))
        elif last in ('push_back', 'emplace_back', 'operator+=') and l in ln:
            if emit:
                emit(l, ln[l], i.ops[k + 1], i)
            ln[l] = ln[l] + P(1)
        elif last in ('insert', 'append', 'assign', 'erase', 'pop_back', 'clear', 'swap', 'operator='):
            raise Und(f'{last} on a buffer')

    def walk(self, s):
        b = Bits(self.f, s, self.tables, self.see)
        f, v = self.f, s.v

        def place(bits):
            out = []
            for x in bits:
                if x[0] == 'v':
                    x = ('v', x[1], fz(self.ev(unfz(x[2]))), x[3])
                elif x[0] == 't':
                    x = ('t', x[1], x[2], fz(self.ev(unfz(x[3]))), x[4])
                elif x[0] == 'sym':
                    x = ('sym', x[1], tuple(place(x[2])), x[3])
                out.append(x)
            return out

        def push(l, at, ref, i):
            if f.is_ptr(ref):
                o, st = v.loc(ref), None
                for k in v.on_path(('store', 'call', 'invoke')):
                    if k is i:
                        break
                    if k.op == 'store' and v.loc(k.ops[1]) == o:
                        st = k
                if st is None:
                    g = next((k for k in v.on_path(('load',)) if v.loc(k.ops[0]) == o), None)
                    bits = b.load(g, 8, 0) if g is not None else None
                    if bits is None:
                        raise Und('appended value')
                else:
                    bits = b.of(st.ops[0], 8)
            else:
                bits = b.of(ref, 8)
            self.events.append(('push', l, at, self.t, place(bits), i))

        for i in v.on_path(('load', 'store', 'call', 'invoke')):
            if i.op in ('call', 'invoke'):
                self.call(s, i, self.length, push)
                continue
            l = v.loc(i.ops[1 if i.op == 'store' else 0])
            if l is None:
                raise Und('an address')
            l = self.end_of(s, i, l)
            if i.op == 'store' and l[0][0] not in ('elem', 'alloca'):
                raise Und(f'a write to {str(l)[:60]}')
            if l[0][0] == 'elem':
                at = self.ev(unfz(l[0][2])) + P(l[1])
                if i.op == 'store':
                    self.events.append(('write', l[0][1], at, self.t, place(b.of(i.ops[0], 8)), i))
                else:
                    self.events.append(('read', l[0][1], at, self.t, None, i))
            elif i.op == 'load' and table_of(l) in self.tables:
                b.of(('i', i.id), b.width(i.ty))

    def end_of(self, s, i, l):
        """back() of a buffer is its last element"""
        j = self.f.get(self.f.ptr(i.ops[1 if i.op == 'store' else 0])[0])
        if j is not None and j.op in ('call', 'invoke') and (j.callee or '').startswith('std::') and (j.callee or '').endswith('::back') and l[1] == 0:
            o = s.v.loc(j.ops[0])
            n = self.n if o == self.src else self.length.get(o)
            if n is not None:
                return (('elem', o, fz(n - P(1))), 0)
        return l

    def joined(self, s):
        """values that later segments refer to by the phi they were joined in"""
        for b in s.v.path[1:]:
            for i in self.f.blocks[b]:
                if i.op == 'phi' and i.ty != 'ptr':
                    try:
                        t = s.v.val(('i', i.id))
                        x = self.ev(t if isinstance(t, P) else atom(t))
                        self.env['phi', i.id] = P(x.const() & 1) if i.ty == 'i1' and x.const() is not None else x
                    except Und:
                        pass

    def loop(self, h, phis):
        back = [s for s in self.segs if s.start == h and s.stop == ('loop', h)]
        if any(s.stop[0] == 'loop' and s.stop[1] != h and self.f.bdom(h, s.stop[1]) and s.stop[1] in self.f.loops()[h]
               for s in self.segs if s.start == h):
            raise Und('a loop within the loop')
        init = {('phi', i.id): self.env[('phi', i.id)] for i in phis if ('phi', i.id) in self.env}
        ln0 = dict(self.length)
        # steps
        if len(back) != 1:
            raise Und(f'{len(back)} ways around the loop')
        s = back[0]
        step = {}
        for i in phis:
            a = ('phi', i.id)
            if a not in init:
                continue
            d = s.next(i) - atom(a)
            k = d.const() if isinstance(d, P) else None
            if k is None:
                raise Und('a step that is not constant')
            step[a] = k
        grow = {}
        for i in s.v.on_path(('call', 'invoke')):
            last = sa.strip_targs(i.callee or '').split('::')[-1]
            if last in ('push_back', 'emplace_back', 'operator+=') and i.ops:
                l = s.v.loc(i.ops[0])
                if l in ln0:
                    grow[l] = grow.get(l, 0) + 1
            elif last in ('resize',):
                raise Und('resize in a loop')
        for a in init:
            self.env[a] = init[a] + P(step[a]) * atom(T)
        for l, k in grow.items():
            self.length[l] = ln0[l] + P(k) * atom(T)
        # number of blocks
        self.prescan(s)
        n = None
        for l in s.lits:
            if l[0] in ('uge', 'ge', 'eq', 'ne') and not self.char(unfz(l[1])):
                d = self.ev(unfz(l[1]))
                c = coef(d)
                if c[2]:
                    if l[0] in ('uge', 'ge') and c[2] < 0 and c[1] % -c[2] == 0:
                        k = P(c[1] // -c[2]) * atom(Q) + P((c[0] // -c[2]) + 1)
                    elif l[0] == 'ne' and c[1] % c[2] == 0 and c[0] % c[2] == 0 and nonneg(P(-c[0] // c[2]) + P(-c[1] // c[2]) * atom(Q)):
                        k = P(-c[0] // c[2]) + P(-c[1] // c[2]) * atom(Q)
                    else:
                        raise Und(f'loop condition {d}')
                    if nonneg(k) is not True:
                        raise Und(f'number of blocks {k}')
                    n = k if n is None else (n if nonneg(k - n) else k)
                    continue
            if not self.true(l):
                n = P(0)
        if n is None:
            raise Und('number of blocks')
        if n != P(0):
            self.t = n
            self.walk(s)
            self.t = None
        for a in init:
            self.env[a] = init[a] + P(step[a]) * n
        for l, k in ln0.items():
            self.length[l] = k + P(grow.get(l, 0)) * n
        return self.pick(h)


def forked(make, given=None):
    """all ways the unknown characters can turn out, and those that could not be evaluated"""
    todo, out, err = [dict(given or {})], [], []
    while todo:
        facts = todo.pop()
        try:
            out.append(make(facts).run())
        except Fork as e:
            if len(facts) > 5:
                err.append(Und('too many characters compared'))
            else:
                todo += [{**facts, e.key: True}, {**facts, e.key: False}]
        except Und as e:
            err.append(e)
    return out, err


def shift(p, k):
    """p at q = k (a number) or at q + 1 (None)"""
    c = coef(p)
    return P(c[0]) + P(c[1]) * (P(k) if k is not None else atom(Q) + P(1))


def pieces(make, n, depth=0):
    """[(length, runs, errors)]; a class that cannot be evaluated as one is split into its shortest length and the rest"""
    runs, errs = forked(lambda facts: make(n, facts))
    if errs and coef(n)[1] and depth < 3:
        return pieces(make, shift(n, 0), depth + 1) + pieces(make, shift(n, None), depth + 1)
    return [(n, runs, errs)]


def within(at, t, limit):
    """0 <= at < limit for every block: True or a text"""
    last = at
    if t is not None:
        c = coef(at)
        if c[2] < 0:
            raise Und('positions run backwards')
        last = P(c[0]) + P(c[1]) * atom(Q) + P(c[2]) * (t - P(1))
    first = at if t is None else P(coef(at)[0]) + P(coef(at)[1]) * atom(Q)
    if nonneg(first) is None or nonneg(limit - last - P(1)) is None and nonneg(limit - last) is not True:
        return None
    return nonneg(first) is True and nonneg(limit - last - P(1)) is True


def text(p):
    if isinstance(p, P) and p.const() is not None:
        return str(p.const())
    return str(p).replace("('q',)", 'q').replace("('t',)", 't')


def base64(c):
    m = c.work.load('text.cpp', r'base64_helpers::(De|En)code')
    fs = {}
    for f in m.fns:
        n = re.sub(r'\[abi:.*', '', f.qual.split('(')[0]).split('::')[-1]
        if n in ('Encode', 'Decode'):
            fs[n] = f
    if len(fs) != 2:
        raise sa.Broken('base64 functions not found')
    tables = m.tables
    look = {}
    q = atom(Q)
    make = {}
    for name, f in fs.items():
        c.saw(f)
        segs = segments(f, throws=True)
        if segs is None:
            c.unsure('block', name, 'too many paths')
            return
        segs = [s for s in segs if s.stop != ('throw',)]

        def see(i, g, top, size, name=name, f=f):
            key = (name, i.where(), i.id)
            if key not in look or look[key][1] is not None and (top is None or top > look[key][1]):
                look[key] = (i, top, size, g)
        for s in segs:      # every look-up of the function, whatever the class
            b = Bits(f, s, tables, see)
            for i in s.v.on_path(('load',)):
                l = s.v.loc(i.ops[0])
                if l is not None and table_of(l) in tables:
                    b.of(('i', i.id), b.width(i.ty))
        if name == 'Encode':
            classes = [('0', P(0)), ('3q+3', P(3) * q + P(3)), ('3q+1', P(3) * q + P(1)), ('3q+2', P(3) * q + P(2))]
        else:
            classes = [('0', P(0)), ('1', P(1)), ('2', P(2)), ('3', P(3))] + [(f'4q+{k}', P(4) * q + P(k)) for k in (4, 5, 6, 7)]
        for label, n in classes:
            bounds(c, f, name, label, n, pieces(lambda m, facts: Eval(f, segs, tables, lambda *a: None, m, facts), n))
        make[name] = lambda m, facts, f=f, segs=segs: Eval(f, segs, tables, lambda *a: None, m, facts)
    for (name, where, _), (i, top, size, g) in sorted(look.items(), key=str):
        if top is None:
            c.unsure('table', f'{name}|{where}', f'{where}: index of {g} not followed')
            continue
        k = [x for x in look if x[:2] == (name, where)].index((name, where, i.id))
        c.ob('table', top < size, f'{name}|{where.split("/")[-1]}|{k}',
             f'{where}: {g.split("::")[-1]} has {size} entries and is looked up at indices up to {top if top < 1 << 32 else "2^64-1"}')
    inverse(c, fs, tables, make)


def bounds(c, f, name, label, n0, parts):
    key = f'{name}|length {label}'
    for n, runs, errs in parts:
        for e in errs:
            if getattr(e, 'walked', False):
                c.ob('room', False, key, f'{f.where()}: a length is computed that wraps around for an input of length {text(n)}: {text(e)}')
                return
        for r in runs:
            for kind, o, at, t, bits, i in r.events:
                if kind == 'push':
                    continue
                if o == r.src:
                    lim = n + P(1) if name == 'Decode' else n       # the terminating zero of a string may be read
                elif o in r.length:
                    lim = r.length[o]
                else:
                    c.unsure('room', key, f'{i.where()}: accesses something the rule does not know')
                    return
                try:
                    w = within(at, t, lim)
                except Und:
                    w = None
                if w is None:
                    c.unsure('room', key, f'{i.where()}: position {text(at)} of {text(lim)} not decided')
                    return
                if not w:
                    c.ob('room', False, key, f'{i.where()}: {kind}s position {text(at)} of {text(lim)} for an input of length {text(n)}' +
                         (f' (t < {text(t)})' if t is not None else ''))
                    return
    errs = [e for p in parts for e in p[2]]
    if errs:
        c.unsure('room', key, f'{f.where()}: {errs[0]}')
    else:
        c.ob('room', True, key, '')


def inverse(c, fs, tables, make):
    q = atom(Q)
    todo = [('0', P(0), P(0), ()),
            ('3q+3', P(3) * q + P(3), P(4) * q + P(4), (False,)),
            ('3q+1', P(3) * q + P(1), P(4) * q + P(4), (True, True)),
            ('3q+2', P(3) * q + P(2), P(4) * q + P(4), (True, False))]
    for el, n, N, pad in todo:
        key = f'input length {el}'
        bad, und = pair(make, tables, n, N, pad)
        if bad is None and und is not None:
            c.unsure('block', key, str(und))
        else:
            c.ob('block', not bad, key, f'{fs["Encode"].where()}, {fs["Decode"].where()}: {bad}')


def pair(make, tables, n, N, pad, depth=0):
    """(violation or None, reason it is undecided or None)"""
    facts = {fz(N - P(k + 1)): v for k, v in enumerate(pad)}
    e, ee = forked(lambda x: make['Encode'](n, x))
    d, de = forked(lambda x: make['Decode'](N, x), facts)
    try:
        if ee or de:
            raise (ee + de)[0]
        if len(e) != 1 or len(d) != 1:
            raise Und('more than one way through the functions')
        return compose(e[0], d[0], tables, n, N, facts), None
    except Und as x:
        if depth < 3 and coef(n)[1]:
            r = [pair(make, tables, shift(n, k), shift(N, k), pad, depth + 1) for k in (0, None)]
            return next((b for b, _ in r if b), None), next((u for _, u in r if u), None)
        return None, x


def output(r):
    o = (('arg', 0), 0)
    return r.moved.get(o, o)


def written(r):
    """position -> (bits, blocks) of the result, later writes on top"""
    out = {}
    for kind, o, at, t, bits, i in r.events:
        if kind in ('write', 'push') and o == output(r):
            out[fz(at), fz(t) if t is not None else None] = (bits, t)
    return out


def complete(w, length):
    """the positions cover 0 .. length-1"""
    loops = {}
    tail = []
    for (at, t), _ in w.items():
        c = coef(unfz(at))
        if t is not None:
            if c[1] or not c[2]:
                raise Und('positions within the loop')
            loops.setdefault((t, c[2]), set()).add(c[0])
        else:
            tail.append(unfz(at))
    done = P(0)
    for (t, step), ks in loops.items():
        if len(loops) > 1:
            raise Und('more than one loop')
        if ks != set(range(int(step))):
            return f'of every {step} result elements only {sorted(int(k) for k in ks)} are written'
        done = P(step) * unfz(t)
    want = length - done
    if want.const() is None:
        return f'{text(done)} of {text(length)} result elements are written in the loop'
    for k in range(int(want.const())):
        if done + P(k) not in tail:
            return f'result element {text(done + P(k))} is not written'
    if want.const() < 0:
        return 'more elements are written than the result has'
    return None


def compose(e, d, tables, n, N, facts):
    le, ld = e.length.get(output(e)), d.length.get(output(d))
    if le is None or ld is None:
        raise Und('result not found')
    if le != N:
        return f'{text(n)} bytes are encoded in {text(le)} characters instead of {text(N)}'
    if ld != n:
        return f'{text(N)} characters of {text(n)} bytes decode to {text(ld)} bytes'
    we, wd = written(e), written(d)
    for w, l in ((we, le), (wd, ld)):
        x = complete(w, l)
        if x:
            return x
    for (at, t), (bits, tt) in we.items():
        eq = all(b[0] == 'k' for b in bits) and sum(b[1] << j for j, b in enumerate(bits)) == 61
        pad = facts.get(at)
        if all(b[0] == 'k' for b in bits) and not eq:
            return f'character {text(unfz(at))} is constant and not ='
        if pad is not None and pad != eq or pad is None and eq:
            return f'character {text(unfz(at))} ' + ('is =' if eq else 'is not =')
    for (at, t), (bits, tt) in wd.items():
        p = unfz(at)
        for j, b in enumerate(bits):
            if b[0] != 't':
                if b[0] == 'k':
                    return f'bit {j} of byte {text(p)} decodes to a constant'
                raise Und('bits of the decoded bytes')
            sym = we.get((b[3], t)) or we.get((b[3], None))
            if sym is None:
                if any(k[0] == b[3] for k in we):
                    return f'byte {text(p)} is decoded from another block'
                return f'bit {j} of byte {text(p)} is decoded from character {text(unfz(b[3]))}, which holds no bits of it' \
                    if t is not None else f'byte {text(p)} is decoded from character {text(unfz(b[3]))}'
            s0 = sym[0][0]
            if sym[0][1][0] != 'sym' and not any(x[0] == 'sym' for x in sym[0]):
                return f'byte {text(p)} is decoded from the padding'
            s0 = next(x for x in sym[0] if x[0] == 'sym')
            bad = tables_agree(tables, s0[1], b[1])
            if bad:
                return bad
            src = s0[2][b[4]]
            if src != ('v', (('arg', 1), 0), at, j):
                if src[0] == '?':
                    raise Und('bits of the encoded characters')
                return f'bit {j} of byte {text(p)} comes back as ' + \
                    (f'bit {src[3]} of byte {text(unfz(src[2]))}' if src[0] == 'v' else f'{src[1]}')
    return None


def tables_agree(tables, enc, dec):
    ev, dv = tables[enc][1], tables[dec][1]
    for k in range(64):
        ch = ev[k] & 255
        if ch == 61:
            return f'{enc.split("::")[-1]} uses = for {k}'
        if ch >= len(dv) or dv[ch] != k:
            return f'{enc.split("::")[-1]} maps {k} to character {ch}, {dec.split("::")[-1]} maps it back to {dv[ch] if ch < len(dv) else "nothing"}'
    return None
