"""Canonical value terms with memory: what a value is made of, expressed over the
arguments of the function, the object's fields on entry and opaque call results.

Integers and floating-point numbers are polynomials over atoms (real algebra for
floating point, so that reordered or regrouped arithmetic compares equal); objects
passed by reference are the tuple of their 8-byte words.  Equal terms denote equal
values; the analysis is flow-sensitive (reaching definitions over the CFG) and
nothing is evaluated."""
import re

import sa
from codec import P, atom
from sa import tuple_ref

ELEMS = re.compile(r'::(operator\[\]|at)$')
FIRST = re.compile(r'::(begin|cbegin|data|front)$')
INVOKE = re.compile(r'^std::function<.*>::operator\(\)$')


def num(x):
    return P({(): x})


def pmul(a, b):
    """product with x * 1/x cancelled"""
    r = a * b
    out = {}
    for k, v in r.t.items():
        k = list(k)
        for x in [x for x in k if x[0] == 'inv']:
            if x in k and x[1] in k:
                k.remove(x)
                k.remove(x[1])
        k = tuple(k)
        out[k] = out.get(k, 0) + v
    return P(out)


def pinv(p):
    if len(p.t) == 1:
        (k, v), = p.t.items()
        r = num(1.0 / v if v not in (1, -1) else v)
        for x in k:
            r = pmul(r, atom(x[1] if x[0] == 'inv' else ('inv', x)))
        return r
    return atom(('inv', ('sum', fz(p))))


def fz(p):
    """hashable form of a term"""
    if isinstance(p, P):
        return ('P', tuple(sorted(p.t.items(), key=repr)))
    return p


def unfz(t):
    return P(dict(t[1]))


def subst(t, m):
    """replaces atoms (anywhere inside the term) by polynomials"""
    if isinstance(t, P):
        r = P(0)
        for k, v in t.t.items():
            x = num(v)
            for a in k:
                x = pmul(x, _sa(a, m))
            r = r + x
        return r
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        if t and t[0] == 'P':
            return fz(subst(unfz(t), m))
        return tuple(_st(x, m) for x in t)
    return t


def _st(x, m):
    if not isinstance(x, tuple):
        return x
    if x in m:
        return fz(m[x])
    return subst(x, m)


def _sa(a, m):
    if a in m:
        return m[a]
    if a[0] == 'inv':
        return pinv(_sa(a[1], m)) if a[1][0] != 'sum' else pinv(subst(unfz(a[1][1]), m))
    b = tuple(_st(x, m) for x in a)
    return atom(b)


class V:
    """Value terms of one function."""
    def __init__(self, fn, quiet=None, field_type=None):
        self.fn = fn
        self.quiet = quiet or (lambda i: i.callee is None)
        self.live = fn.live()
        self._val, self._mem, self._loc = {}, {}, {}
        self.depth = 0

    # --- places ---
    def loc(self, ref):
        """(root, byte offset) of a pointer; roots: arg, alloca, g, elem, deref"""
        ref = tuple_ref(ref)
        if ref in self._loc:
            return self._loc[ref]
        self._loc[ref] = None
        b, off, var = self.fn.ptr(ref)
        r = self._root(b)
        if r is not None:
            root, o = r
            if var:
                ix = fz(sum((self.val(v) * num(s) for v, s in var), P(0)))
                r = (('idx', (root, o), ix), off)
            else:
                r = (root, o + off)
        self._loc[ref] = r
        return r

    def _root(self, b):
        f = self.fn
        if b[0] == 'a':
            return (('arg', b[1]), 0)
        if b[0] == 'g':
            return (('g', b[2]), 0)
        if b[0] == 'n':
            return (('null',), 0)
        i = f.get(b)
        if i is None:
            return None
        if i.op == 'alloca':
            return (('alloca', i.id), 0)
        if i.op in ('call', 'invoke') and i.ops:
            c = i.callee or ''
            if ELEMS.search(c) and f.is_ptr(i.ops[0]) and len(i.ops) > 1:
                l = self.loc(i.ops[0])
                if l:
                    k = self.obj(i.ops[1], i, 8) if f.is_ptr(i.ops[1]) else self.val(i.ops[1])
                    return (('elem', l, fz(k)), 0)
            if FIRST.search(c):
                l = self.loc(i.ops[0])
                if l:
                    return (('elem', l, fz(P(0))), 0)
            if re.search(r'iterator(<.*>)?::operator(\*|->)$', c):
                t = self.mem_ref(i.ops[0], 8, i)
                return (('at', fz(t)), 0)
        t = self.val(b)
        if isinstance(t, tuple) and t and t[0] == 'ptr':
            return t[1]
        return (('deref', fz(t)), 0)

    # --- values ---
    def val(self, ref):
        ref = tuple_ref(ref)
        k = ref[0]
        if k == 'c':
            return num(ref[1])
        if k == 'cf':
            v = ref[1]
            if isinstance(v, str):
                try:
                    v = float(v)
                except ValueError:
                    pass
            return num(int(v) if isinstance(v, float) and v == int(v) and abs(v) < 2**53 else v) \
                if isinstance(v, (int, float)) and v == v and abs(v) != float('inf') else atom(('cf', str(v)))
        if k == 'n':
            return ('null',)
        if k in 'uz':
            return (k,)
        if ref in self._val:
            return self._val[ref]
        if k == 'a':
            p = self.fn.params[ref[1]]
            r = ('ptr', (('arg', ref[1]), 0)) if p['ty'] == 'ptr' else atom(('arg', ref[1]))
        elif k in ('g', 'ge'):
            r = ('ptr', self.loc(ref))
        elif k != 'i':
            return ('x', str(ref))
        else:
            i = self.fn.inst[ref[1]]
            self._val[ref] = atom(('phi' if i.op == 'phi' else 'v', i.id))
            self.depth += 1
            r = self._inst(i) if self.depth < 200 else atom(('v', i.id))
            self.depth -= 1
        self._val[ref] = r
        return r

    def n(self, ref):
        """the value as a polynomial"""
        t = self.val(ref)
        return t if isinstance(t, P) else atom(t)

    def _inst(self, i):
        f = self.fn
        N = lambda k: self.n(i.ops[k])
        if i.op in ('add', 'fadd'):
            return N(0) + N(1)
        if i.op in ('sub', 'fsub'):
            return N(0) - N(1)
        if i.op in ('mul', 'fmul'):
            return pmul(N(0), N(1))
        if i.op == 'fneg':
            return P(0) - N(0)
        if i.op == 'fdiv':
            return pmul(N(0), pinv(N(1)))
        if i.op == 'shl' and i.ops[1][0] == 'c':
            return N(0) * num(1 << i.ops[1][1])
        if i.op in ('zext', 'sext', 'freeze', 'bitcast', 'sitofp', 'uitofp', 'fpext', 'ptrtoint', 'inttoptr'):
            x = self.val(i.ops[0])
            if i.op == 'zext' and isinstance(x, P) and isinstance(x.const(), int) and x.const() < 0:
                j = f.get(tuple_ref(i.ops[0]))
                w = re.match(r'i(\d+)$', j.ty or '') if j is not None else None
                if w:
                    return num(x.const() & ((1 << int(w.group(1))) - 1))
            return x
        if i.op in ('fptosi', 'fptoui'):
            return atom(('int', fz(N(0))))
        if i.op == 'trunc':
            return atom(('trunc', i.ty, fz(N(0))))
        if i.op in ('sdiv', 'udiv', 'srem', 'urem', 'frem', 'lshr', 'ashr'):
            return atom((i.op.lstrip('us') if i.op[0] in 'us' else i.op, fz(N(0)), fz(N(1))))
        if i.op == 'or' and i.ty != 'i1' or i.op == 'and' and i.ty != 'i1':
            return atom((i.op, *sorted([fz(N(0)), fz(N(1))], key=repr)))
        if i.op == 'xor' and i.ty != 'i1':
            return atom((i.op, *sorted([fz(N(0)), fz(N(1))], key=repr)))
        if i.op in ('icmp', 'fcmp'):
            return ('cond', self.prop(('i', i.id), True))
        if i.op in ('and', 'or', 'xor') and i.ty == 'i1':
            return (i.op, *sorted([fz(self.val(i.ops[0])), fz(self.val(i.ops[1]))], key=repr))
        if i.op == 'select':
            c, a, b = (fz(self.val(o)) for o in i.ops)
            k = settled(c)
            if k is not None:
                return self.val(i.ops[1 if k else 2])
            return atom(('sel', c, a, b)) if a != b else self.val(i.ops[1])
        if i.op in ('getelementptr', 'alloca'):
            return ('ptr', self.loc(('i', i.id)))
        if i.op == 'load':
            l = self.loc(i.ops[0])
            return self.mem(l, tsize(i.ty), i) if l else atom(('v', i.id))
        if i.op == 'phi':
            got = {fz(self.val(r)) for r, b in i.inc if b in self.live and tuple_ref(r) != ('i', i.id)}
            got.discard(fz(atom(('phi', i.id))))
            if len(got) == 1:
                g = got.pop()
                # only when the value is available here
                if not has_phi(g):
                    return unfz(g) if g[0] == 'P' else g
            return atom(('phi', i.id))
        if i.op in ('call', 'invoke'):
            cn = i.cn or ''
            if cn.startswith('llvm.') or cn in ('floor', 'ceil', 'sqrt', 'fabs'):
                m = re.match(r'llvm\.(\w+)', cn)
                nm = m.group(1) if m else cn
                args = [fz(self.n(o)) for o in i.ops if o[0] in ('i', 'a', 'c', 'cf')]
                if nm == 'fmuladd':
                    return pmul(N(0), N(1)) + N(2)
                if nm in ('smax', 'smin', 'umax', 'umin', 'maxnum', 'minnum'):
                    args.sort(key=repr)
                return atom((nm, *args))
            r = self.call(i)
            if ELEMS.search(i.callee or '') or FIRST.search(i.callee or '') or i.ty == 'ptr' and \
                    re.search(r'iterator(<.*>)?::operator(\*|->)$', i.callee or ''):
                l = self.loc(('i', i.id))
                return ('ptr', l) if l else atom(r)
            return atom(r)
        if i.op == 'extractvalue':
            t = self.val(i.ops[0])
            if isinstance(t, tuple) and t[0] == 'agg':
                for ix, v in t[1]:
                    if ix == tuple(i.d['idx']):
                        return unfz(v) if v[0] == 'P' else v
            return atom(('ev', tuple(i.d['idx']), fz(t)))
        if i.op == 'insertvalue':
            t = self.val(i.ops[0])
            m = dict(t[1]) if isinstance(t, tuple) and t[0] == 'agg' else {}
            m[tuple(i.d['idx'])] = fz(self.val(i.ops[1]))
            return ('agg', tuple(sorted(m.items())))
        return atom((i.op, i.id))

    def call(self, i):
        """term of a call: pure ones compare by their arguments"""
        f = self.fn
        if i.callee is None:
            return ('icall', i.id)
        name = sa.canon_callee(i.callee)
        if name == '__cxa_allocate_exception' or self.impure(i):
            return ('callv', name, i.id)
        args = []
        for k, o in enumerate(i.ops):
            if k == 0 and i.sret:
                continue
            args.append(self.arg(i, k))
        return ('call', name, *args)

    def arg(self, i, k):
        """argument k of call i: by value, or the content of the referenced object"""
        o = i.ops[k]
        if self.fn.is_ptr(o):
            n = self.argsize(i, k)
            if 0 < n <= 256:
                return self.obj(o, i, n)
            return ('ptr', self.loc(o), self.version(o, i))
        return fz(self.val(o))

    def argsize(self, i, k):
        """size of the object operand k refers to"""
        n = (i.deref or [])[k] if k < len(i.deref or []) else 0
        if n in (1, 8) and i.callee and i.callee.startswith('Eigen::'):
            b, off, var = self.fn.ptr(i.ops[k])
            a = self.fn.get(b) if b[0] == 'i' else None
            if a is not None and a.op == 'alloca' and not off and not var and a.asz:
                return a.asz
            m = re.search(r'Matrix<double, (\d+), (\d+)', i.cd or '')
            if m:
                return 8 * int(m.group(1)) * int(m.group(2))
        return n

    def version(self, o, i):
        l = self.loc(o)
        if l is None:
            return ('?', i.id)
        if l[0][0] == 'g':
            return ()
        t = self.mem((l[0], ('whole', l[1])), 0, i)
        return () if t == ('init', l) or isinstance(t, tuple) and t[0] == 'init' else fz(t)

    def obj(self, o, i, n):
        """content of the n bytes o points to, just before i"""
        l = self.loc(o)
        if l is None:
            return ('?', i.id)
        return self.content(l, n, i)

    def content(self, l, n, i):
        if n % 8:
            return fz(self.mem(l, n, i))
        ws = [fz(self.mem((l[0], l[1] + 8 * k), 8, i)) for k in range(n // 8)]
        if len(ws) == 1:
            return ws[0]
        z = [fz(atom(('m', (l[0], l[1] + 8 * k)))) for k in range(n // 8)]
        if ws == z:
            return ('obj', l, n)
        # one opaque result as a whole / a copy of another object
        u = [unfz(w) if w[0] == 'P' else None for w in ws]
        if all(x is not None and len(x.t) == 1 for x in u):
            (k0,) = u[0].t
            if len(k0) == 1 and k0[0][0] == 'm':
                b = k0[0][1]
                if ws == [fz(atom(('m', (b[0], b[1] + 8 * k)))) for k in range(n // 8)]:
                    return ('obj', b, n)
            if len(k0) == 1 and k0[0][0] == 'out' and isinstance(k0[0][3], int):
                c, k1, o0 = k0[0][1:]
                if ws == [fz(atom(('out', c, k1, o0 + 8 * k))) for k in range(n // 8)]:
                    return ('outobj', c, k1, o0, n)
        return ('words', tuple(ws))

    def impure(self, i):
        """may write through an operand other than its result slot"""
        if i.callee is None:
            return True
        if sa.PURE.search(i.callee):
            return False
        for k in sa.written_ops(i):
            if k == 0 and i.sret:
                continue
            if self.fn.is_ptr(i.ops[k]):
                return True
        return bool(INVOKE.search(i.callee)) or '::' not in i.callee

    # --- memory ---
    def mem_ref(self, ref, n, at):
        l = self.loc(ref)
        return self.mem(l, n, at) if l else atom(('v', at.id))

    def mem(self, l, n, at):
        """content of n bytes at place l just before instruction at"""
        k = (l, n, at.id)
        if k in self._mem:
            return self._mem[k]
        self._mem[k] = atom(('v', 'rec', at.id))
        r = self._scan(l, n, at.block, at.idx)
        self._mem[k] = r
        return r

    def at_end(self, l, n, b):
        return self._scan(l, n, b, len(self.fn.blocks[b]))

    def _scan(self, l, n, b, idx):
        for i in reversed(self.fn.blocks[b][:idx]):
            r = self.effect(i, l, n)
            if r is not None:
                return r
        return self._entry(l, n, b)

    def _entry(self, l, n, b):
        k = ('in', l, n, b)
        if k in self._mem:
            return self._mem[k]
        ph = atom(('mphi', b, l))
        self._mem[k] = ph
        if b == 0:
            r = atom(('m', l)) if n else ('init', l)
        else:
            got = {}
            for p in self.fn.preds[b]:
                if p in self.live:
                    t = self._scan(l, n, p, len(self.fn.blocks[p]))
                    got[fz(t)] = t
            got.pop(fz(ph), None)
            r = next(iter(got.values())) if len(got) == 1 and not any(
                ('mphi', b, l) in atoms_in(g) for g in got) else ph
            if r is ph and n:
                r = self._as_phi(l, n, b) or ph
        self._mem[k] = r
        return r

    def _as_phi(self, l, n, b):
        """the phi of block b that always holds what memory at l holds (a mirrored counter)"""
        m = ('mphi', b, l)
        ps = [p for p in self.fn.preds[b] if p in self.live]
        ends = None
        for i in self.fn.blocks[b]:
            if i.op != 'phi':
                break
            if tsize(i.ty) != n:
                continue
            if ends is None:
                ends = {p: self._scan(l, n, p, len(self.fn.blocks[p])) for p in ps}
            a = atom(('phi', i.id))
            inc = {bb: self.val(r) for r, bb in i.inc}
            if all(isinstance(ends[p], P) and isinstance(inc.get(p), P) and
                   subst(ends[p], {m: a}) == subst(inc[p], {m: a}) for p in ps):
                return a
        return None

    def effect(self, i, l, n):
        """term when i defines place l, None when it leaves it alone"""
        whole = isinstance(l[1], tuple)
        lo = l[1][1] if whole else l[1]
        if i.op == 'store':
            d = self.loc(i.ops[1])
            if d is None:
                return None if self.private(l) else atom(('clobber', i.id))
            if d[0] != l[0]:
                if d[0][0] == 'idx' and d[0][1][0] == l[0] and not whole:
                    return atom(('clobber', i.id))
                if whole and self.within(d, l[0], lo):
                    return ('def', i.id)
                return None
            m = tsize(i.sty) or 16
            if whole:
                return ('def', i.id) if d[1] >= lo else None
            if d[1] == lo and (m == n or m >= n and n and i.sty == 'ptr'):
                return self.val(i.ops[0])
            if d[1] < lo + n and lo < d[1] + m:
                t = self.val(i.ops[0])
                if isinstance(t, tuple) and t[0] == 'agg':
                    return ('aggpart', fz(t), lo - d[1])
                if t == P(0) and d[1] <= lo and lo + n <= d[1] + m:
                    return P(0)
                return atom(('clobber', i.id))
            return None
        if i.op in ('call', 'invoke'):
            cn = i.cn or ''
            if cn.startswith(('llvm.memcpy', 'llvm.memmove', 'llvm.memset')) or cn in ('memcpy', 'memset', 'memmove'):
                d = self.loc(i.ops[0])
                if d is None or d[0] != l[0]:
                    return ('def', i.id) if whole and d and self.within(d, l[0], lo) else None
                c = i.ops[2][1] if i.ops[2][0] == 'c' else None
                if whole:
                    return ('def', i.id) if c is None or d[1] + c > lo else None
                if c is None or d[1] <= lo and lo + n <= d[1] + c:
                    if c is not None and 'memset' in cn:
                        return P(0) if self.val(i.ops[1]) == P(0) else atom(('fill', i.id))
                    if c is not None:
                        s = self.loc(i.ops[1])
                        if s:
                            return self.mem((s[0], s[1] + lo - d[1]), n, i)
                    return atom(('clobber', i.id))
                if d[1] < lo + n and lo < d[1] + c:
                    return atom(('clobber', i.id))
                return None
            if cn.startswith('llvm.lifetime'):
                d = self.loc(i.ops[-1])
                if d and d[0] == l[0]:
                    return atom(('undef', i.id)) if not whole else ('def', i.id)
                return None
            if cn.startswith('llvm.') or cn.startswith('__cxa'):
                return None
            if re.search(r'::~', i.callee or ''):
                return None
            return self._call_effect(i, l, n, whole, lo)
        return None

    def _call_effect(self, i, l, n, whole, lo):
        q = self.quiet(i)
        wr = list(range(len(i.ops))) if i.callee is None else sa.written_ops(i)
        if i.callee is not None and INVOKE.search(i.callee) or i.callee is None:
            wr = wr if not q else ([0] if i.sret else [])
        for k in wr:
            if k >= len(i.ops) or not self.fn.is_ptr(i.ops[k]):
                continue
            d = self.loc(i.ops[k])
            if d is None:
                continue
            size = (i.sretsz if k == 0 and i.sret else (i.deref or [0] * 99)[k] if k < len(i.deref or []) else 0) or 0
            if d[0] == l[0]:
                if lo < d[1] and not (whole and d[1] >= lo):
                    continue
                if size and lo >= d[1] + size:
                    continue
                if whole:
                    return ('def', i.id)
                if k == 0 and sa.canon_callee(i.callee or '') == 'std::fill_n' and 'fill_n<double*' in (i.cd or i.callee or '') and len(i.ops) == 3:
                    m = self.n(i.ops[1]).const() if not self.fn.is_ptr(i.ops[1]) else None
                    if m is not None and lo >= d[1] and (lo - d[1]) % 8 == 0 and lo + n <= d[1] + 8 * m:
                        x = self.loc(i.ops[2]) if self.fn.is_ptr(i.ops[2]) else None
                        if x:
                            return self.mem(x, 8, i)
                    elif m is not None and (lo >= d[1] + 8 * m):
                        continue
                # copies of objects
                parts = sa.strip_targs(i.callee or '').split('::')
                if len(parts) >= 2 and k == 0 and len(i.ops) == 2 and self.fn.is_ptr(i.ops[1]) and (
                        parts[-1] == parts[-2] or parts[-1] == 'operator='):
                    s = self.loc(i.ops[1])
                    ps, _ = sa.params_of(i.cd or '')
                    if s and ps and re.search(r'&&?$', ps[0]) and same_class(ps[0], parts[-2]):
                        return self.mem((s[0], s[1] + lo - d[1]), n, i)
                c = self.call(i)
                return atom(('out', c, k, lo - d[1]))
            if self.within(l, d[0], d[1]) and not self.noop(i):
                return atom(('out', ('callv', sa.canon_callee(i.callee or '?'), i.id), k, l)) if not whole else ('def', i.id)
        return None

    def noop(self, i):
        return False

    def within(self, l, root, off):
        """place l lies in storage reached from the object at root"""
        r = l[0]
        while r[0] in ('elem', 'idx'):
            l = r[1]
            r = l[0]
            if r == root:
                return True
        return False

    def private(self, l):
        r = l[0]
        return r[0] == 'alloca' or r[0] == 'arg'

    # --- propositions ---
    def prop(self, ref, pol):
        """canonical form of a branch condition"""
        if ref[0] == 'sw':
            return ('eq', fz(self.n(ref[1]) - num(ref[2])))
        i = self.fn.get(ref) if ref[0] == 'i' else None
        if i is not None and i.op == 'icmp':
            a, b = self.val(i.ops[0]), self.val(i.ops[1])
            pa = a if isinstance(a, P) else atom(a)
            pb = b if isinstance(b, P) else atom(b)
            pr = i.pred
            if not pol:
                pr = {'eq': 'ne', 'ne': 'eq', 'slt': 'sge', 'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt',
                      'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt'}[pr]
            d = pa - pb
            if pr in ('eq', 'ne'):
                # a boolean compared with a constant
                for x, y in ((a, pb), (b, pa)):
                    if isinstance(x, tuple) and x[0] in ('cond', 'and', 'or', 'xor') and y.const() in (0, 1):
                        return ('bool', x, (y.const() == 1) == (pr == 'eq'))
                return (pr, norm_sign(d))
            if pr in ('sge', 'uge'):
                return ('ge' if pr[0] == 's' else 'uge', fz(d))
            if pr in ('sgt', 'ugt'):
                return ('ge' if pr[0] == 's' else 'uge', fz(d - P(1)))
            if pr in ('sle', 'ule'):
                return ('ge' if pr[0] == 's' else 'uge', fz(P(0) - d))
            return ('ge' if pr[0] == 's' else 'uge', fz(P(0) - d - P(1)))
        if i is not None and i.op == 'fcmp':
            d = self.n(i.ops[0]) - self.n(i.ops[1])
            pr = i.pred
            neg = {'oeq': 'une', 'une': 'oeq', 'olt': 'uge', 'uge': 'olt', 'ogt': 'ule', 'ule': 'ogt', 'oge': 'ult',
                   'ult': 'oge', 'ole': 'ugt', 'ugt': 'ole', 'one': 'ueq', 'ueq': 'one', 'ord': 'uno', 'uno': 'ord',
                   'true': 'false', 'false': 'true'}
            if not pol:
                pr = neg[pr]
            if pr in ('olt', 'ole', 'ult', 'ule'):
                pr = {'olt': 'ogt', 'ole': 'oge', 'ult': 'ugt', 'ule': 'uge'}[pr]
                d = P(0) - d
            if pr in ('oeq', 'une', 'one', 'ueq', 'ord', 'uno'):
                return ('f' + pr, norm_sign(d))
            return ('f' + pr, fz(d))
        t = self.val(ref) if ref[0] in 'iac' else ('x', ref)
        if isinstance(t, tuple) and t[0] == 'cond' and not pol:
            return ('not', t[1])
        if isinstance(t, tuple) and t[0] == 'cond':
            return t[1]
        return ('bool', fz(t), pol)

    def props(self, block):
        out = []
        for ref, pol, t in self.fn.facts(block):
            out.append(self.prop(ref, pol))
        return out

    def edge_props(self, a, s):
        """what taking the edge a->s says (beyond what holds in a)"""
        res = []
        e = self.fn.edge_cond(a, s)
        if e:
            self.fn._expand(e, res)
        t = self.fn.blocks[a][-1]
        if t.op == 'switch':
            vals = [v for v, tg in t.cases if tg == s]
            if len(vals) == 1 and t.ops[1][1] != s:
                res.append((('sw', t.ops[0], vals[0]), True, t))
        return [self.prop(r, p) for r, p, _ in res]


def norm_sign(d):
    a, b = fz(d), fz(P(0) - d)
    return min(a, b, key=repr)


def proves_ge(props, goal, nonneg=()):
    """goal >= 0 follows from one of the facts (or from a constant)"""
    c = goal.const()
    if c is not None:
        return c >= 0
    for p in props:
        if p[0] == 'ge':
            d = (goal - unfz(p[1])).const()
            if d is not None and d >= 0:
                return True
        elif p[0] == 'eq':
            q = unfz(p[1])
            for x in (q, P(0) - q):
                d = (goal - x).const()
                if d is not None and d >= 0:
                    return True
        elif p[0] == 'uge':
            # a >=u b with b >= 0 signed: both a >= b and a >= 0
            q = unfz(p[1])
            pos = P({k: v for k, v in q.t.items() if v > 0 and k != ()})
            d = (goal - q).const()
            if d is not None and d >= 0:
                return True
            # b - 1 - a >=u 0 i.e. a <u b: gives a >= 0 when b >= 0
            neg = P({k: -v for k, v in q.t.items() if v < 0})
            if neg == goal:
                return True
    return False


def settled(c):
    """truth of a condition on constants, or None"""
    if c and c[0] == 'cond' and c[1][0] in ('eq', 'ne', 'ge') and c[1][1] and c[1][1][0] == 'P':
        k = unfz(c[1][1]).const()
        if k is not None:
            return {'eq': k == 0, 'ne': k != 0, 'ge': k >= 0}[c[1][0]]
    return None


def atoms_in(t):
    out = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, P):
            x = fz(x)
        if isinstance(x, tuple):
            if x not in out:
                out.add(x)
                st += list(x)
    return out


def has_phi(t):
    return any(isinstance(x, tuple) and x and x[0] in ('phi', 'mphi', 'v') for x in atoms_in(t))


def tsize(t):
    m = re.match(r'i(\d+)$', t or '')
    if m:
        return max(1, int(m.group(1)) // 8)
    return {'double': 8, 'float': 4, 'ptr': 8}.get(t, 0)


def same_class(param, cls):
    t = re.sub(r'<.*>', '', param.replace('const', '').replace('&', '')).strip()
    return t.split('::')[-1].strip() == cls.split('::')[-1]
