"""Ordered byte-stream events of writers and readers, and where their values come
from and go to."""
import re

import sa
from sa import tuple_ref

PRIM = re.compile(r'serialization::(Des|S)erialize(Network)?Memcpyable(InPlace)?(<.*>)?$')
KEEP = [r'serialization::(Des|S)erialize(Network)?Memcpyable(InPlace)?(<.*)?$']
FCALL = re.compile(r'^std::function<.*>::operator\(\)$')
OBS = re.compile(r'::(size|length|rows|cols)$')
VALUE_OPS = ('phi', 'select', 'bitcast', 'trunc', 'zext', 'sext', 'freeze')
CONVERT = ('sitofp', 'uitofp', 'fptosi', 'fptoui', 'fptrunc', 'fpext')


class Unknown(Exception):
    """The function has a shape the comparison does not understand: no verdict."""


class P:
    """polynomial modulo 2^64 over hashable atoms"""
    __slots__ = ('t',)

    def __init__(self, t=None):
        if isinstance(t, (int, float)):
            t = {(): t}
        self.t = {k: v for k, v in (t or {}).items() if v}

    def __add__(self, o):
        r = dict(self.t)
        for k, v in o.t.items():
            r[k] = r.get(k, 0) + v
        return P(r)

    def __sub__(self, o):
        return self + P({k: -v for k, v in o.t.items()})

    def __mul__(self, o):
        r = {}
        for a, x in self.t.items():
            for b, y in o.t.items():
                k = tuple(sorted(a + b, key=repr))
                r[k] = r.get(k, 0) + x * y
        return P(r)

    def __eq__(self, o):
        return isinstance(o, P) and self.t == o.t

    def const(self):
        return self.t.get((), 0) if all(k == () for k in self.t) else None

    def atoms(self):
        return {a for k in self.t for a in k}

    def subst(self, m):
        r = P(0)
        for k, v in self.t.items():
            x = P(v)
            for a in k:
                x = x * m.get(a, atom(a))
            r = r + x
        return r

    def __repr__(self):
        out = []
        for k, v in self.t.items():
            n = '*'.join(map(str, k))
            out.append(f'{v}' if not k else n if v == 1 else f'{v}*{n}')
        return ' + '.join(out) or '0'


def atom(a):
    return P({(a,): 1})


class Flow:
    """Locations, copies and value flow inside one function."""
    def __init__(self, fn):
        self.fn = fn
        self.live = fn.live()
        self.edges = []      # (dst loc, src loc, size or None)
        self.stores = []     # (dst loc, value ref, inst)
        self.opaque = []     # (loc, inst): written by something not understood
        self._locs = {}
        self._build()

    # --- locations ---
    def loc(self, ref):
        ref = tuple_ref(ref)
        if ref in self._locs:
            return self._locs[ref]
        self._locs[ref] = None
        r = self._loc(ref)
        self._locs[ref] = r
        return r

    def _loc(self, ref):
        f = self.fn
        b, off, var = f.ptr(ref)
        r = self._root(b)
        if r is None:
            return None
        root, o = r
        if var and root[0] != 'elem':
            return (('elem', (root, o)), off)   # a[i] of an array inside the object
        return (root, o + off)

    def _root(self, b):
        f = self.fn
        if b[0] == 'a':
            return (('arg', b[1]), 0)
        if b[0] == 'g':
            return (('g', b[2]), 0)
        i = f.get(b)
        if i is None:
            return None
        if i.op == 'alloca':
            return (('alloca', i.id), 0)
        if i.op in ('phi', 'select'):
            ins = [r for r, _ in i.inc] if i.op == 'phi' else i.ops[1:]
            got = {self.loc(r) for r in ins} - {None}
            # an element pointer that walks over a container stays an element of it
            roots = {x[0] for x in got}
            if len(got) == 1:
                return got.pop()
            if len(roots) == 1 and next(iter(roots))[0] == 'elem':
                return (roots.pop(), 0)
            return None
        if i.op == 'load':
            v = f.forward(i)
            if v is not None:
                return self.loc(v)
            l = self.loc(i.ops[0])
            it = self._iter(l)
            if it:
                return it
            return (('ptr', l), 0) if l else None
        if i.op in ('call', 'invoke') and i.ops:
            c = i.callee or ''
            if re.search(r'::(operator\[\]|at|begin|cbegin|data|front|find)$', c):
                l = self.loc(i.ops[0])
                return (('elem', l), 0) if l else None
            if re.search(r'::(end|cend|back)$', c):
                l = self.loc(i.ops[0])
                return (('end', l), 0) if l else None
            if re.search(r'iterator(<.*>)?::operator(\*|->)$', c):
                return self._iter(self.loc(i.ops[0]))
            if re.search(r'^Eigen::.*::(matrix|coeffs|array|translation|linear|affine)$', c):
                return self.loc(i.ops[0])
        return None

    def _iter(self, l):
        """location an iterator stored at l designates"""
        if l is None:
            return None
        got = set()
        for d, v, _ in self.stores:
            if d == l:
                i = self.fn.get(v)
                if i is not None and i.op in ('call', 'invoke') and re.search(r'::c?begin$', i.callee or ''):
                    c = self.loc(i.ops[0])
                    if c:
                        got.add((('elem', c), 0))
        return got.pop() if len(got) == 1 else None

    # --- edges ---
    def _build(self):
        f = self.fn
        later = []
        for b in sorted(self.live):
            if f.throws(b):
                continue
            for i in f.blocks[b]:
                if i.op == 'store':
                    later.append(i)
        for i in later:
            d = self.loc(i.ops[1])
            if d:
                self.stores.append((d, tuple_ref(i.ops[0]), i))
        self._locs.clear()
        for b in sorted(self.live):
            if f.throws(b):
                continue
            for i in f.blocks[b]:
                if i.op in ('call', 'invoke'):
                    self._call(i)

    def _call(self, i):
        cn = i.cn or ''
        if cn.startswith(('llvm.memcpy', 'llvm.memmove')):
            d, s = self.loc(i.ops[0]), self.loc(i.ops[1])
            n = i.ops[2][1] if i.ops[2][0] == 'c' else None
            if d and s:
                self.edges.append((d, s, n))
            return
        if cn.startswith('llvm.'):
            return
        c = i.callee or ''
        q = sa.strip_targs(c)
        parts = q.split('::')
        ops = i.ops
        ptrs = [self.fn.is_ptr(o) for o in ops]
        size = (i.deref or [0])[0] or None
        if len(parts) >= 2 and len(ops) >= 2 and ptrs[0] and ptrs[1] and (
                parts[-1] == parts[-2] or parts[-1] == 'operator=' or
                (parts[-1] in ('swap', 'assign') and len(ops) == 2)):
            if (parts[-1] == parts[-2] and len(ops) == 2) or parts[-1] != parts[-2]:
                d, s = self.loc(ops[0]), self.loc(ops[1])
                if d and s:
                    self.edges.append((d, s, size))
                    if parts[-1] == 'swap':
                        self.edges.append((s, d, size))
                return
        if parts[-1] in ('push_back', 'emplace_back', 'insert', 'emplace', 'try_emplace', 'insert_or_assign',
                         'emplace_hint', 'push_front'):
            c0 = self.loc(ops[0])
            if c0 is None:
                return
            vals = ops[1:]
            e = ('elem', c0)
            if parts[-1] == 'insert' and len(ops) == 4 and all(ptrs[2:]):
                s = self.loc(ops[2])
                if s and s[0][0] == 'elem':
                    self.edges.append(((e, 0), s, None))
                return
            if len(vals) >= 2 and parts[-1] in ('insert', 'emplace_hint') and ptrs[1]:
                vals = vals[1:]
            if len(vals) == 1:
                v = vals[0]
                if self.fn.is_ptr(v):
                    s = self.loc(v)
                    if s:
                        self.edges.append(((e, 0), s, (i.deref or [0, 0])[-1] or None))
                else:
                    self.stores.append(((e, 0), tuple_ref(v), i))

    # --- closure ---
    def forward(self, locs, vals):
        """locations reached from the given locations and SSA values"""
        f = self.fn
        seen_l, seen_v, st = set(), set(), [('l', x) for x in locs] + [('v', x) for x in vals]
        conv = False
        while st:
            k, x = st.pop()
            if k == 'l':
                if x in seen_l:
                    continue
                seen_l.add(x)
                for d, s, n in self.edges:
                    r = rebase(x, s, d, n)
                    if r:
                        st.append(('l', r))
                for i in f.insts():
                    if i.op == 'load' and i.block in self.live and self.loc(i.ops[0]) == x:
                        st.append(('v', i.id))
            else:
                if x in seen_v:
                    continue
                seen_v.add(x)
                for u in f.uses.get(('i', x), []):
                    if u.op == 'extractvalue':
                        if u.d['idx'] == [0]:
                            st.append(('v', u.id))
                    elif u.op in VALUE_OPS or u.op in ('insertvalue',) or \
                            (u.op in ('icmp', 'and') and any(o[0] == 'c' and o[1] in (0, 1) for o in u.ops) and
                             (u.op == 'and' or u.pred == 'ne')):
                        if u.op == 'select' and u.ops[0][:2] == ['i', x]:
                            continue
                        st.append(('v', u.id))
                    elif u.op == 'fcmp' and u.pred == 'une':
                        st.append(('v', u.id))
                    elif u.op == 'store' and u.ops[0][:2] == ['i', x]:
                        d = self.loc(u.ops[1])
                        if d:
                            st.append(('l', d))
                for d, v, i in self.stores:
                    if v == ('i', x) and i.op != 'store':
                        st.append(('l', d))
        return seen_l, seen_v

    def backward(self, loc=None, val=None):
        """(locations, SSA value ids) a location or value may have been copied from"""
        f = self.fn
        seen_l, seen_v, st = set(), set(), []
        if loc:
            st.append(('l', loc))
        if val is not None:
            st.append(('v', val))
        while st:
            k, x = st.pop()
            if k == 'l':
                if x in seen_l:
                    continue
                seen_l.add(x)
                for d, s, n in self.edges:
                    r = rebase(x, d, s, n)
                    if r:
                        st.append(('l', r))
                for d, v, i in self.stores:
                    if d == x and v[0] in 'ia':
                        st.append(('v', v))
            else:
                if x in seen_v or x[0] not in 'ia':
                    continue
                seen_v.add(x)
                i = f.get(x)
                if i is None:
                    continue
                if i.op == 'phi':
                    st += [('v', tuple_ref(r)) for r, _ in i.inc]
                elif i.op == 'select':
                    st += [('v', tuple_ref(r)) for r in i.ops[1:]]
                elif i.op in VALUE_OPS or i.op in ('and', 'icmp'):
                    st.append(('v', tuple_ref(i.ops[0])))
                elif i.op == 'load':
                    l = self.loc(i.ops[0])
                    if l:
                        st.append(('l', l))
        return seen_l, seen_v


def rebase(x, frm, to, n):
    """location x, seen through a copy of the n bytes at frm to to"""
    if x[0] == frm[0] and x[1] >= frm[1] and (n is None or x[1] - frm[1] < n):
        return (to[0], to[1] + x[1] - frm[1])
    # elements (of elements …) of something inside the copied object
    root, tail = x[0], [x[1]]
    while root[0] in ('elem', 'end', 'ptr') and root[1] is not None:
        y = root[1]
        if y[0] == frm[0] and y[1] >= frm[1] and (n is None or y[1] - frm[1] < n):
            z = (to[0], to[1] + y[1] - frm[1])
            kinds = [root[0]]
            # rebuild outwards
            return _rebuild(x, y, z)
        root = y[0]
    return None


def _rebuild(x, y, z):
    if x == y:
        return z
    root, off = x
    if root[0] in ('elem', 'end', 'ptr'):
        return ((root[0], _rebuild(root[1], y, z)), off)
    return x


class Ev:
    def __init__(self, kind, inst, **k):
        self.kind, self.inst = kind, inst
        self.size = k.get('size')       # P, or None when opaque (codec/virtual)
        self.net = k.get('net', False)
        self.codec = k.get('codec')
        self.src = k.get('src')         # writer: Loc
        self.val = k.get('val')         # writer/reader: SSA ref of a scalar value
        self.pos = k.get('pos')         # reader: ref of the position
        self.dst = k.get('dst')         # reader: Loc of the result
        self.ret = k.get('ret', False)
        self.inplace = None             # writer: position form inside a range grown before
        self.cond = False
        self.k = None

    def __repr__(self):
        return f'{self.kind}({self.size if self.size is not None else self.codec})' + ('net' if self.net else '') + \
            ('?' if self.cond else '')


class LoopItem:
    def __init__(self, head, body):
        self.head, self.body = head, body

    def __repr__(self):
        return f'loop@B{self.head}{self.body}'


class Stream:
    """The events of one writer or reader."""
    def __init__(self, fn, mod):
        self.fn, self.mod = fn, mod
        self.flow = Flow(fn)
        self.bufarg, self.writer = None, False
        self.posarg = None
        self.fnargs = []
        self.valarg = None
        self.sret = 0 if fn.params and fn.params[0].get('sret') else None
        for k, p in enumerate(fn.params):
            if k == self.sret:
                continue
            t = fn.argdi(k) or ''
            if re.match(r'(const )?vector<unsigned char.*&$', t) or re.match(r'(const )?std::vector<unsigned char.*&$', t):
                self.bufarg = k
                self.writer = not t.startswith('const')
            elif re.match(r'(const )?(std::)?function<.*&?$', t):
                self.fnargs.append(k)
            elif p['ty'] == 'i64' and self.bufarg is not None and not self.writer:
                self.posarg = k
            elif p['name'] == 'this' and 'lambda' in fn.qual:
                self.closure = k
            elif self.valarg is None:
                self.valarg = k
        if self.bufarg is None:
            raise Unknown('no byte buffer parameter')
        self.events = []
        self._extract()
        self.tree = self._nest()

    # ---- helpers ----
    def isbuf(self, ref):
        return self.flow.loc(ref) == (('arg', self.bufarg), 0)

    def bufptr(self, ref):
        """position ref of a pointer into the buffer, or None"""
        f = self.fn
        b, off, var = f.ptr(ref)
        i = f.get(b)
        if i is None or i.op not in ('call', 'invoke') or not i.ops or not self.isbuf(i.ops[0]):
            return None
        c = i.callee or ''
        if re.search(r'::(operator\[\]|at)$', c):
            base = ('ref', tuple_ref(i.ops[1]))
        elif re.search(r'::(data|begin|cbegin|front)$', c):
            base = ('ref', ('c', 0, 64))
        else:
            return None
        return base, off, var

    def target(self, ref):
        """which codec a std::function object is"""
        f = self.fn
        l = self.flow.loc(ref)
        if l and l[0][0] == 'arg' and l[0][1] in self.fnargs and l[1] == 0:
            return ('param', self.fnargs.index(l[0][1]))
        if l and l[0][0] == 'ptr' and l[0][1] and l[0][1][0][0] in ('arg', 'alloca'):
            return ('outer',)
        if l and l[0][0] == 'alloca':
            for i in f.calls(r'^std::function<.*>::function<'):
                if self.flow.loc(i.ops[0]) == l and len(i.ops) == 2:
                    t = targs(i.callee)
                    if "'lambda" in t:
                        return ('fn', re.sub(r', void$', '', t) + '::operator()')
                    o = i.ops[1]
                    if o[0] == 'g':
                        return ('fn', qual(o[2]))
                    r = f.get(o)
                    fw = None
                    if r is not None and r.op == 'alloca':
                        for d, v, _ in self.flow.stores:
                            if d == (('alloca', r.id), 0) and v[0] == 'g':
                                fw = v
                    if fw:
                        return ('fn', qual(fw[2]))
            # a copy of another function object
            for d, s, n in self.flow.edges:
                if d == l:
                    if s[0][0] == 'arg' and s[0][1] in self.fnargs:
                        return ('param', self.fnargs.index(s[0][1]))
                    if s[0][0] == 'ptr':
                        return ('outer',)
        raise Unknown(f'cannot tell which codec is called at {self.fn.where()}')

    # ---- events ----
    def _extract(self):
        f, fl = self.fn, self.flow
        reserve = []
        order = self._order()
        for b in sorted(order, key=order.get):
            if b not in fl.live or f.throws(b):
                continue
            for i in f.blocks[b]:
                self._event(i, reserve)
        for i, n, at in reserve:
            if not any(e.inplace is not None for e in self.events):
                raise Unknown('buffer grown without being filled')
        self.reserve = reserve
        num = self._order()
        self.events.sort(key=lambda e: (num[e.inst.block], e.inst.idx))
        for k, e in enumerate(self.events):
            e.k = k

    def _order(self):
        """topological order of the blocks in which a loop body precedes what follows the loop"""
        f = self.fn
        depth = {}
        for h, body in f.loops().items():
            for b in body:
                depth[b] = depth.get(b, 0) + 1
        out, seen = [], {0}
        st = [(0, iter(sorted(f.succs[0], key=lambda x: depth.get(x, 0))))]
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(sorted(f.succs[x], key=lambda y: depth.get(y, 0)))))
                    break
            else:
                out.append(b)
                st.pop()
        return {b: k for k, b in enumerate(reversed(out))}

    def _event(self, i, reserve):
        f, fl = self.fn, self.flow
        if i.op == 'load' and not self.writer:
            p = self.bufptr(i.ops[0])
            if p:
                n = width(i.ty)
                if n is None:
                    raise Unknown('load of unknown width from the buffer')
                self.events.append(Ev('raw', i, size=P(n), pos=p, val=('i', i.id)))
            return
        if i.op not in ('call', 'invoke'):
            return
        cn = i.cn or ''
        if cn.startswith(('llvm.memcpy', 'llvm.memmove')):
            n = self.form(i.ops[2])
            if self.writer:
                p = self.bufptr(i.ops[0])
                if p:
                    g = [r for r in reserve if r[1] == n]
                    if not g:
                        raise Unknown('copy into the buffer that no growth of the same length precedes')
                    want = self.posform(p)
                    if want != g[0][2]:
                        raise Unknown('copy into the buffer not at the grown range')
                    reserve.remove(g[0])
                    self.events.append(Ev('raw', i, size=n, src=fl.loc(i.ops[1])))
                return
            p = self.bufptr(i.ops[1])
            if p:
                self.events.append(Ev('raw', i, size=n, pos=p, dst=fl.loc(i.ops[0])))
            return
        if cn.startswith('llvm.'):
            return
        ops = [k for k, o in enumerate(i.ops) if f.is_ptr(o) and self.isbuf(o)]
        if not ops:
            return
        c = i.callee or ''
        if sa.PURE.search(c):
            return
        m = PRIM.search(c)
        if m:
            net = bool(m.group(2))
            if m.group(1) == 'S':
                if not self.writer:
                    raise Unknown('reader writes')
                e = Ev('raw', i, size=P(i.deref[0]), net=net, src=fl.loc(i.ops[0]))
                if m.group(3):
                    e.inplace = self.posform((('ref', tuple_ref(i.ops[2])), 0, []))
                self.events.append(e)
            else:
                sz = ('i', i.id)
                if i.sret:
                    raise Unknown('primitive value returned in memory')  # handled below by size of T
                self.events.append(Ev('raw', i, size=P(prim_size(m.group(4) or '')), net=net, pos=(('ref', tuple_ref(i.ops[1])), 0, []),
                                      val=('i', i.id)))
            return
        if FCALL.search(c):
            if self.writer:
                self.events.append(Ev('codec', i, codec=self.target(i.ops[0]), src=fl.loc(i.ops[1])))
            else:
                o = 1 if i.sret else 0
                if not i.sret:
                    self.events.append(Ev('codec', i, codec=self.target(i.ops[0]), val=('i', i.id),
                                          pos=(('ref', tuple_ref(i.ops[2])), 0, [])))
                else:
                    self.events.append(Ev('codec', i, codec=self.target(i.ops[1]), dst=fl.loc(i.ops[0]),
                                          pos=(('ref', tuple_ref(i.ops[3])), 0, [])))
            return
        if i.ind:
            slot = self.slot(i)
            if slot is None:
                raise Unknown('indirect call on the buffer')
            o = 1 if i.sret else 0
            if self.writer:
                self.events.append(Ev('codec', i, codec=('virtual', slot), src=fl.loc(i.ops[o])))
            else:
                pos = [x for x in i.ops if self.width(x) == 'i64']
                self.events.append(Ev('codec', i, codec=('virtual', slot), pos=(('ref', tuple_ref(pos[0])), 0, []),
                                      dst=fl.loc(i.ops[o]), ret=True))
            return
        if self.writer:
            q = sa.strip_targs(c)
            if q.endswith('::reserve') or q.endswith('::shrink_to_fit'):
                return
            if q.endswith('::insert') and len(i.ops) == 4 and self.bufend(i.ops[1]):
                src, n = self.range(i.ops[2], i.ops[3])
                self.events.append(Ev('raw', i, size=n, src=src))
                return
            if q.endswith('::resize'):
                old = [x for x in f.calls(r'::size$') if self.isbuf(x.ops[0])]
                n = self.form(i.ops[1])
                for x in old:
                    d = n - self.form(('i', x.id))
                    if not any(a[0] == 'bufsize' for a in d.atoms()) and f.dom(x, i):
                        reserve.append((i, d, self.form(('i', x.id))))
                        return
                raise Unknown('buffer resized to an unrecognised length')
            if q.endswith('::push_back'):
                self.events.append(Ev('raw', i, size=P(1), val=tuple_ref(i.ops[1]),
                                      src=fl.loc(i.ops[1]) if f.is_ptr(i.ops[1]) else None))
                return
        raise Unknown(f'{sa.canon_callee(c)} on the buffer')

    def width(self, ref):
        if ref[0] == 'i':
            return self.fn.inst[ref[1]].ty
        if ref[0] == 'a':
            return self.fn.params[ref[1]]['ty']
        return 'i64' if ref[0] == 'c' else None

    def slot(self, i):
        """name of the virtual function called"""
        f = self.fn
        v = f.get(i.ind)
        if v is None or v.op != 'load':
            return None
        b, off, var = f.ptr(v.ops[0])
        if var or f.get(b) is None or f.get(b).op != 'load':
            return None
        names = set()
        for vt, slots in self.mod.vtables.items():
            if off // 8 < len(slots) and slots[off // 8] not in ('?', '__cxa_pure_virtual'):
                names.add(sa.strip_targs(qual(slots[off // 8])).split('::')[-1])
        names = {n for n in names if re.search('erialize', n)} or names
        return names.pop() if len(names) == 1 else None

    def bufend(self, ref):
        i = self.fn.get(self.fn.ptr(ref)[0])
        return i is not None and re.search(r'::c?end$', i.callee or '') and self.isbuf(i.ops[0])

    def range(self, a, b):
        """(source location, length form) of the iterator range [a, b)"""
        f, fl = self.fn, self.flow
        la, lb = fl.loc(a), fl.loc(b)
        if la and lb and la[0][0] == 'elem' and lb[0] == ('end', la[0][1]) and la[1] == 0 and lb[1] == 0:
            cont = la[0][1]
            # a local byte vector of known length, filled by copies
            if cont[0][0] == 'alloca':
                for i in f.calls(r'^std::vector<unsigned char.*>::vector$'):
                    if fl.loc(i.ops[0]) == cont and len(i.ops) >= 3 and not f.is_ptr(i.ops[1]):
                        return la, self.form(i.ops[1])
        # [p, p + n)
        ba, oa, va = f.ptr(a)
        bb, ob, vb = f.ptr(b)
        if ba == bb and la:
            n = P(ob - oa)
            for v, s in vb:
                n = n + self.form(v) * P(s)
            for v, s in va:
                n = n - self.form(v) * P(s)
            return la, n
        raise Unknown('range appended to the buffer is not understood')

    # ---- integer forms ----
    def form(self, ref, depth=30):
        f, fl = self.fn, self.flow
        ref = tuple_ref(ref)
        if ref[0] == 'c':
            return P(ref[1])
        if ref[0] == 'a':
            if ref[1] == self.posarg:
                return atom(('start',))
            return atom(('arg', ref[1]))
        i = f.get(ref)
        if i is None or depth == 0:
            return atom(('x', ref))
        F = lambda r: self.form(r, depth - 1)
        if i.op == 'add':
            return F(i.ops[0]) + F(i.ops[1])
        if i.op == 'sub':
            return F(i.ops[0]) - F(i.ops[1])
        if i.op == 'mul':
            return F(i.ops[0]) * F(i.ops[1])
        if i.op == 'shl' and i.ops[1][0] == 'c':
            return F(i.ops[0]) * P(1 << i.ops[1][1])
        if i.op in ('zext', 'sext', 'freeze', 'bitcast'):
            return F(i.ops[0])
        if i.op == 'extractvalue':
            s = f.get(i.ops[0])
            for e in self.events:
                if e.inst is s:
                    return self.bytes_of(e) if i.d['idx'] == [1] else atom(('val', e.k_or_id()))
        if i.op == 'load':
            v = f.forward(i)
            if v is not None:
                return F(v)
            l = fl.loc(i.ops[0])
            for e in self.events:
                if e.dst and l and e.dst[0] == l[0] and e.inst.op in ('call', 'invoke') and not (e.inst.cn or '').startswith('llvm.'):
                    if e.inst.sretsz and l[1] > e.dst[1]:
                        return self.bytes_of(e)
                    if l[1] == e.dst[1]:
                        return atom(('val', e.k_or_id()))
            # a scalar local written once
            if l:
                st = [(v, s) for d, v, s in fl.stores if d == l and s.op == 'store']
                if len(st) == 1 and l[0][0] == 'alloca' and f.dom(st[0][1], i) and not any(
                        rebase(l, d, d, n) for d, s, n in fl.edges):
                    return F(st[0][0])
                src, vals = fl.backward(loc=l)
                ev = [e for e in self.events if e.dst in src and e.inst.op in ('call', 'invoke')]
                if len(st) == 0 and len(src) > 1:
                    ss = [(v, s) for x in src for d, v, s in fl.stores if d == x and s.op == 'store']
                    if len(ss) == 1:
                        return F(ss[0][0])
                return atom(('loc', l))
        if i.op in ('call', 'invoke'):
            for e in self.events:
                if e.inst is i and (self.writer or e.ret):
                    return self.bytes_of(e)
                if e.inst is i and not self.writer and e.val == ('i', i.id):
                    return atom(('val', e.k_or_id()))
            c = i.callee or ''
            if i.ops and OBS.search(c):
                l = fl.loc(i.ops[0])
                if l == (('arg', self.bufarg), 0):
                    return atom(('bufsize', i.id))
                return atom(('size', c.split('::')[-1].replace('length', 'size'), l))
        return atom(('i', i.id))

    def posform(self, p):
        (k, r), off, var = p
        x = self.form(r) + P(off)
        for v, s in var:
            x = x + self.form(v) * P(s)
        return x

    def bytes_of(self, e):
        return e.size if e.size is not None else atom(('bytes', e.k_or_id()))

    # ---- nesting ----
    def _nest(self):
        f = self.fn
        loops = f.loops()
        def chain(b):
            hs = [h for h, body in loops.items() if b in body]
            return sorted(hs, key=lambda h: -len(loops[h]))
        def build(evs, depth, region):
            out, k = [], 0
            while k < len(evs):
                e = evs[k]
                ch = chain(e.inst.block)
                if len(ch) > depth:
                    h = ch[depth]
                    grp = []
                    while k < len(evs) and len(chain(evs[k].inst.block)) > depth and chain(evs[k].inst.block)[depth] == h:
                        grp.append(evs[k])
                        k += 1
                    if any(len(chain(x.inst.block)) > depth and chain(x.inst.block)[depth] == h for x in evs[k:]):
                        raise Unknown('loop events interleaved with others')
                    out.append(LoopItem(h, build(grp, depth + 1, loops[h])))
                else:
                    e.cond = self._conditional(e, region)
                    out.append(e)
                    k += 1
            return out
        return build(self.events, 0, None)

    def _conditional(self, e, region):
        f = self.fn
        b = e.inst.block
        if region is None:
            ends = [r.block for r in f.rets()]
        else:
            head = min(region, key=lambda x: f.rpo.index(x))
            ends = [p for p in f.preds[head] if p in region]
        if all(f.bdom(b, x) for x in ends):
            return False
        # guarded only by "its own length is not zero"
        if e.size is not None:
            free = 0
            for ref, pol, br in f.facts(b):
                if all(f.bdom(br.block, x) for x in ends) and not all(f.throws(s) or s in (b,) or True for s in [b]):
                    pass
            gs = [(ref, pol) for ref, pol, br in f.facts(b) if not self._always(br, b, ends)]
            if gs and all(self._nonzero(ref, pol, e.size) for ref, pol in gs):
                return False
        return True

    def _always(self, br, b, ends):
        """the other side of branch br only leads to exceptions"""
        f = self.fn
        for s in f.succs[br.block]:
            r = f.reach([s])
            if not any(x in r for x in ends):
                continue
            if f.bdom(s, b) and s != b and f.edge_dominates(br.block, s, b) or s == b:
                continue
            if b in r and not f.bdom(s, b):
                continue
            return False
        return True

    def _nonzero(self, ref, pol, size):
        f = self.fn
        i = f.get(ref)
        if i is None or i.op != 'icmp':
            return False
        x, y = self.form(i.ops[0]), self.form(i.ops[1])
        if i.pred == 'ugt' and pol and y.const() == 0 or i.pred == 'ne' and pol and y.const() == 0 or \
           i.pred == 'eq' and not pol and y.const() == 0 or i.pred == 'ule' and not pol and y.const() == 0 or \
           i.pred == 'ugt' and pol and y.const() == 0 or i.pred == 'sgt' and pol and y.const() == 0:
            # size is a multiple of the tested quantity
            xs = next(iter(x.t), None)
            return len(x.t) == 1 and all(set(xs) <= set(k) for k in size.t)
        return False


def _k(self):
    return self.k if self.k is not None else ('i', self.inst.id)


Ev.k_or_id = lambda self: self.inst.id


def targs(q):
    """last template argument list of a name"""
    d, k = 0, len(q) - 1
    while k >= 0:
        if q[k] == '>' and q[k - 1] != '-':
            d += 1
        elif q[k] == '<':
            d -= 1
            if d == 0:
                return q[k + 1:-1]
        k -= 1
    return ''


def qual(dem):
    d = sa.strip_depth(dem)
    q = dem[:d[0]] if d else dem
    # drop a leading return type
    depth = 0
    for k, ch in enumerate(q):
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif ch == ' ' and depth == 0:
            return q[k + 1:]
    return q


SIZES = {'unsigned char': 1, 'signed char': 1, 'char': 1, 'bool': 1, 'unsigned short': 2, 'short': 2, 'unsigned int': 4,
         'int': 4, 'float': 4, 'long': 8, 'unsigned long': 8, 'double': 8, 'char16_t': 2, 'char32_t': 4}


def prim_size(t):
    t = t.strip('<>')
    if t in SIZES:
        return SIZES[t]
    raise Unknown(f'primitive of type {t}')


def width(ty):
    m = re.match(r'i(\d+)$', ty or '')
    if m:
        return int(m.group(1)) // 8
    return {'double': 8, 'float': 4, 'ptr': 8}.get(ty)
