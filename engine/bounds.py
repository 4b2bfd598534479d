"""Extent obligations: every access through a pointer derived from a standard
container or a local object stays inside that object."""
import re

import sa
from lin import SIZES, Env, Lin, prove_at, last_def, defined_size

ELEM = re.compile(r'^std::(?:__cxx11::)?(vector|basic_string|deque)<(.*)>::(operator\[\]|at|data|begin|cbegin|front|c_str)$')

def first_targ(s):
    d = 0
    for k, c in enumerate(s):
        if c in '<(':
            d += 1
        elif c in '>)':
            d -= 1
        elif c == ',' and d == 0:
            return s[:k].strip()
    return s.strip()


class Bounds:
    def __init__(self, fn):
        self.fn = fn
        self.sizes = SIZES
        self.envs = {}

    def env(self, block):
        k = (block, ())
        if k not in self.envs:
            self.envs[k] = Env(self.fn, block)
        return self.envs[k]

    def holds(self, block, goals):
        return prove_at(self.fn, block, goals, cache=self.envs)

    def elem_size(self, t):
        t = t.strip()
        if t in self.sizes:
            return self.sizes[t]
        b = re.sub(r'<.*>', '', t)
        for c in self.fn.mod.by_base.get(b, []):
            return c['size']
        return None

    def size_lin(self, vec, at, env):
        """number of elements of container *vec just before instruction at, as Lin"""
        fn = self.fn
        o = fn.obj(vec)
        # the last change of the container before `at`
        muts = [(m, ts) for m, ts in fn.mutators() if any(sa.inside(o, t) or sa.inside(t, o) for t in ts)]
        last = last_def(fn, muts, at)
        if last == 'entry':
            # any observation of size before the first change
            for i in fn.calls(r'::(size|length)$'):
                if fn.obj(i.ops[0]) == o and not any(t[0] == 'ver' for t in fn.term(('i', i.id)) if isinstance(t, tuple)):
                    return env.u(('i', i.id))
            return None
        if last is None:
            return None
        n = defined_size(last, env)
        if n is not None:
            return n
        for i in fn.calls(r'::(size|length)$'):
            if fn.obj(i.ops[0]) == o and fn.dom(last, i) and \
                    last_def(fn, muts, i) is last and (fn.dom(i, at)):
                return env.u(('i', i.id))
        return None

    def pointer(self, ref, at, env):
        """(kind, byte offset Lin, extent Lin, description, element index obligation) or None"""
        fn = self.fn
        base, off, var = fn.ptr(ref)
        o = Lin(off)
        for v, s in var:
            o = o + env.s(v).scale(s)
        i = fn.get(base)
        if i is None:
            return None
        if i.op == 'alloca' and i.asz is not None:
            return ('local', o, Lin(i.asz), i.nm or 'local')
        if i.op in ('call', 'invoke') and i.callee:
            m = ELEM.match(i.callee)
            if m:
                es = self.elem_size(first_targ(m.group(2)))
                if es is None:
                    return None
                n = self.size_lin(i.ops[0], i, env)
                idx = Lin(0)
                if m.group(3) in ('operator[]', 'at'):
                    idx = env.u(i.ops[1])
                if n is None:
                    return ('unsized', idx.scale(es) + o, None, self.name(i.ops[0]))
                return ('container', idx.scale(es) + o, n.scale(es), self.name(i.ops[0]))
            if re.search(r'^Eigen::PlainObjectBase<.*>::data$', i.callee):
                n = self.eigen_bytes(i.ops[0], i, env)
                if n is not None:
                    return ('eigen', o, n, self.name(i.ops[0]))
        return None

    def eigen_bytes(self, obj, at, env):
        fn = self.fn
        b, off, var = fn.ptr(obj)
        i = fn.get(b)
        m = None
        if at.callee:
            m = re.search(r'PlainObjectBase<Eigen::Matrix<(\w+), (-?\d+), (-?\d+)', at.callee)
        if not m:
            return None
        es = SIZES.get(m.group(1))
        r, c = int(m.group(2)), int(m.group(3))
        if r >= 0 and c >= 0:
            return Lin(r * c * es)
        if b[0] == 'a':
            # rows()*cols() of an argument
            def dim(k):
                for x in fn.calls(r'Eigen::.*::%s$' % k):
                    if fn.obj(x.ops[0]) == fn.obj(obj):
                        return env.u(('i', x.id))
                return None
            if r == -1 and c == -1:
                x, y = dim('rows'), dim('cols')
                if x is not None and y is not None:
                    p = env.product(x, y)
                    return p.scale(es) if p is not None else None
            z = dim('size')
            return z.scale(es) if z is not None else None
        if i is None or i.op != 'alloca':
            return None
        # constructed from Zero(rows, cols) / a size
        for x in fn.calls(r'^Eigen::Matrix<.*>::Matrix'):
            if fn.obj(x.ops[0]) == fn.obj(obj) and fn.dom(x, at):
                a = x.ops[1] if len(x.ops) > 1 else None
                if a is None:
                    continue
                src = fn.get(fn.ptr(a)[0])
                if src is not None and src.op == 'alloca':
                    for z in fn.calls(r'^Eigen::DenseBase<.*>::(Zero|Constant|Ones)'):
                        if fn.obj(z.ops[0]) == fn.obj(a):
                            if len(z.ops) >= 3:
                                p = env.product(env.u(z.ops[1]), env.u(z.ops[2]))
                                return p.scale(es) if p is not None else None
                            return env.u(z.ops[1]).scale(es)
                    for u in fn.alloca_uses(src.id):
                        if u[1] == 'store' and fn.dom(u[0], x):
                            return env.u(u[0].ops[0]).scale(es)
                elif src is None and a[0] in 'ia':
                    pass
        return None

    def name(self, ref):
        b, off, _ = self.fn.ptr(ref)
        if b[0] == 'a':
            return self.fn.params[b[1]]['name']
        i = self.fn.get(b)
        return (i.nm or f'%{i.id}') if i is not None else '?'

    def accesses(self):
        """yields (inst, what, pointer ref, length Lin-maker, 'read'|'write')"""
        for i in self.fn.insts():
            if i.block not in self.fn.live():
                continue
            if i.op == 'call' and (i.cn or '').startswith(('llvm.memcpy', 'llvm.memmove', 'memcpy', 'memmove')):
                yield i, i.ops[0], i.ops[2], 'write'
                yield i, i.ops[1], i.ops[2], 'read'
            elif i.op == 'load':
                n = tysize(i.ty)
                if n:
                    yield i, i.ops[0], n, 'read'
            elif i.op == 'store':
                n = tysize(i.sty)
                if n:
                    yield i, i.ops[1], n, 'write'


def tysize(t):
    m = re.match(r'i(\d+)$', t or '')
    if m:
        return max(1, int(m.group(1)) // 8)
    return {'double': 8, 'float': 4, 'ptr': 8}.get(t)
