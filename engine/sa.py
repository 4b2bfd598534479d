"""Rule-engine core: reads the IR that irx writes and offers CFG, dominance,
guard and term queries on it.  Nothing here executes the code under analysis."""
import json
import os
import re
import subprocess
import sys
import tempfile

REPO = os.environ.get('CRU_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NS = 'common_robotics_utilities::v1::'
CXX = next((c for c in ('/usr/bin/clang++-18', '/usr/lib/llvm-18/bin/clang++') if os.path.exists(c)), 'clang++')
CXXFLAGS = ['-std=c++17', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-fno-discard-value-names',
            '-fno-limit-debug-info', '-w', '-I', f'{REPO}/include', '-I', REPO, '-isystem', '/usr/include/eigen3',
            '-fno-access-control']


class Broken(Exception):
    """The analysis lost its footing (vanished anchor, unparsable unit): an error
    of the check, neither a pass nor a violation."""


class CompileError(Exception):
    def __init__(self, unit, text):
        super().__init__(f'{unit} does not compile')
        self.unit, self.text = unit, text


def irx_path():
    p = f'{VERIF}/build/irx'
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(f'{VERIF}/tools/irx/irx.cpp'):
        os.makedirs(f'{VERIF}/build', exist_ok=True)
        tmp = f'{p}.{os.getpid()}'
        r = subprocess.run(['g++', '-O1', '-std=c++17', '-fno-rtti', '-w', '-I/usr/lib/llvm-18/include',
                            f'{VERIF}/tools/irx/irx.cpp', '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'],
                           capture_output=True, text=True)
        if r.returncode:
            raise Broken('irx does not build: ' + r.stderr[-2000:])
        os.rename(tmp, p)
    return p


class Work:
    """Scratch folder of one check run."""
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='cru-sa-')
        self.ll = {}

    def compile(self, unit, flags=(), std_flags=True):
        """unit: path below /verif/witness or absolute; returns path of the IR."""
        key = (unit, tuple(flags))
        if key in self.ll:
            return self.ll[key]
        src = unit if unit.startswith('/') else f'{VERIF}/witness/{unit}'
        out = f'{self.dir}/{len(self.ll)}-{os.path.basename(unit)}.bc'
        r = subprocess.run([CXX, *CXXFLAGS, *flags, '-emit-llvm', '-c', '-o', out, src],
                           capture_output=True, text=True)
        if r.returncode:
            raise CompileError(unit, r.stderr)
        self.ll[key] = out
        return out

    def load(self, unit, roots, keep=(), inline=(), unwind=False, flags=(), passes=None, reach=False):
        bc = self.compile(unit, flags)
        cmd = [irx_path(), bc]
        for r in ([roots] if isinstance(roots, str) else roots):
            cmd += ['--roots', r]
        for k in keep:
            cmd += ['--keep', k]
        for k in inline:
            cmd += ['--inline', k]
        if unwind:
            cmd += ['--unwind']
        if reach:
            cmd += ['--reach']
        if passes:
            cmd += ['--passes', passes]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode:
            raise Broken(f'irx failed on {unit}: {r.stderr[-2000:]}')
        return Module(json.loads(r.stdout))

    def done(self):
        import shutil
        shutil.rmtree(self.dir, ignore_errors=True)


class Module:
    def __init__(self, d):
        self.types = {}
        for t in d['types']:
            self.types.setdefault(t['name'], t)
        self.tables = {t['dem']: (t['bits'], t['values']) for t in d.get('tables', ())}
        self.globals = d.get('globals', [])
        self.vtables = {v['name']: v['slots'] for v in d['vtables']}
        self.fns = [Fn(f, self) for f in d['functions']]
        self.by_base = {}
        for t in d['types']:
            self.by_base.setdefault(re.sub(r'<.*>', '', t['name']), []).append(t)

    def find(self, rx, one=False, need=True):
        got = [f for f in self.fns if re.search(rx, f.qual)]
        if need and not got:
            raise Broken(f'no function matches {rx}: the anchor vanished')
        if one and len(got) > 1:
            raise Broken(f'{len(got)} functions match {rx}')
        return got[0] if one else got

    def member_at(self, struct, off, size=None):
        """Name of the member at byte offset off of LLVM struct name struct."""
        base = re.sub(r'^(class|struct|union)\.', '', struct)
        base = re.sub(r'\.\d+$', '', base)
        base = re.sub(r'<.*>', '', base)
        for t in self.by_base.get(base, []):
            if size is not None and t['size'] != size:
                continue
            for m in t['members']:
                if m[1] == off:
                    return m[0]
        for t in self.by_base.get(base, []):
            for m in t['members']:
                if m[1] == off:
                    return m[0]
        return None


TERMS = ('br', 'switch', 'ret', 'unreachable', 'invoke', 'resume', 'indirectbr')
CASTS = ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'freeze')


class Inst:
    __slots__ = ('id', 'op', 'ty', 'nm', 'ops', 'd', 'block', 'idx', 'fn')

    def __init__(self, d, block, idx, fn):
        self.id, self.op = d['id'], d['op']
        self.ty, self.nm = d.get('ty'), d.get('nm')
        self.ops = d.get('ops', [])
        self.d, self.block, self.idx, self.fn = d, block, idx, fn

    def __getattr__(self, k):
        return self.d.get(k)

    @property
    def callee(self):
        return self.d.get('cq')

    def where(self):
        loc = self.d.get('loc')
        if not loc:
            return f'{self.fn.file}:{self.fn.line}'
        for f, l, _ in loc:
            if f.startswith(REPO):
                return f'{f}:{l}'
        return f'{loc[0][0]}:{loc[0][1]}'

    def chain(self):
        return ' <- '.join(f'{os.path.basename(f)}:{l} ({n})' for f, l, n in (self.d.get('loc') or []))

    def __repr__(self):
        return f'%{self.id}={self.op}'


class Fn:
    def __init__(self, d, mod):
        self.mod = mod
        self.name, self.dem, self.qual = d['name'], d['dem'], d['qual']
        self.file, self.line = d.get('file', '?'), d.get('line', 0)
        self.params = d['params']
        self.argtypes = d.get('argtypes', [])
        self.blocks = []
        self.inst = {}
        for b in d['blocks']:
            ins = []
            for k, i in enumerate(b['insts']):
                o = Inst(i, b['id'], k, self)
                ins.append(o)
                self.inst[o.id] = o
            self.blocks.append(ins)
        self.succs = [list(dict.fromkeys(b['succs'])) for b in d['blocks']]
        self.preds = [[] for _ in self.blocks]
        for b, ss in enumerate(self.succs):
            for s in ss:
                self.preds[s].append(b)
        self._idom = None
        self._uses = None
        self._facts = {}

    # ----- names -----
    def short(self):
        return self.qual.replace(NS, '').replace('common_robotics_utilities::', '')

    def arg(self, name):
        for k, p in enumerate(self.params):
            if p['name'] == name:
                return ('a', k)
        return None

    def where(self):
        return f'{self.file}:{self.line}'

    # ----- iteration -----
    def insts(self):
        for b in self.blocks:
            yield from b

    def calls(self, rx=None):
        for i in self.insts():
            if i.op in ('call', 'invoke') and not (i.cn or '').startswith('llvm.'):
                if rx is None or (i.callee is not None and re.search(rx, i.callee)):
                    yield i

    def get(self, ref):
        return self.inst[ref[1]] if ref and ref[0] == 'i' else None

    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for i in self.insts():
                refs = list(i.ops)
                if i.inc:
                    refs += [r for r, _ in i.inc]
                if i.ind:
                    refs.append(i.ind)
                for r in refs:
                    if r[0] in 'ia':
                        u.setdefault((r[0], r[1]), []).append(i)
            self._uses = u
        return self._uses

    # ----- dominance -----
    @property
    def idom(self):
        if self._idom is None:
            order, seen = [], set()
            stack = [(0, iter(self.succs[0]))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for s in it:
                    if s not in seen:
                        seen.add(s)
                        stack.append((s, iter(self.succs[s])))
                        break
                else:
                    order.append(b)
                    stack.pop()
            rpo = order[::-1]
            num = {b: k for k, b in enumerate(rpo)}
            idom = {0: 0}
            changed = True
            while changed:
                changed = False
                for b in rpo[1:]:
                    ps = [p for p in self.preds[b] if p in idom]
                    n = ps[0]
                    for p in ps[1:]:
                        x, y = n, p
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        n = x
                    if idom.get(b) != n:
                        idom[b] = n
                        changed = True
            self._idom = idom
            self.rpo = rpo
        return self._idom

    def bdom(self, a, b):
        """block a dominates block b"""
        idom = self.idom
        if b not in idom:
            return True
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = idom[b]

    def dom(self, x, y):
        """instruction x dominates instruction y"""
        if x.block == y.block:
            return x.idx < y.idx
        return self.bdom(x.block, y.block)

    def reach(self, starts, avoid=()):
        """blocks reachable from the blocks in starts (inclusive) avoiding avoid"""
        seen, st = set(), [s for s in starts if s not in avoid]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += [s for s in self.succs[b] if s not in avoid]
        return seen

    def live(self):
        return self.reach([0])

    def rets(self):
        return [i for i in self.insts() if i.op == 'ret' and i.block in self.live()]

    def throws(self, b):
        """block b ends in a throw / noreturn"""
        return self.blocks[b][-1].op in ('unreachable', 'resume')

    def path_avoiding(self, src, dst_blocks, avoid_blocks):
        """some CFG path from block src to one of dst avoiding; list of blocks or None"""
        from collections import deque
        if src in avoid_blocks:
            return None
        prev, q = {src: None}, deque([src])
        while q:
            b = q.popleft()
            if b in dst_blocks:
                p = []
                while b is not None:
                    p.append(b)
                    b = prev[b]
                return p[::-1]
            for s in self.succs[b]:
                if s not in prev and s not in avoid_blocks:
                    prev[s] = b
                    q.append(s)
        return None

    # ----- guards -----
    def edge_dominates(self, a, s, b):
        """edge a->s dominates block b"""
        if not self.bdom(s, b):
            return False
        # s must only be entered over this edge or from blocks s dominates
        for p in self.preds[s]:
            if p != a and not self.bdom(s, p):
                return False
        return True

    def facts(self, b):
        """conditions known to hold on entry of block b: [(ref, polarity, branch inst)]"""
        if b in self._facts:
            return self._facts[b]
        out = []
        if b in self.idom:
            d = b
            while d != 0:
                d2 = self.idom[d]
                t = self.blocks[d2][-1]
                if t.op == 'br' and len(t.ops) == 3:
                    cond = t.ops[0]
                    fb, tb = t.ops[1][1], t.ops[2][1]
                    if fb != tb:
                        if self.edge_dominates(d2, tb, b):
                            out.append((cond, True, t))
                        elif self.edge_dominates(d2, fb, b):
                            out.append((cond, False, t))
                elif t.op == 'switch':
                    for val, tgt in t.cases:
                        if [c[1] for c in t.cases].count(tgt) == 1 and tgt != t.ops[1][1] \
                                and self.edge_dominates(d2, tgt, b):
                            out.append((('sw', t.ops[0], val), True, t))
                d = d2
        res = []
        for c in out:
            self._expand(c, res)
        self._facts[b] = res
        return res

    def edge_cond(self, a, s):
        t = self.blocks[a][-1]
        if t.op == 'br' and len(t.ops) == 3 and t.ops[1][1] != t.ops[2][1]:
            return (t.ops[0], t.ops[2][1] == s, t)
        return None

    def _expand(self, c, res):
        ref, pol, t = c
        i = self.get(ref) if ref[0] == 'i' else None
        if i is not None:
            if i.op == 'xor' and i.ty == 'i1' and i.ops[1][0] == 'c':
                return self._expand((i.ops[0], not pol, t), res)
            if i.op == 'freeze':
                return self._expand((i.ops[0], pol, t), res)
            if i.op == 'select' and i.ty == 'i1':
                cnd, a, b = i.ops
                if pol and b[0] == 'c' and b[1] == 0:  # and
                    self._expand((cnd, True, t), res)
                    self._expand((a, True, t), res)
                    return
                if not pol and a[0] == 'c' and a[1] != 0:  # or
                    self._expand((cnd, False, t), res)
                    self._expand((b, False, t), res)
                    return
            if i.op == 'phi' and i.ty == 'i1':
                ok = [(v, b) for v, b in i.inc
                      if not (v[0] == 'c' and bool(v[1]) != pol)]
                if len(ok) == 1:
                    v, b = ok[0]
                    if v[0] != 'c':
                        self._expand((v, pol, t), res)
                    elif not pol and False:
                        pass
                    if not self.bdom(i.block, b):
                        res.extend(self.facts(b))
                        e = self.edge_cond(b, i.block)
                        if e:
                            self._expand(e, res)
                    return
            if i.op == 'and' and i.ty == 'i1' and pol:
                for o in i.ops:
                    self._expand((o, True, t), res)
                return
            if i.op == 'or' and i.ty == 'i1' and not pol:
                for o in i.ops:
                    self._expand((o, False, t), res)
                return
        res.append((ref, pol, t))

    # ----- pointers and terms -----
    def ptr(self, ref):
        """(base ref, constant offset, [(var ref, scale)]) of a pointer"""
        off, var = 0, []
        while True:
            if ref[0] == 'ge':
                off += ref[2]
                ref = ref[1]
                continue
            i = self.get(ref)
            if i is None:
                break
            if i.op == 'getelementptr' and i.off is not None:
                off += i.off
                var += [(tuple_ref(v), s) for v, s in i.var]
                ref = i.ops[0]
                continue
            if i.op in ('bitcast', 'freeze', 'addrspacecast'):
                ref = i.ops[0]
                continue
            break
        return tuple_ref(ref), off, var

    def term(self, ref, depth=24):
        """Structural value term; equal terms denote equal values as long as the
        memory they read is unchanged."""
        k = ref[0]
        if k == 'c':
            return ('c', ref[1])
        if k == 'cf':
            return ('cf', ref[1])
        if k == 'a':
            return ('arg', self.params[ref[1]]['name'] or ref[1])
        if k == 'g':
            return ('g', ref[2])
        if k in 'nuz':
            return (k,)
        if k == 'ge':
            return ('gep', self.term(ref[1], depth), ref[2])
        if k != 'i':
            return ('x', str(ref))
        i = self.inst[ref[1]]
        if depth <= 0:
            return ('deep', i.id)
        T = lambda r: self.term(r, depth - 1)
        if i.op in CASTS:
            return T(i.ops[0])
        if i.op == 'getelementptr':
            b, off, var = self.ptr(ref)
            t = T(b)
            if off or var:
                t = ('gep', t, off) + tuple((T(v), s) for v, s in var)
            return t
        if i.op == 'load':
            v = self.forward(i)
            if v is not None:
                return T(v)
            return ('load', T(i.ops[0]))
        if i.op in ('call', 'invoke'):
            if i.cn and i.cn.startswith('llvm.'):
                return ('call', i.cn, *[T(o) for o in i.ops])
            if i.callee:
                if PURE.search(i.callee):
                    v = self.version(i)
                    return ('call', canon_callee(i.callee), *[T(o) for o in i.ops], *v)
                return ('callv', canon_callee(i.callee), i.id, *[T(o) for o in i.ops])
            return ('indcall', i.id, T(i.ind), *[T(o) for o in i.ops])
        if i.op == 'phi':
            return ('phi', i.id)
        if i.op == 'alloca':
            return ('alloca', i.id, i.nm)
        if i.op in ('icmp', 'fcmp'):
            return (i.op, i.pred, T(i.ops[0]), T(i.ops[1]))
        if i.op == 'extractvalue':
            return ('ev', tuple(i.d['idx']), T(i.ops[0]))
        return (i.op, *[T(o) for o in i.ops])

    # ----- effects -----
    def mutators(self):
        """[(call inst, [pointer terms it may write through])]"""
        if getattr(self, '_mut', None) is None:
            self._mut = []
            for i in self.insts():
                if i.op in ('call', 'invoke') and not (i.cn or '').startswith('llvm.'):
                    ws = written_ops(i)
                    ts = []
                    for k in ws:
                        o = i.ops[k]
                        if self.is_ptr(o):
                            ts.append(self.obj(o))
                    if ts:
                        self._mut.append((i, ts))
        return self._mut

    def is_ptr(self, o):
        if o[0] == 'a':
            return self.params[o[1]]['ty'] == 'ptr'
        if o[0] == 'i':
            return self.inst[o[1]].ty == 'ptr'
        return o[0] == 'ge'

    def obj(self, ref, depth=10):
        """identity of the object a pointer designates: nested tuple without versions"""
        ref = tuple_ref(ref)
        b, off, var = self.ptr(ref)
        t = self._objbase(b, depth)
        if off or var:
            return ('gep', t, off if not var else None)
        return t

    def _objbase(self, b, depth):
        if b[0] == 'a':
            return ('arg', b[1])
        i = self.get(b)
        if i is None:
            return ('x', str(b))
        if depth <= 0:
            return ('deep', i.id)
        if i.op == 'load':
            v = self.forward(i)
            if v is not None and self.is_ptr(v):
                return self.obj(v, depth - 1)
            return ('load', self.obj(i.ops[0], depth - 1))
        if i.op in ('call', 'invoke') and i.callee and PURE.search(i.callee) and i.ops and self.is_ptr(i.ops[0]):
            return ('elem', self.obj(i.ops[0], depth - 1), i.id)
        return ('v', i.id)

    def version(self, i):
        """distinguishes observations of a container before and after changes to it"""
        if not i.ops or not self.is_ptr(i.ops[0]):
            return ()
        o = self.obj(i.ops[0])
        if self.const_obj(o):
            return ()
        if not hasattr(self, '_rd'):
            self._rd = {}
        if o not in self._rd:
            muts = {m.id: m for m, ts in self.mutators() if any(inside(o, t) for t in ts)}
            self._rd[o] = (muts, self._reach_defs(muts))
        muts, rd = self._rd[o]
        if not muts:
            return ()
        cur = rd.get(i.block, frozenset())
        for x in self.blocks[i.block][:i.idx]:
            if x.id in muts:
                cur = frozenset([x.id])
        if not cur:
            return ()
        for m in cur:
            b = muts[m].block
            if b in self.reach(self.succs[b]) and i.block in self.reach(self.succs[b]) and not (cur == {m} and self.dom(muts[m], i)):
                return (('ver', cur, i.id),)
        return (('ver', cur),)

    def const_obj(self, o):
        while o[0] in ('gep', 'elem', 'load'):
            o = o[1]
        if o[0] == 'arg':
            t = self.argdi(o[1])
            return bool(t and t.startswith('const '))
        return False

    def argdi(self, k):
        """source type of IR argument k"""
        ts = self.argtypes
        sret = 1 if self.params and self.params[0].get('sret') else 0
        j = k - sret
        # argtypes[0] is the return type
        return ts[j + 1] if 0 <= j and j + 1 < len(ts) else None

    def _reach_defs(self, muts):
        gen = {}
        for m in muts.values():
            if m.block not in gen or self.inst[gen[m.block]].idx < m.idx:
                gen[m.block] = m.id
        inn = {b: frozenset() for b in range(len(self.blocks))}
        ch = True
        while ch:
            ch = False
            for b in range(len(self.blocks)):
                x = frozenset().union(*[frozenset([gen[p]]) if p in gen else inn[p] for p in self.preds[b]]) \
                    if self.preds[b] else frozenset()
                if x != inn[b]:
                    inn[b] = x
                    ch = True
        return inn

    def forward(self, ld):
        """value stored by the only store that reaches load ld, or None"""
        base, off, var = self.ptr(ld.ops[0])
        if var:
            return None
        bi = self.get(base)
        if bi is None or bi.op != 'alloca':
            return None
        stores = []
        for u in self.alloca_uses(bi.id):
            inst, kind, o = u
            if kind == 'store':
                if o is None:
                    return None
                if o == off:
                    if inst.sty != ld.ty:
                        return None
                    stores.append(inst)
                elif inst.sty and o < off + 8 and off < o + 8 and ((inst.sty or '').startswith('{') or (inst.sty or '').startswith('<')):
                    return None
            elif kind in ('escape', 'write'):
                if inst.op in ('call', 'invoke') and (
                        (inst.cn or '').startswith(('llvm.lifetime', 'llvm.dbg')) or
                        (inst.callee and PURE.search(inst.callee))):
                    continue
                if inst.op in ('call', 'invoke') and inst.callee and re.search(r'::~', inst.callee):
                    continue
                return None
        if len(stores) == 1 and self.dom(stores[0], ld):
            return tuple_ref(stores[0].ops[0])
        return None

    def alloca_uses(self, aid):
        """[(inst, 'load'|'store'|'escape', const offset or None)]"""
        out, st, seen = [], [(aid, 0)], set()
        while st:
            v, off = st.pop()
            if (v, off) in seen:
                continue
            seen.add((v, off))
            for u in self.uses.get(('i', v), []):
                if u.op == 'getelementptr':
                    if u.ops[0][:2] == ['i', v]:
                        o = None if (off is None or u.off is None or u.var) else off + u.off
                        st.append((u.id, o))
                elif u.op in ('bitcast', 'freeze'):
                    st.append((u.id, off))
                elif u.op == 'load':
                    out.append((u, 'load', off))
                elif u.op == 'store' and u.ops[1][:2] == ['i', v]:
                    out.append((u, 'store', off))
                elif u.op == 'icmp':
                    pass
                elif u.op in ('call', 'invoke') and not (u.cn or '').startswith('llvm.mem') and not any(
                        u.ops[k][:2] == ['i', v] for k in written_ops(u)):
                    out.append((u, 'read', off))
                else:
                    out.append((u, 'escape', off))
        return out

    # ----- loops -----
    def loops(self):
        """{header: set(blocks)} natural loops"""
        out = {}
        self.idom
        for b in self.live():
            for s in self.succs[b]:
                if self.bdom(s, b):
                    body = out.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += self.preds[x]
        return out

    def show(self, out=sys.stdout):
        print(f'=== {self.short()}  {self.where()}', file=out)
        print('   args', [(k, p['name']) for k, p in enumerate(self.params)], file=out)
        for b, ins in enumerate(self.blocks):
            print(f' B{b}: preds {self.preds[b]}', file=out)
            for i in ins:
                if i.op == 'call' and (i.cn or '').startswith(('llvm.dbg', 'llvm.lifetime')):
                    continue
                l = i.d.get('loc')
                pos = f'   ; {os.path.basename(l[0][0])}:{l[0][1]}' if l else ''
                print('   ', fmt(i) + pos, file=out)


def fmt(i):
    def r(x):
        if x[0] == 'i':
            return f'%{x[1]}'
        if x[0] == 'a':
            return f'@{i.fn.params[x[1]]["name"] or x[1]}'
        if x[0] in ('c', 'cf'):
            return str(x[1])
        if x[0] == 'b':
            return f'B{x[1]}'
        if x[0] == 'g':
            return x[2][:60]
        return str(x)[:60]
    s = f'%{i.id} = ' if i.ty else ''
    s += i.op
    if i.pred:
        s += ' ' + i.pred
    if i.op in ('call', 'invoke'):
        s += ' ' + (canon_callee(i.callee) if i.callee else 'IND ' + r(i.ind))
    if i.op == 'getelementptr':
        s += f' off={i.off} var={[(r(v), k) for v, k in (i.var or [])]} {[(f[0].split("::")[-1], i.fn.mod.member_at(f[0], f[2])) for f in i.fields]}'
    if i.op == 'alloca':
        s += f' {i.aty} {i.nm}'
    if i.inc:
        s += ' ' + ', '.join(f'[{r(v)},B{b}]' for v, b in i.inc)
    s += ' ' + ', '.join(r(o) for o in i.ops)
    return s


def inside(o, m):
    """object o is m or a part of m / reachable through m"""
    while True:
        if o == m:
            return True
        if m[0] == 'gep' and o[0] == 'gep' and o[1] == m[1] and (m[2] is None or o[2] is None):
            return True
        if o[0] in ('gep', 'elem', 'load'):
            o = o[1]
            continue
        return False


def params_of(cd):
    """top-level parameter types of a demangled signature and whether it is a const method"""
    q = strip_depth(cd)
    # last top-level '(' group
    if not q:
        return [], False
    st, en = q
    inner = cd[st + 1:en]
    tail = cd[en + 1:]
    out, d, cur = [], 0, ''
    for c in inner:
        if c in '<([{':
            d += 1
        elif c in '>)]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out, tail.strip().startswith('const')


def strip_depth(cd):
    d, st, last = 0, None, None
    k = 0
    while k < len(cd):
        c = cd[k]
        if c == '<' and not cd[:k].endswith(('operator', 'operator<')):
            d += 1
        elif c == '>' and d and cd[k - 1] != '-':
            d -= 1
        elif d == 0 and c == '(':
            if cd.startswith('(anonymous namespace)', k):
                k += 21
                continue
            if cd.startswith('()', k) and cd[:k].endswith('operator'):
                k += 2
                continue
            e, j = 0, k
            while j < len(cd):
                if cd[j] == '(':
                    e += 1
                if cd[j] == ')':
                    e -= 1
                    if e == 0:
                        break
                j += 1
            last = (k, j)
            k = j
        k += 1
    return last


def written_ops(i):
    """operand positions through which call i may write"""
    if i.callee and PURE.search(i.callee):
        return []
    n = len(i.ops)
    if not i.cd or '(' not in i.cd:
        return list(range(n))
    if i.callee and i.callee.startswith('std::async<'):
        return [0] if i.sret else []        # arguments are copied
    ps, const = params_of(i.cd)
    if ps == ['void']:
        ps = []
    base = n - len(ps)      # leading sret / this operands
    out = []
    for k in range(n):
        if k < base:
            if k == base - 1 and const and base >= 1 and not (i.sret and base == 1):
                continue
            out.append(k)
        else:
            t = ps[k - base]
            if t.endswith(('const&', 'const*', 'const* const&')) or t.endswith(' const'):
                continue
            out.append(k)
    return out


def tuple_ref(r):
    return tuple(tuple_ref(x) if isinstance(x, list) else x for x in r) if isinstance(r, (list, tuple)) else r


PURE = re.compile(
    r'^std::(__cxx11::)?(vector|basic_string|map|unordered_map|set|unordered_set|deque|list|array|multimap|'
    r'initializer_list|function|priority_queue|queue|shared_ptr|__shared_ptr|__shared_ptr_access|unique_ptr)<.*>::'
    r'(size|length|empty|capacity|operator\[\]|at|begin|end|cbegin|cend|rbegin|rend|data|front|back|top|count|find|'
    r'c_str|get|operator->|operator\*|operator bool)$|'
    r'^Eigen::\w+<.*>::(rows|cols|size|data)$')


def strip_targs(s):
    """removes template argument lists"""
    out, d, k = [], 0, 0
    while k < len(s):
        c = s[k]
        if c == '<' and not s[:k].endswith('operator') and not s[:k].endswith('operator<'):
            d += 1
        elif c == '>' and d and not s[:k].endswith('-'):
            d -= 1
        elif not d:
            out.append(c)
        k += 1
    return ''.join(out)


def canon_callee(q):
    return strip_targs(q).replace('std::__cxx11::', 'std::').replace(NS, '')
