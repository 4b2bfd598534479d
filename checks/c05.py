"""C05: iterations of a parallel loop write only storage of their own."""
import re

import sa
from codec import P, atom
from flow import atom1, atoms_in, leq, proves, facts
from graphs import Layout, ACC, PUSH
from loops import Loops, callname, erase
from paths import segments, paths, feasible
from val import fz, unfz, num, tsize

LOOP = re.compile(r'parallelism::(\w*Parallel\w*Loop)<(.*)>$')
KEEP = [r'Parallel(For|.*Loop)', r'::GetNode(Imm|M)utable$', r'GetKNearestNeighbors[A-Za-z]*Serial']
ROOTS = r'^common_robotics_utilities::v1::(?!parallelism::)|^(range|degree|edge|node)_[a-z]+$'
MUT = re.compile(r'::GetNodeMutable$')
COPY = re.compile(r'^llvm\.mem(cpy|move|set)|^mem(cpy|move|set)$')
LOOK = re.compile(r'::(at|operator\[\]|front|back)$')
SHAPE = re.compile(r'::(push_back|emplace_back|push_front|emplace_front|insert|emplace|try_emplace|insert_or_assign|erase|clear|'
                   r'pop_back|pop_front|resize|reserve|shrink_to_fit|assign|swap|merge|rehash|push|pop|AddNode|AddEdge\w*|append)(<.*>)?$')


def run(c):
    c.rule('own', 'every store, copy or modifying call in a parallel body goes to storage of the iteration: its own locals, an element '
                  'selected by its own iteration number or thread number, or the node looked up under its own number')
    c.rule('shape', 'no parallel body changes the shape of a container that iterations share (overlay nodes are added before the loop)')
    c.rule('packed', 'no parallel body writes elements that share a storage unit (vector<bool>, bitset)')
    c.rule('sized', 'storage selected by iteration or thread number covers every number: the end of the loop range, or the number of '
                    'threads of the degree of parallelism given to the loop')
    c.rule('read', 'storage that iterations write is read by other iterations only where the loop is given no parallelism')
    c.assume('user callbacks called by bodies are safe to call concurrently and leave their arguments alone; graph neighbour providers '
             'read only node values')
    c.assume('overlapping arguments (the same object passed for an input and an output) are not considered')
    m = c.work.load('bodies.cpp', ROOTS, keep=KEEP)
    lay = Layout(m)
    rng = accessors(m)
    byq = [f for f in m.fns if f.qual.endswith('::operator()')]
    todo = {}
    for f in m.fns:
        for i in f.insts():
            if i.op in ('call', 'invoke') and i.callee and LOOP.search(i.callee):
                todo.setdefault(LOOP.search(i.callee).group(2), []).append((f, i))
    for x, ps in sorted(todo.items()):
        b = next((f for f in byq if x.endswith(f.qual[:-12])), None)
        p, call = min(ps, key=lambda q: len(q[0].blocks))
        if b is None:
            c.unsure('own', f'{p.short()}|body', f'{call.where()}: the body of the parallel loop is not a function of this program')
            continue
        Body(c, m, lay, rng, b, p, call).check()
    c.need('parallel bodies', 8)
    c.need('obligations:own', 20)


def accessors(m):
    out = {}
    for f in m.fns:
        n = f.qual.split('(')[0]
        if n.startswith(('range_', 'degree_')):
            r = paths(f)[0].ret()
            a = atom1(r)
            if a and a[0] == 'trunc':
                a = atom1(unfz(a[2]))
            if a and a[0] == 'm':
                out[n] = a[1][1]
    if len(out) < 4:
        raise sa.Broken('members of ThreadWorkRange/DegreeOfParallelism not found')
    return out


class Place:
    """what a pointer reaches: kind local | slot | node | shared | packed | unknown; base: the shared object it is part of;
    key: own 'index'/'thread' when the part is the iteration's own, else None; path: offsets below the part"""
    def __init__(self, kind, base=None, key=None, path=(), why='', d=None):
        self.kind, self.base, self.key, self.path, self.why, self.d = kind, base, key, path, why, d

    def own(self):
        return self.kind == 'local' or self.kind in ('slot', 'node') and self.key is not None


class Body:
    def __init__(self, c, m, lay, rng, b, p, call):
        self.c, self.m, self.lay, self.rng, self.f, self.p, self.call = c, m, lay, rng, b, p, call
        self.name = self.p.short().split('<')[0].split('(')[0] + '/' + LOOP.search(call.callee).group(1)
        self.isrange = len(b.params) == 2
        if self.isrange:
            at = lambda n: atom(('m', (('arg', 1), rng[n])))
            self.thread, self.lo, self.hi = at('range_thread'), at('range_start'), at('range_end')
            self.index = None
        else:
            self.thread, self.index = atom(('arg', 1)), atom(('arg', 2))
        self.ss = segments(b)

    # ---- terms ----
    def shared(self, t, s=None):
        """every quantity in t is the same for all iterations (reached through the closure or constant)"""
        for a in [x for x in atoms_in(t) if isinstance(x, tuple) and x]:
            if a[0] in ('phi', 'mphi', 'callv', 'out', 'icall', 'v', 'clobber', 'def'):
                return False
            if a[0] == 'arg' and a != ('arg', 0):
                return False
        return True

    def ownkey(self, k, s):
        """('index'|'thread', distance) when k names the iteration itself"""
        k = strip(unfz(erase(fz(k))))
        th, ix = self.thread, self.index
        for n, a in (('index', ix), ('thread', th)):
            if a is None:
                continue
            for sg in (1, -1):
                d = k - a if sg == 1 else k + a
                if not has(d, a) and has(k, a):
                    if not self.other(d, a) and self.shared(d):
                        return n, d if sg == 1 else None
        if self.isrange:
            r = self.ranged(k, s)
            if r is not None:
                return 'index', r
        return None

    def other(self, d, a):
        return any(x is not None and x != a and has(d, x) for x in (self.thread, self.index))

    def ranged(self, k, s):
        """k is a counter of the range body that runs through [start, end), plus a distance"""
        if s.start == 0 or s.start not in self.f.loops():
            return None
        for x in [x for x in atoms_in(k) if isinstance(x, tuple) and x and x[0] == 'phi']:
            i = self.f.inst.get(x[1])
            if i is None or i.ty == 'ptr':
                continue
            d = k - atom(x)
            if has(d, atom(x)) or not self.shared(d):
                continue
            arr = [q for q in self.ss if q.stop == ('loop', i.block)]
            start = [unfz(erase(fz(q.next(i)))) for q in arr if q.start not in self.f.loops().get(i.block, ())]
            step = [q.next(i) - atom(x) for q in arr if q.start in self.f.loops().get(i.block, ())]
            if start and all(y == self.lo for y in start) and all(z.const() is not None and z.const() >= 1 for z in step) and \
                    proves([erase(l) for l in s.lits], self.hi - atom(x) - P(1)):
                return d
        return None

    # ---- places ----
    def walk(self, l, s, depth=0):
        if l is None or depth > 12:
            return Place('unknown', why='its address cannot be followed')
        root, off = l
        k = root[0]
        off = off if isinstance(off, int) else 0
        if k == 'alloca':
            return Place('local')
        if k == 'arg':
            if root[1] == 0:
                return Place('shared', base=(('arg', 0), off), why='the closure itself')
            return Place('local')
        if k == 'g':
            return Place('shared', base=l, why='a global variable')
        if k == 'idx':
            q = root[1]
            if q[0][0] == 'elem' and q[0][2] == fz(P(0)) and q[1] == 0:
                q = q[0][1]         # indexing from the first element
            r = self.walk(q, s, depth + 1)
            if r.kind != 'shared':
                return r
            key = unfz(root[2])
            own = self.scaled(key, s)
            return Place('slot', base=r.base if r.d == 'data' else erase(q), key=own[0] if own else None, path=(off,),
                         d=own[1] if own else None, why=self.keytext(key))
        if k == 'elem':
            r = self.walk(root[1], s, depth + 1)
            if r.kind in ('local', 'unknown', 'packed'):
                return r
            if r.kind in ('slot', 'node'):
                return Place(r.kind, r.base, r.key, r.path + (off,), r.why, r.d)
            key = unfz(root[2])
            own = self.ownkey(key, s)
            return Place('slot', base=erase(root[1]), key=own[0] if own else None, path=(off,), d=own[1] if own else None,
                         why=self.keytext(key))
        if k == 'at':
            for h, it in self.loops().iters.items():
                if erase(it.cur[0]) == erase(root):
                    return self.item(it, off, s, depth)
            for x in self.calls(root):
                if callname(x) in ('find', 'at', 'operator[]', 'emplace', 'begin'):
                    b = self.callplace(x, s)
                    if b is not None:
                        r = self.walk(b, s, depth + 1)
                        return Place('unknown', why='an item of a shared associative container') if r.kind == 'shared' else r
            return Place('unknown', why='an iterator that cannot be followed')
        if k == 'deref':
            a = atom1(unfz(root[1])) if root[1] and root[1][0] == 'P' else root[1]
            if a is None:
                return Place('unknown', why='a computed address')
            return self.pointee(a, off, s, depth)
        return Place('unknown', why='its address cannot be followed')

    def scaled(self, key, s):
        for w in (1, 2, 4, 8, 16, 24, 32, 40, 48, 56, 64):
            t = {}
            for kk, v in key.t.items():
                if v % w:
                    break
                t[kk] = v // w if isinstance(v, int) else v / w
            else:
                p = P(0)
                for kk, v in t.items():
                    q = num(v)
                    for a in kk:
                        from val import pmul
                        q = pmul(q, atom(a))
                    p = p + q
                own = self.ownkey(p, s)
                if own:
                    return own
        return None

    def keytext(self, key):
        return f'selected by {re.sub(chr(39), "", str(key))[:100]}'

    def loops(self):
        if not hasattr(self, '_loops'):
            self._loops = Loops(self.f, self.ss)
        return self._loops

    def calls(self, t):
        return [x for x in atoms_in(t) if isinstance(x, tuple) and x and x[0] in ('call', 'callv')]

    def callplace(self, x, s):
        """place of the object the call term was made on"""
        for i in s.v.on_path(('call', 'invoke')):
            if i.callee and sa.canon_callee(i.callee) == x[1] and (x[0] != 'callv' or x[2] == i.id) and i.ops:
                if x[0] == 'callv' or erase(fz(s.v.val(('i', i.id)))) == erase(fz(atom(x))):
                    return s.v.loc(i.ops[1 if i.sret else 0])
        return None

    def item(self, it, off, s, depth):
        r = self.walk(it.K, s, depth + 1)
        if r.kind in ('slot', 'node'):
            return Place(r.kind, r.base, r.key, r.path + (off,), r.why, r.d)
        if r.kind == 'shared':
            return Place('slot', base=erase(it.K), key=None, path=(off,), why='any item of the container')
        return r

    def pointee(self, a, off, s, depth):
        if a[0] == 'callv' and isinstance(a[2], int):
            i = self.f.inst[a[2]]
            n = i.callee or ''
            if MUT.search(n) or re.search(r'::GetNodeImmutable$', n):
                return self.nodeplace(s.v.loc(i.ops[0]), s.v.arg(i, 1), off, s)
            if re.match(r'Eigen::', n) and callname(a) in ('operator()', 'coeffRef', 'operator[]', 'coeff'):
                return self.matrix(i, s)
            if 'vector<bool' in n or 'bitset<' in n or '_Bit_' in n:
                return Place('packed', base=s.v.loc(i.ops[1 if i.sret else 0]))
            if re.match(r'operator new|_Znw|_Zna', n) or callname(a) in ('malloc', 'operator new'):
                return Place('local')
        if a[0] == 'call':
            n = a[1]
            if 'vector<bool' in n or 'bitset<' in n or '_Bit_' in n:
                return Place('packed')
            if n.endswith('::GetNodeImmutable'):
                obj = a[2]
                return self.nodeplace(obj[1] if obj[0] in ('obj', 'ptr') else None, a[-1], off, s)
            if re.match(r'Eigen::', n):
                for i in s.v.on_path(('call', 'invoke')):
                    if i.callee and i.callee.startswith('Eigen::') and s.v.val(('i', i.id)) == atom(a):
                        return self.matrix(i, s)
            if callname(a) in ('begin', 'end', 'data', 'front', 'back', 'at', 'operator[]', 'get', 'operator->', 'operator*'):
                b = self.callplace(a, s)
                r = self.walk(b, s, depth + 1) if b else None
                if r is not None and r.kind != 'shared':
                    return r
                if r is not None and callname(a) in ('data', 'begin'):
                    return Place('shared', base=erase(b), why='the first element of a container', d='data')
                if r is not None:
                    return Place('slot', base=erase(b), key=None, path=(off,), why=f'reached by {callname(a)}()')
        if a[0] == 'phi':
            for h, it in self.loops().iters.items():
                if it.atom == a:
                    return self.item(it, off, s, depth)
            i = self.f.inst.get(a[1])
            if i is not None:
                rs = []
                for r, b in i.inc:
                    l = s.v.base.loc(r) if s.v.base is not None else s.v.loc(r)
                    if l and l[0] == ('deref', fz(atom(a))):
                        continue
                    rs.append(self.walk(l, s, depth + 3))
                bad = [r for r in rs if not r.own()]
                if rs and not bad:
                    return rs[0]
                return bad[0] if bad else Place('unknown', why='a pointer that varies')
        if a[0] in ('sel', 'cond') and len(a) == 4:
            rs = []
            for t in a[2:]:
                q = atom1(unfz(t)) if t and t[0] == 'P' else t
                rs.append(self.walk(q[1], s, depth + 1) if q and q[0] == 'ptr' else self.pointee(q, off, s, depth + 1) if q else Place('unknown'))
            bad = [r for r in rs if not r.own()]
            return bad[0] if bad else rs[0]
        if a[0] == 'ptr':
            return self.walk((a[1][0], a[1][1] + off), s, depth + 1)
        e = erase(a)
        if e[0] == 'm':
            q = e[1]
            if q[0] == ('arg', 0):
                return Place('shared', base=(('deref', fz(atom(e))), 0), why='a captured variable')
            r = self.walk(q, s, depth + 1)
            if r.kind == 'shared':
                return Place('shared', base=(('deref', fz(atom(e))), 0), why='reached through a captured variable')
            if r.kind == 'local' and q[0][0] == 'alloca':
                return Place('unknown', why='a pointer kept in a local')
            return Place('unknown', why='a pointer read from storage')
        if e[0] == 'arg':
            return self.walk((e, off), s, depth + 1)
        return Place('unknown', why='an address that cannot be followed')

    def nodeplace(self, graph, key, off, s):
        k = unfz(key) if key and key[0] == 'P' else None
        own = self.ownkey(k, s) if k is not None else None
        return Place('node', base=erase(graph) if graph else None, key=own[0] if own else None, path=(off,),
                     d=own[1] if own else None, why=self.keytext(k) if k is not None else '')

    def matrix(self, i, s):
        b = s.v.loc(i.ops[0])
        r = self.walk(b, s, 1)
        if r.kind != 'shared':
            return r
        ks = []
        for o in range(1, len(i.ops)):
            k = s.v.arg(i, o)
            ks.append(unfz(k) if k and k[0] == 'P' else None)
        own = [self.ownkey(k, s) if k is not None else None for k in ks]
        p = Place('slot', base=erase(b), key=next((o[0] for o in own if o), None), path=('cell',),
                  d=next((o[1] for o in own if o), None), why='selected by ' + ', '.join(str(k)[:60] for k in ks))
        p.cell = (ks, own, i, s)
        return p

    # ---- checking ----
    def check(self):
        c, f = self.c, self.f
        c.count('parallel bodies')
        c.saw(f)
        c.saw(self.p)
        if self.ss is None:
            c.unsure('own', self.name, f'{f.where()}: too many paths')
            return
        writes, seen = [], {}
        for s in self.ss:
            for i in s.v.on_path(('store', 'call', 'invoke', 'atomicrmw', 'cmpxchg')):
                for l, what, n in self.targets(i, s):
                    pl = self.walk(l, s)
                    pl.s, pl.i, pl.what, pl.n, pl.at = s, i, what, n, l
                    if what == 'atomic':
                        c.count('atomic updates')
                        continue
                    ok, readable, kind, why = self.judge(pl)
                    key = (i.id, what, pl.kind, pl.key, ok, readable)
                    if key not in seen:
                        seen[key] = True
                        t = f'{i.where()}: {what} writes {why}'
                        c.ob(kind, ok, f'{self.name}|{self.label(pl)}', t, readable=readable)
                        if ok and pl.kind != 'local':
                            c.sample(f'{self.name}: {what} at {i.where()} writes its own {pl.kind} by {pl.key}')
                    if pl.kind in ('slot', 'node') and ok:
                        writes.append(pl)
        self.cells(writes)
        self.sized(writes)
        self.reads(writes)

    def label(self, pl):
        return f'{pl.kind} {pl.what}' + (f' {field(pl.base)}' if pl.base else '')

    def judge(self, pl):
        if pl.kind == 'local':
            return True, True, 'own', ''
        if pl.kind == 'packed':
            return False, True, 'packed', 'an element of a container that packs several elements into one storage unit'
        if pl.kind == 'unknown':
            return False, False, 'own', pl.why
        if pl.kind == 'shared':
            shape = SHAPE.search(pl.what)
            if pl.what.startswith('migrates'):
                if self.prepared(pl):
                    return True, True, 'shape', ''
                return False, True, 'shape', 'the map of the graph overlay that all iterations share (no pass before the loop has touched every node)'
            if re.search(r'mutex|lock|atomic|condition_variable', pl.what):
                return False, False, 'own', 'a shared synchronisation object'
            return False, True, 'shape' if shape else 'own', f'storage that all iterations share ({pl.why})'
        if pl.key is None:
            if self.excepted(pl):
                return True, True, 'own', ''
            sure = not re.search(r'trunc|xor|lshr|shl', pl.why)
            return False, sure, 'own', f'{"a node" if pl.kind == "node" else "an element"} {pl.why}, which other iterations may also write'
        if pl.d is None and pl.kind == 'slot':
            return True, True, 'own', ''
        return True, True, 'own', ''

    def excepted(self, pl):
        """an edge's copy at its other end: written only by the iteration of the node the edge starts (or ends) at"""
        if pl.kind != 'node' or len(pl.path) != 2:
            return False
        side = {self.lay.node['InEdges']: 'FromIndex', self.lay.node['OutEdges']: 'ToIndex'}.get(pl.path[0])
        if side is None or pl.path[1] != self.lay.edge['Weight']:
            return False
        for it in self.loops().iters.values():
            cur = it.mem(self.lay.edge[side])
            for l in pl.s.lits:
                l = erase(l)
                if l[0] == 'eq' and unfz(l[1]) in (cur - self.index, self.index - cur) if self.index is not None else False:
                    w = self.walk(it.place(0), pl.s)
                    if w.kind == 'node' and w.path[0] == pl.path[0] and erase(pl.at[0]) == erase(it.place(0)[0]):
                        return True
        return False

    def targets(self, i, s):
        """[(place, description, size)] that instruction i may write"""
        v = s.v
        if i.op == 'store':
            l = v.loc(i.ops[1])
            return [(l, 'assignment', tsize(i.sty) or 8)]
        if i.op in ('atomicrmw', 'cmpxchg'):
            return [(v.loc(i.ops[0]), 'atomic', 8)]
        cn = i.cn or ''
        if COPY.search(cn):
            return [(v.loc(i.ops[0]), 'copy', 8)]
        if cn.startswith(('llvm.', '__cxa', '__clang')) or re.search(r'::~|^operator (new|delete)', i.callee or ''):
            return []
        if i.callee is None:
            return []
        n = i.callee
        short = sa.strip_targs(n)
        if MUT.search(n):
            if 'Overlay' in n:
                return [(v.loc(i.ops[0]), 'migrates a node', 8)]
            return []
        if 'std::function<' in n and n.endswith('operator()'):
            return [(v.loc(i.ops[0]), 'result', 8)] if i.sret else []
        if LOOP.search(n):
            return []
        if LOOK.search(n) or n.startswith('Eigen::') and re.search(r'::(operator\(\)|coeffRef|coeff|rows|cols|size|operator\[\])$', n):
            return []
        if re.search(r'::(begin|end|data|rbegin|rend|operator->|operator\*|operator bool)$', n):
            return []
        out = []
        for k in sa.written_ops(i):
            if k < len(i.ops) and self.f.is_ptr(i.ops[k]):
                l = v.loc(i.ops[k])
                if l is not None and l[0][0] == 'g' or l is not None and l[0][0] == 'null':
                    continue
                if '_Bit_reference' in n and k == 0:
                    l = self.proxy(i, s, l)
                out.append((l, '::'.join(short.split('::')[-2:]), 8))
        return out

    def proxy(self, i, s, l):
        """the container behind a bit proxy object"""
        t = s.v.mem(l, 8, i) if l else None
        found = []

        def bases(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'elem':
                    found.append(x[1])
                for y in x:
                    bases(y)
        bases(fz(t) if t is not None else ())
        if found and all(self.walk(b, s).kind == 'local' for b in found):
            return l
        return (('deref', ('call', 'std::vector<bool')), 0)

    # ---- the loop's caller ----
    def env(self):
        """[(segment of the parent containing the call)]"""
        if not hasattr(self, '_env'):
            ss = segments(self.p) or []
            self._env = [s for s in ss if self.call.block in s.v.path]
        return self._env

    def up(self, l, ps):
        """place of the body, seen from the parent"""
        root, off = l
        if root == ('arg', 0):
            cl = ps.v.loc(self.call.ops[3])
            return (cl[0], cl[1] + off) if cl else None
        if root[0] == 'deref':
            a = atom1(unfz(root[1])) if root[1] and root[1][0] == 'P' else root[1]
            a = erase(a) if a else None
            if a and a[0] == 'm':
                q = self.up(a[1], ps)
                if q is None:
                    return None
                t = ps.v.mem(q, 8, self.call)
                t = atom1(t) if isinstance(t, P) else t
                if isinstance(t, tuple) and t and t[0] == 'ptr' and t[1]:
                    return (t[1][0], t[1][1] + off)
                if isinstance(t, tuple) and t and t[0] == 'arg':
                    return (t, off)
                if isinstance(t, tuple) and t:
                    return (('deref', fz(atom(t))), off)
            return None
        if root[0] == 'elem':
            b = self.up(root[1], ps)
            return (('elem', b, root[2]), off) if b else None
        return None

    def degree(self, ps):
        """number of threads of the degree of parallelism given to the loop"""
        l = ps.v.loc(self.call.ops[0])
        if l is None:
            return None
        t = ps.v.mem((l[0], l[1] + self.rng['degree_threads']), 4, self.call)
        return t if isinstance(t, P) else None

    def extent(self, V, ps):
        """[size terms] container V has had since it was last sized, before the loop"""
        seq = [i for i in ps.v.on_path(('call', 'invoke'))]
        if self.call in seq:
            seq = seq[:seq.index(self.call)]
        on, before = set(ps.v.path), []
        for i in self.p.insts():
            if i.op in ('call', 'invoke') and i.block not in on and i.ops and self.sizing(i) and self.names(i, V, ps):
                if self.p.bdom(i.block, ps.start):
                    before.append(i)
                elif ps.start in self.p.reach([i.block]):
                    return None
        before.sort(key=lambda i: (sum(self.p.bdom(j.block, i.block) for j in before), i.idx))
        out = None
        for i in before + seq:
            if not self.names(i, V, ps):
                continue
            n, last = i.callee or '', self.sizing(i)
            if last == 'vector':
                out = self.ctor(i, ps)
            elif re.search(r'^std::vector<', n) and last in ('resize', 'assign'):
                k = ps.v.arg(i, 1)
                out = unfz(k) if k and k[0] == 'P' else None
            elif n.startswith('Eigen::') and last:
                out = self.eigen(i, ps)
            elif last:
                out = None
        return out

    def sizing(self, i):
        """name of the container operation i when it settles or changes a size"""
        n = i.callee or ''
        last = sa.strip_targs(n).split('::')[-1]
        if re.search(r'^std::vector<', n) and last in ('vector', 'resize', 'assign'):
            return last
        if n.startswith('Eigen::') and last in ('Matrix', 'resize', 'setZero', 'setConstant', 'conservativeResize'):
            return last
        if SHAPE.search(n) and last not in ('reserve', 'shrink_to_fit') or n.startswith('std::vector<') and last == 'operator=':
            return last
        return None

    def names(self, i, V, ps):
        if not i.ops:
            return False
        l = ps.v.loc(i.ops[0])
        return l is not None and erase(l) == erase(V)

    def ctor(self, i, ps):
        ps_, _ = sa.params_of(i.cd or '')
        k = ps.v.arg(i, 1) if len(i.ops) > 1 else None
        if len(i.ops) == 1:
            return P(0)
        if ps_ and re.search(r'^(unsigned|long|int|size_t|std::size_t)', ps_[0]) and k and k[0] == 'P':
            return unfz(k)
        if ps_ and 'vector<' in ps_[0] and ps_[0].endswith('&'):
            l = ps.v.loc(i.ops[1])
            return self.sizeof(l, ps) if l else None
        return None

    def eigen(self, i, ps):
        ks = []
        for k in range(1, len(i.ops)):
            t = ps.v.arg(i, k)
            if t and t[0] == 'P':
                ks.append(unfz(t))
        return ('matrix', ks)

    def sizeof(self, V, ps):
        """size of a container nobody has resized: named by its place"""
        return ('size of', erase(V))

    def sizes(self, t, ps):
        """t with size() of containers replaced by what they were sized with"""
        if not isinstance(t, P):
            return t
        out = t
        for a in [x for x in atoms_in(t) if isinstance(x, tuple) and x and x[0] in ('call', 'callv') and callname(x) in ('size', 'length')]:
            for i in ps.v.on_path(('call', 'invoke')):
                if i.callee and i.callee.endswith('::size') and erase(fz(ps.v.val(('i', i.id)))) == erase(fz(atom(a))):
                    V = ps.v.loc(i.ops[0])
                    e = self.extent(V, ps) if V else None
                    if isinstance(e, P):
                        from val import subst
                        out = unfz(fz(subst(out, {a: e})))
                    elif V:
                        from val import subst
                        out = unfz(fz(subst(out, {a: atom(('extent', erase(V)))})))
                    break
        return strip(out)

    def sized(self, writes):
        done = set()
        for pl in writes:
            if pl.kind != 'slot' or not pl.key:
                continue
            base = pl.base
            key = (base, pl.key, repr(fz(pl.d)) if pl.d is not None else None, pl.path == ('cell',))
            if key in done:
                continue
            done.add(key)
            verdicts = set()
            for ps in self.env():
                verdicts.add(self.fits(pl, base, ps))
            lab = f'{self.name}|{pl.key}|{field(base)}'
            where = pl.i.where()
            if not verdicts or None in verdicts and False not in verdicts:
                self.c.unsure('sized', lab, f'{where}: the size of the storage selected by {pl.key} number is not known before the loop')
            else:
                self.c.ob('sized', False not in verdicts, lab, f'{where}: the storage selected by {pl.key} number does not cover every {pl.key} number')

    def fits(self, pl, base, ps):
        V = self.up(base, ps)
        if V is None:
            return None
        cell = pl.path == ('cell',)
        have = self.extent(V, ps)
        if have is None and V[0][0] not in ('alloca',):
            have = atom(('extent', erase(V)))
        if have is None:
            return None
        lits = [erase(l) for l in ps.lits]
        if pl.key == 'thread':
            want = self.degree(ps)
            lo = P(0)
            if want is None:
                return None
            d = pl.d if pl.d is not None else P(0)
        else:
            k = ps.v.arg(self.call, 2)
            lo = ps.v.arg(self.call, 1)
            if not (k and k[0] == 'P' and lo and lo[0] == 'P'):
                return None
            want, lo = unfz(k), unfz(lo)
            d = pl.d
            if d is None:
                return None
        d = self.lift(d, ps)
        if d is None:
            return None
        want, lo = self.sizes(want + d, ps), self.sizes(lo + d, ps)
        if cell:
            if not (isinstance(have, tuple) and have[0] == 'matrix'):
                return None
            ks, own, _, _ = pl.cell
            if len(have[1]) != len(ks):
                return None
            res = [self.cover(self.sizes(h, ps), want, lo, lits) for h, o in zip(have[1], own) if o]
            return None if None in res else all(res)
        if not isinstance(have, P):
            return None
        return self.cover(self.sizes(have, ps), want, lo, lits)

    def cover(self, have, want, lo, lits):
        have, want = strip(unfz(erase(fz(have)))), strip(unfz(erase(fz(want))))
        lo = strip(unfz(erase(fz(lo))))
        if leq(want, have, lits):
            low = lo.const()
            if low is not None and low < 0:
                return False
            return True
        d = (have - want).const()
        if d is not None:
            return d >= 0
        # a constant capacity, or one over other quantities of the same kind: certainly another number
        if have.const() is not None:
            return False
        known = lambda x: x[0] in ('m', 'arg', 'extent', 'size of', 'obj')
        if all(known(x) for kk in have.t for x in kk) and all(known(x) for kk in want.t for x in kk):
            return False
        return None

    def lift(self, d, ps):
        """a quantity of the body seen from the parent"""
        out = P(0)
        from val import pmul
        for kk, v in d.t.items():
            q = num(v)
            for a in kk:
                e = erase(a)
                if e[0] == 'm':
                    l = self.up(e[1], ps)
                    t = ps.v.mem(l, 8, self.call) if l else None
                    if not isinstance(t, P):
                        return None
                    q = pmul(q, t)
                else:
                    return None
            out = out + q
        return out

    # ---- matrices ----
    def cells(self, writes):
        """(own, x) and (x, own) writes to one matrix: x must be on one side of the own number"""
        by = {}
        for pl in writes:
            if pl.path == ('cell',):
                by.setdefault(pl.base, []).append(pl)
        for b, ps in by.items():
            rows = [p for p in ps if p.cell[1][0]]
            cols = [p for p in ps if len(p.cell[1]) > 1 and p.cell[1][1] and not p.cell[1][0]]
            only = [p for p in ps if p.cell[1][0] and not (len(p.cell[1]) > 1 and p.cell[1][1])]
            if not cols or not only:
                self.c.ob('own', True, f'{self.name}|cells {field(b)}', '')
                continue
            sides = {self.side(p) for p in cols + only}
            ok = sides in ({'up'}, {'down'})
            self.c.ob('own', ok, f'{self.name}|cells {field(b)}',
                      f'{ps[0].i.where()}: iterations write both rows and columns of one matrix, and a cell can belong to two of them',
                      readable=None not in sides)

    def side(self, p):
        ks, own, i, s = p.cell
        x = ks[1] if own[0] else ks[0]
        me = ks[0] if own[0] else ks[1]
        a = [t for t in atoms_in(x) if isinstance(t, tuple) and t and t[0] == 'phi']
        if len(a) != 1:
            return 'any' if self.shared(x) else None
        ph = self.f.inst.get(a[0][1])
        d = x - atom(a[0])
        if ph is None or d.const() is None:
            return None
        body = self.f.loops().get(ph.block)
        if body is None:
            return None
        arr = [q for q in self.ss if q.stop == ('loop', ph.block)]
        start = [q.next(ph) for q in arr if q.start not in body]
        step = [(q.next(ph) - atom(a[0])).const() for q in arr if q.start in body]
        lits = [erase(l) for l in s.lits]
        lo = [(strip(unfz(erase(fz(y)))) + d - me).const() for y in start]
        if step and all(z is not None and z >= 0 for z in step) and lo and all(z is not None and z >= 0 for z in lo):
            return 'up'
        lits = [('ge', l[1]) if l[0] == 'uge' else l for l in lits]
        if proves(lits, me - x):
            return 'down'
        if proves(lits, x - me):
            return 'up'
        up = step and all(z is not None and z > 0 for z in step)
        return 'any' if up and all(self.shared(strip(unfz(erase(fz(y))))) for y in start) else None

    # ---- reads ----
    def reads(self, writes):
        if not writes:
            return
        areas = {}
        for pl in writes:
            areas.setdefault((pl.kind, self.same(pl.base)), []).append(pl)
        seen = {}
        for s in self.ss:
            for i in s.v.on_path(('load', 'call', 'invoke')):
                for l, whole, what in self.sources(i, s):
                    r = self.walk(l, s)
                    if whole and r.kind == 'shared':
                        a = [x for k, x in areas.items() if k[1] in (self.same(l), self.same(r.base))]
                        hit = [w for x in a for w in x if w.kind == 'slot']
                        key = None
                    else:
                        if r.kind not in ('slot', 'node'):
                            continue
                        hit = [w for w in areas.get((r.kind, self.same(r.base)), []) if overlap(w, r)]
                        key = r.key
                        if hit and key is not None:
                            self.count_own(i, s, seen)
                            continue
                        if hit and r.path == ('cell',):
                            pass
                    if not hit:
                        continue
                    k = (i.id, what)
                    ok = self.excused(s)
                    if seen.get(k) is False:
                        continue
                    seen[k] = ok
                    self.c.ob('read', ok, f'{self.name}|{what} {field(hit[0].base)}',
                              f'{i.where()}: {what} reads storage that other iterations write at the same time ({hit[0].i.where()})')

    def same(self, base):
        """one name for every way a body has of reaching an object of its parent"""
        for ps in self.env():
            u = self.up(erase(base), ps) if base else None
            if u is not None:
                return repr(erase(u))
        return repr(erase(base))

    def count_own(self, i, s, seen):
        k = (i.id, 'own')
        if k not in seen:
            seen[k] = True
            self.c.ob('read', True, '', '')

    def sources(self, i, s):
        """[(place, reads all of it, what)] that i reads"""
        if i.op == 'load':
            l = s.v.loc(i.ops[0])
            return [(l, False, 'a load')] if l is not None and l[0][0] != 'alloca' else []
        cn, n = i.cn or '', i.callee or ''
        if COPY.search(cn) and 'memset' not in cn:
            return [(s.v.loc(i.ops[1]), False, 'a copy')]
        if not n or cn.startswith(('llvm.', '__cxa')) or re.search(r'::~', n):
            return []
        last = sa.strip_targs(n).split('::')[-1]
        if last in ('size', 'length', 'empty', 'capacity', 'at', 'operator[]', 'rows', 'cols', 'data', 'begin', 'end', 'cbegin', 'cend', 'rbegin',
                    'rend', 'operator()') and \
                not n.startswith('std::function'):
            return []
        if MUT.search(n) or n.endswith('::GetNodeImmutable') or re.search(r'::GetKNearestNeighbors$', n):
            return []
        out = []
        for k, o in enumerate(i.ops):
            if (k == 0 and i.sret) or not self.f.is_ptr(o):
                continue
            if k == 0 and last == 'operator=':
                continue
            l = s.v.loc(o)
            if l is not None and l[0][0] not in ('alloca', 'g', 'null'):
                out.append((l, True, last))
                if l[0][0] != 'deref':
                    out.append((l, False, last))
        return out

    def excused(self, s):
        """in every way the parent starts the loop with more than one thread, this path is not taken"""
        env = self.env()
        if not env:
            return False
        for ps in env:
            d = self.degree(ps)
            if d is not None and d.const() == 1:
                continue
            lits = list(ps.lits) + [y for y in (self.liftlit(l, ps) for l in s.lits) if y]
            if feasible([norm(erase(x)) for x in lits]):
                return False
        return True

    def liftlit(self, l, ps):
        t = l
        for a in [x for x in atoms_in(l) if isinstance(x, tuple) and x and erase(x)[0] == 'm']:
            e = erase(a)
            q = self.up(e[1], ps)
            if q is None:
                continue
            for n in (1, 4, 8):
                v = ps.v.mem(q, n, self.call)
                x = atom1(v) if isinstance(v, P) else v
                if x is not None and x[0] in ('arg', 'm'):
                    t = replace(t, a, x)
                    break
        return t

    def prepared(self, pl):
        """before the loop the parent has asked the overlay for every node for writing"""
        ss = segments(self.p) or []
        for h, body in self.p.loops().items():
            if self.call.block in body or not self.p.bdom(h, self.call.block):
                continue
            if self.touches(h, body, ss, pl):
                return True
        return False

    def touches(self, h, body, ss, pl):
        p = self.p
        for i in p.blocks[h]:
            if i.op != 'phi' or i.ty == 'ptr':
                continue
            arr = [q for q in ss if q.stop == ('loop', h)]
            start = [q.next(i) for q in arr if q.start not in body]
            inner = [q for q in arr if q.start in body]
            me = atom(('phi', i.id))
            if not start or not inner or any(y != P(0) for y in start) or any(q.next(i) - me != P(1) for q in inner):
                continue
            graph = None
            for q in inner:
                g = [j for j in q.v.on_path(('call', 'invoke')) if MUT.search(j.callee or '') and q.v.arg(j, 1) == fz(me)]
                if not g:
                    break
                graph = erase(q.v.loc(g[0].ops[0]))
            else:
                outs = [q for q in ss if q.start == h and not (q.stop[0] == 'loop' and q.stop[1] in body)]
                hi = [self.callhi(e) for e in self.env()]
                for e in self.env():
                    up = self.up(pl.at, e)
                    if up is None or erase(up) != graph:
                        break
                    bound = self.callhi(e)
                    if bound is None or not outs:
                        break
                    if not all(proves([erase(l) for l in q.lits], me - bound) for q in outs):
                        break
                else:
                    return True
        return False

    def callhi(self, e):
        k = e.v.arg(self.call, 2)
        return strip(unfz(erase(fz(unfz(k))))) if k and k[0] == 'P' else None


def replace(t, a, b):
    if isinstance(t, tuple):
        if t == a:
            return b
        if t and t[0] == 'P':
            return ('P', tuple(sorted(((tuple(sorted((replace(x, a, b) for x in k), key=str)), v) for k, v in t[1]), key=str)))
        return tuple(replace(x, a, b) for x in t)
    return t


def norm(l):
    """bool tests of single quantities in one form"""
    if l[0] in ('eq', 'ne') and l[1] and l[1][0] == 'P':
        a = atom1(unfz(l[1]))
        if a is not None:
            return ('bool', a, l[0] == 'ne')
    if l[0] == 'bool' and l[1] and l[1][0] == 'P':
        a = atom1(unfz(l[1]))
        if a is not None:
            return ('bool', a, l[2])
    return l


def overlap(w, r):
    a, b = w.path, r.path
    n = min(len(a), len(b))
    if a[:n - 1] != b[:n - 1]:
        return False
    x, y = a[n - 1], b[n - 1]
    if x == 'cell' or y == 'cell':
        return True
    if w.kind == 'node' and n == 1:
        # members of a node: Value, InEdges, OutEdges
        return x // 24 == y // 24 if x >= 8 and y >= 8 else x == y
    return x == y or w.what not in ('assignment',)


def field(base):
    """short stable name of a shared object: which capture of the closure it is"""
    offs = []
    def go(t):
        if isinstance(t, tuple):
            if len(t) == 2 and isinstance(t[0], tuple) and t[0] == ('arg', 0):
                offs.append(str(t[1]))
            for x in t:
                go(x)
    go(base)
    return 'capture ' + '.'.join(offs[:2]) if offs else ''


def has(p, a):
    t = atom1(a)
    return t in atoms_in(p) if t is not None else False


def strip(p):
    """without narrowing casts (index and thread numbers fit)"""
    if not isinstance(p, P):
        return p
    for _ in range(6):
        a = [k[0] for k, v in p.t.items() if len(k) == 1 and k[0][0] in ('trunc', 'zext', 'sext')]
        if not a:
            return p
        from val import subst
        p = unfz(fz(subst(p, {x: unfz(x[2]) for x in a})))
    return p
