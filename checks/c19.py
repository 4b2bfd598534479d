"""C19: copies and clones hold all contents of their source and share no state with it."""
import re

import sa

UNIT = 'copies.cpp'
ROOTS = r'^common_robotics_utilities::.*::(\w+)(<.*>)?::(\1|operator=)(<.*>)?(\(|$)|^common_robotics_utilities::.*::(Do)?Clone(\(|$)'
MAYBE = r'(OwningMaybe|TaggedUnion)<.*>::(OwningMaybe|TaggedUnion|operator=)'
KEEP = [r'^State::', MAYBE]

# Value types: objects a user copies and expects to be independent.
VALUES = {
    'RGBAColor', 'ChunkRegion', 'DynamicSpatialHashedVoxelGridChunk', 'DynamicSpatialHashedVoxelGridBase',
    'DynamicSpatialHashedVoxelGrid', 'GridIndex', 'GridSizes', 'GridQuery', 'VoxelGridBase', 'VoxelGrid', 'Hyperplane',
    'DegreeOfParallelism', 'ThreadWorkRange', 'RandomRotationGenerator', 'Deserialized', 'AstarPQueueElement',
    'AstarResult', 'StateWithCost', 'BackPointerAndCostToCome', 'SimpleDTW', 'GraphEdge', 'GraphNode', 'Graph',
    'DijkstrasResult', 'IndexAndDistance', 'ClusteringResult', 'LinearGraphKNNProvider', 'GraphKNNProvider',
    'SplitMix64PRNG', 'XorShift128PlusPRNG', 'XorShift1024StarPRNG', 'SimpleRRTPlannerState', 'SimpleRRTPlannerTree',
    'PropagatedState', 'MultipleSolutionPlanningResults', 'SingleSolutionPlanningResults', 'ActionPrimitiveWrapper',
    'ActionPrimitiveCollection', 'OutcomeWithPrimitiveIndex', 'NextPrimitiveToExecute', 'PositionVelocityTimePoint',
    'CopyableMoveableAtomic', 'PathSegment', 'LinearPathSegment', 'CircularPathSegment', 'Path', 'Trajectory',
    'TrajectoryStep', 'TOTPTrajectoryImpl', 'NonOwningGraphOverlay', 'OwningGraphOverlay', 'DynamicSpatialHashedGridQuery',
}
# What a type refers to outside itself because that is its documented purpose: class -> member types allowed.
REFERS = {
    'ReferencingMaybe': r'.*\*$',
    'GraphKNNAdapter': r'^const .*&$',
    'NonOwningGraphOverlay': r'^const .*\*$',
    'OwningGraphOverlay': r'^std::shared_ptr<const ',
    'ActionPrimitiveCollection': r'^std::vector<std::shared_ptr<[\w:]*ActionPrimitiveInterface<',
    'NextPrimitiveToExecute': r'^std::shared_ptr<[\w:]*ActionPrimitiveInterface<',
    'ActionPrimitiveWrapper': r'^$',
}
SHARING = re.compile(r'\*|&|iterator\b|_Node_(const_)?iterator|__normal_iterator|_Bit_|reference_wrapper<|string_view|\bspan<|'
                     r'Eigen::(Map|Ref|Block)<|weak_ptr<|shared_ptr<|__shared')
POSITION = re.compile(r'(const_)?iterator\b|__normal_iterator|_Bit_|_Node_')
LOOK = re.compile(r'::(begin|cbegin|rbegin|crbegin|end|cend|rend|crend|size|empty|length|capacity|front|back|data|find|at|count|'
                  r'operator\[\]|rows|cols|get|load|operator\*|operator->|operator bool|base|what|c_str|bucket_count)$')
GROW = re.compile(r'::(push_back|emplace_back|insert|emplace|push_front|emplace_front)$')
ROOM = re.compile(r'::(reserve|rehash|shrink_to_fit|max_load_factor)$')


def base_name(t):
    """last component of a type name without its template arguments"""
    return re.sub(r'[*&]+$', '', sa.strip_targs(t)).split('::')[-1].replace('const ', '').strip()


def bare(t):
    return re.sub(r'^const |[*&]+$', '', t).strip()


def shape(t):
    """the type with function signatures removed"""
    prev = None
    while prev != t:
        prev = t
        t = re.sub(r'\((?!anonymous)[^()]*\)', '', t.replace('(anonymous namespace)', '_anon'))
    return t


def run(c):
    c.rule('members', 'no value type keeps a pointer, reference, position, view or shared owner, unless its copies re-derive it')
    c.rule('copied', 'every copy and move operation, and every clone, takes each member from the same member of its source, on every path')
    c.rule('derived', 'a member that is a position or pointer is never taken over from the source, only re-derived from the new object')
    c.rule('source', 'copying does not change the source')
    c.rule('clone', 'a clone returns a newly created object of the same type')
    c.rule('statics', 'no value type keeps state in a variable that all its objects share')
    c.rule('closure', 'no stored function captures the object it is stored in')
    m = c.work.load(UNIT, ROOTS, keep=KEEP)
    T = Types(c, m)
    seen = set()
    for f in m.fns:
        k = kind(f)
        if k is None or re.search(r'Maybe<|TaggedUnion<', f.qual):
            continue
        cls = bare(f.argtypes[1])
        t = T.find(cls, f)
        if t is None or '()' in cls:
            continue
        seen.add(base_name(t['name']))
        c.saw(f)
        if k == 'clone':
            Clone(c, m, T, f, t).check()
        else:
            c.count('copy operations')
            Op(c, T, f, t, k, ('a', 0), ('a', 1)).check()
    T.check(seen)
    closures(c, T)
    c.count('classes copied by hand-written or generated operations', len(seen))
    c.need('types', 40)
    c.need('copy operations', 80)
    c.need('clones', 4)


def kind(f):
    """'construct' / 'assign' / 'move' / 'moveassign' / 'clone' for a function that makes one object like another"""
    n = f.qual.split('(')[0]
    name = f.short()
    if re.search(r'::(Do)?Clone$', sa.strip_targs(name)):
        return 'clone'
    a = f.argtypes
    if len(a) != 3 or len(f.params) != 2:
        return None
    this, other = bare(a[1]), bare(a[2])
    if this != other and base_name(this) != base_name(other):
        return None
    if this != other and 'Atomic<' not in this:
        return None
    last = sa.strip_targs(name).split('::')[-1]
    copy = a[2].startswith('const ')
    if last == 'operator=':
        return 'assign' if copy else 'moveassign'
    if last == base_name(this):
        return 'construct' if copy else 'move'
    return None


class Types:
    def __init__(self, c, m):
        self.c, self.m = c, m
        self.src = {}

    def find(self, name, f=None):
        t = self.m.types.get(name)
        if t is None:
            n = re.sub(r'\s+', '', name)
            t = next((v for k, v in self.m.types.items() if re.sub(r'\s+', '', k) == n), None)
        if t is None and f is not None:
            owner = re.sub(r'\s+', '', f.qual.rsplit('::', 1)[0])
            t = next((v for k, v in self.m.types.items() if re.sub(r'\s+', '', k) == owner), None)
        return t

    def fields(self, t, at=0, path=''):
        """members down to the types the library does not define: (offset, size, name, type, class)"""
        out = []
        for name, off, ty, size in t['members']:
            if name.startswith('_vptr'):
                continue
            sub = self.m.types.get(ty) or self.m.types.get(bare(ty) if not ty.endswith(('*', '&')) else '')
            if sub is not None and not re.search(r'Maybe<|TaggedUnion<', ty):
                out += self.fields(sub, at + off, path + ('' if name == '<base>' else name + '.'))
            elif size:
                out.append((at + off, size, path + name, ty, t))
        return out

    def cache(self, t, name):
        """the member is declared mutable: it caches something derived from the rest"""
        p = t.get('file')
        if p is None:
            return False
        if p not in self.src:
            try:
                self.src[p] = open(p if p.startswith('/') else f'{sa.REPO}/{p}').read()
            except OSError:
                self.src[p] = ''
        return re.search(r'\bmutable\b[^;{}]*\b%s\b' % re.escape(name.split('.')[-1]), self.src[p]) is not None

    def shares(self, ty):
        """a member of this type refers to something outside the object that can change or go away"""
        s = shape(ty)
        x = re.match(r'^std::shared_ptr<const (.*?)>?$', ty)
        if x and not self.cached(ty):
            s = re.sub(r'shared_ptr<', '', s)
        return bool(SHARING.search(s))

    def cached(self, ty):
        """an object of the class pointed to by a shared pointer has mutable members, or is not known"""
        arg = split(re.match(r'^std::shared_ptr<const (.*)>$', ty.strip()).group(1))[0].strip()
        t = self.find(arg)
        if t is None:
            return arg.startswith('common_robotics_utilities')
        return any(self.cache(cls, name) for _, _, name, _, cls in self.fields(t))

    def check(self, seen):
        """rule members"""
        for n, t in sorted(self.m.types.items()):
            b = base_name(n)
            if '()' in n:
                continue
            self.c.count('types')
            for name, off, ty, size in t['members']:
                if name.startswith('_vptr') or name == '<base>':
                    continue
                self.c.count('members')
                if not self.shares(ty):
                    self.c.ob('members', True, f'{b}|{name}')
                    continue
                allow = REFERS.get(b)
                if allow and re.search(allow, shape(ty)):
                    self.c.ob('members', True, f'{b}|{name}')
                    self.c.sample(f'{b}::{name} refers outside by design')
                elif b in seen:
                    continue            # rule derived decides on its copy operations
                elif t.get('byvalue'):
                    where = f"{t.get('file', '?')}:{t.get('line', 0)}"
                    self.c.ob('members', False, f'{b}|{name}', f'{where}: {b} is copied bytewise and its member {name} ({ty[:60]}) '
                              'refers to storage outside it', readable=b in VALUES)
                elif b in VALUES and re.search(r'shared_ptr<|\*$|iterator\b', shape(ty)) and re.match(r'^std::shared_ptr<(?!const )', ty):
                    self.c.ob('members', False, f'{b}|{name}', f'{b}::{name} is shared between copies')
                else:
                    self.c.unsure('members', f'{b}|{name}', f'{b}::{name}: {ty[:80]} and no copy operation of {b} was seen')


class Op:
    """One operation that makes dst like src."""
    def __init__(self, c, T, f, t, kind, dst, src, size=None):
        self.c, self.T, self.f, self.t, self.kind, self.dst, self.src = c, T, f, t, kind, dst, src
        self.fields = T.fields(t)
        self.ev = {}        # block -> [(idx, lo, hi, kind, text)]
        self.name = f'{base_name(t["name"])}|{kind}'

    def where(self):
        return self.f.where()

    # --- reading ---
    def at(self, ref):
        """(base, offset) of a pointer into one of the two objects"""
        b, off, var = self.f.ptr(ref)
        if var:
            return None
        return (b, off) if b in (self.dst, self.src) else None

    def strip(self, ref):
        while True:
            i = self.f.get(ref)
            if i is None or i.op not in ('trunc', 'zext', 'sext', 'bitcast', 'freeze', 'inttoptr', 'ptrtoint'):
                return sa.tuple_ref(ref), i
            ref = i.ops[0]

    def from_src(self, ref, depth=6):
        """what a value comes from: ('field', off) a copy of that member of the source, ('into', off) a position in it, or None"""
        if depth == 0:
            return None
        r, i = self.strip(ref)
        if i is None:
            return None
        if i.op == 'load':
            p = self.at(i.ops[0])
            if p and p[0] == self.src:
                return ('field', p[1])
            b, off, var = self.f.ptr(i.ops[0])
            a = self.f.get(b)
            if a is not None and a.op == 'alloca' and not var:
                return self.temp(a, depth - 1)
            return None
        if i.op == 'alloca':
            return self.temp(i, depth - 1)
        if i.op in ('call', 'invoke'):
            for o in i.ops:
                p = self.at(o) if self.f.is_ptr(o) else None
                if p and p[0] == self.src:
                    if re.search(r'std::(move|forward)\b', i.callee or ''):
                        return ('field', p[1])
                    if re.search(r'::load$', i.callee or ''):
                        return ('field', p[1])
                    if LOOK.search(i.callee or ''):
                        return ('into', p[1])
                    return ('made', p[1])
                if self.f.is_ptr(o):
                    got = self.from_src(o, depth - 1)
                    if got:
                        return got if got[0] == 'into' else ('made', got[1])
        return None

    def temp(self, a, depth):
        """what a local variable holds"""
        got = set()
        for u in self.f.insts():
            if u.op == 'store' and self.f.ptr(u.ops[1])[0] == ('i', a.id):
                got.add(self.from_src(u.ops[0], depth))
            elif u.op in ('call', 'invoke') and u.ops and self.f.is_ptr(u.ops[0]) and self.f.ptr(u.ops[0])[0] == ('i', a.id):
                last = self.last(u)
                if last in ('ctor', '=') and len(u.ops) > 1:
                    o = u.ops[1]
                    p = self.at(o) if self.f.is_ptr(o) else None
                    if p and p[0] == self.src:
                        got.add(('field', p[1]))
                    else:
                        got.add(self.from_src(o, depth))
                elif u.sret and len(u.ops) > 1:
                    got.add(None)
                    for o in u.ops[1:]:
                        p = self.at(o) if self.f.is_ptr(o) else None
                        if p and p[0] == self.src:
                            got.discard(None)
                            got.add(('into', p[1]) if LOOK.search(u.callee or '') else ('made', p[1]))
                        elif p:
                            got.discard(None)
                            got.add(('made', -1))       # computed from the new object's own members
        return got.pop() if len(got) == 1 else None

    def last(self, i):
        parts = sa.strip_targs(i.callee or '').split('::')
        if parts[-1] == 'operator=':
            return '='
        if len(parts) > 1 and parts[-1] == parts[-2]:
            return 'ctor'
        if parts[-1].startswith('~'):
            return '~'
        return parts[-1]

    # --- events ---
    def collect(self):
        f = self.f
        for i in f.insts():
            self.inst(i)

    def add(self, i, lo, hi, kind, text=''):
        self.ev.setdefault(i.block, []).append((i.idx, lo, hi, kind, text, i))

    def inst(self, i):
        f = self.f
        if i.op == 'store':
            p = self.at(i.ops[1])
            if p is None:
                return
            n = i.size or sz(i, f)
            if p[0] == self.src:
                self.touch_src(i, p[1])
                if self.kind in ('move', 'moveassign'):
                    self.ev.setdefault('src', []).append(p[1])
                return
            self.add(i, p[1], p[1] + n, *self.judge(i.ops[0], p[1]))
        elif i.op in ('call', 'invoke'):
            cn = i.cn or ''
            if cn.startswith(('llvm.memcpy', 'llvm.memmove')):
                d, s = self.at(i.ops[0]), self.at(i.ops[1])
                n = i.ops[2][1] if i.ops[2][0] == 'c' else 1
                if d and d[0] == self.dst:
                    if s and s[0] == self.src:
                        self.add(i, d[1], d[1] + n, *(('copy', '') if s[1] == d[1] else ('wrong', 'from other members of the source')))
                    else:
                        g = self.from_src(i.ops[1])
                        self.add(i, d[1], d[1] + n, *self.meaning(g, d[1]))
                elif d and d[0] == self.src:
                    self.touch_src(i, d[1])
                return
            if cn.startswith('llvm.memset'):
                d = self.at(i.ops[0])
                if d and d[0] == self.dst:
                    self.add(i, d[1], d[1] + (i.ops[2][1] if i.ops[2][0] == 'c' else 1), 'set', 'a constant')
                return
            if cn.startswith('llvm.'):
                return
            self.call(i)
        elif i.op in ('atomicrmw', 'cmpxchg'):
            p = self.at(i.ops[0])
            if p and p[0] == self.dst:
                self.add(i, p[1], p[1] + 8, 'unknown')

    def judge(self, ref, off):
        g = self.from_src(ref)
        r, i = self.strip(ref)
        if g is None and i is not None and i.op in ('phi', 'select'):
            return 'unknown', ''
        return self.meaning(g, off)

    def meaning(self, g, off):
        if g is None:
            return 'set', 'something other than the source\'s member'
        if g[0] == 'field':
            return ('copy', '') if g[1] == off else ('wrong', 'from another member of the source')
        if g[0] == 'into':
            return 'into', 'a position in the source'
        return 'unknown', ''

    def call(self, i):
        f = self.f
        ptrs = [(k, self.at(o)) for k, o in enumerate(i.ops) if f.is_ptr(o)]
        mine = [(k, p[1]) for k, p in ptrs if p and p[0] == self.dst]
        theirs = [(k, p[1]) for k, p in ptrs if p and p[0] == self.src]
        if not mine and not theirs:
            return
        last, callee = self.last(i), sa.strip_targs(i.callee or '')
        written = set(sa.written_ops(i))
        if not mine:
            return
        k, off = mine[0]
        first = k == 0 or (i.sret and k == 1)
        n = self.extent(off)
        if not first or callee == '':
            if k == 0 and i.sret and theirs:
                # a value computed from the source is returned into the member
                self.add(i, off, off + n, 'unknown')
            elif k in written and not LOOK.search(callee) and not re.search(r'unique_ptr::unique_ptr|^std::(addressof|__addressof)', callee):
                if callee == '' and off == 0 and len(i.ops) == 1:
                    self.add(i, 0, 1 << 30, 'unknown')
                else:
                    self.add(i, off, off + n, 'copy' if last == 'swap' and self.kind.startswith('move') else 'unknown')
            return
        if last == '~':
            return
        if last in ('ctor', '='):
            rest = [(kk, o) for kk, o in enumerate(i.ops) if kk > k]
            if not rest:
                self.add(i, off, off + n, 'init', 'empty')
                return
            kk, o = rest[0]
            p = self.at(o) if f.is_ptr(o) else None
            if p and p[0] == self.src:
                self.add(i, off, off + n, *(('copy', '') if p[1] == off else ('wrong', 'from another member of the source')))
                return
            if len(rest) >= 2 and self.whole(rest):
                self.add(i, off, off + n, 'copy', 'range')
                return
            g = self.from_src(o)
            self.add(i, off, off + n, *self.meaning(g, off))
            return
        if last == 'swap':
            self.add(i, off, off + n, 'copy' if self.kind.startswith('move') and theirs else 'unknown')
        elif last == 'clear':
            self.add(i, off, off + n, 'init', 'empty')
        elif last == 'store' and len(i.ops) > 1:
            self.add(i, off, off + n, *self.judge(i.ops[1], off))
        elif last == 'assign' or GROW.search(callee):
            rest = [(kk, o) for kk, o in enumerate(i.ops) if kk > k]
            if self.whole(rest):
                self.add(i, off, off + n, 'copy', 'range')
            elif GROW.search(callee):
                self.grow(i, off, n)
            else:
                self.add(i, off, off + n, 'unknown')
        elif ROOM.search(callee) or LOOK.search(callee) or sa.PURE.search(i.callee or '') or k not in written:
            return
        elif callee:
            self.add(i, off, off + n, 'unknown')

    def whole(self, rest):
        """the arguments span a whole container of the source"""
        got = [self.from_src(o) for _, o in rest]
        got = [g for g in got if g and g[0] == 'into']
        return len(got) >= 2 and len({g[1] for g in got}) == 1

    def extent(self, off):
        for o, s, *_ in self.fields:
            if o == off:
                return s
        for o, s, *_ in self.fields:
            if o <= off < o + s:
                return o + s - off
        return 1

    def grow(self, i, off, n):
        """an element is added: part of a loop that goes over the same member of the source"""
        f = self.f
        loop = next(((h, bl) for h, bl in sorted(f.loops().items(), key=lambda x: len(x[1])) if i.block in bl), None)
        anchors = [x for x in f.calls(r'::(begin|cbegin|size)$') if x.ops and self.at(x.ops[0]) == (self.src, off)]
        if loop is None or not anchors:
            self.add(i, off, off + n, 'unknown', 'elements are added')
            return
        h, bl = loop
        x = next((a for a in anchors if a.block == h or a.block not in bl and f.bdom(a.block, h)), None)
        if x is None:
            self.add(i, off, off + n, 'unknown', 'elements are added')
            return
        v, why = self.element(i, off)
        # every round adds an element
        skip = self.round_without(h, bl, i.block)
        if skip:
            self.add(x, off, off + n, 'wrong', 'but some elements are skipped')
        else:
            self.add(x, off, off + n, v, why)

    def round_without(self, h, bl, b):
        seen, todo = set(), [s for s in self.f.succs[h] if s in bl and s != b] if h != b else []
        while todo:
            x = todo.pop()
            if x == h:
                return True
            if x in seen or x == b or x not in bl:
                continue
            seen.add(x)
            todo += self.f.succs[x]
        return False

    def element(self, i, off):
        f = self.f
        field = next((x for x in self.fields if x[0] == off), None)
        pointers = field is not None and re.search(r'\*|shared_ptr', shape(field[3])) is not None
        o = i.ops[-1]
        if not f.is_ptr(o):
            return 'unknown', ''
        b, _, _ = f.ptr(o)
        a = f.get(b)
        if a is None:
            return 'unknown', ''
        if a.op == 'alloca':
            vals = [self.strip(u.ops[0])[1] for u in f.insts() if u.op == 'store' and f.ptr(u.ops[1])[0] == ('i', a.id)]
            if len(vals) == 1 and vals[0] is not None:
                v = vals[0]
                if v.op in ('call', 'invoke'):
                    return ('made', '') if pointers else ('unknown', '')
                if v.op == 'load':
                    return ('copy', 'elements')
            return 'unknown', ''
        if a.op in ('call', 'invoke') and LOOK.search(a.callee or ''):
            return 'copy', 'elements'
        return 'unknown', ''

    def touch_src(self, i, off):
        if self.kind in ('move', 'moveassign'):
            return
        fld = next((x for x in self.fields if x[0] <= off < x[0] + x[1]), None)
        ok = fld is not None and self.T.cache(fld[4], fld[2])
        self.c.ob('source', ok, f'{self.name}|{fld[2] if fld else off}', f'{i.where()}: copying changes the source')

    # --- verdict ---
    def same(self, a, s):
        """edge a->s is taken only when both objects are the same one"""
        t = self.f.blocks[a][-1]
        if t.op != 'br' or len(t.ops) < 3:
            return False
        i = self.f.get(t.ops[0])
        if i is None or i.op != 'icmp':
            return False
        x, y = self.f.ptr(i.ops[0]), self.f.ptr(i.ops[1])
        if {x[0], y[0]} != {self.dst, self.src} or x[1] or y[1]:
            return False
        no, yes = t.ops[1], t.ops[2]
        eq = yes if i.pred == 'eq' else no if i.pred == 'ne' else None
        return eq is not None and eq[1] == s

    def check(self):
        self.collect()
        f = self.f
        for off, size, name, ty, cls in self.fields:
            per = {}
            for b, es in self.ev.items():
                if b == 'src':
                    continue
                for idx, lo, hi, kind, text, i in sorted(es, key=lambda e: e[0]):
                    if hi <= off or lo >= off + size:
                        continue
                    if (lo > off or hi < off + size) and kind != 'unknown':
                        if hi - lo >= size or kind == 'copy':
                            kind = kind if lo <= off and hi >= off + size else 'part'
                        else:
                            kind = 'unknown'
                    per.setdefault(b, []).append((kind, text, i))
            states = self.flow(per)
            self.field(off, size, name, ty, cls, states)

    def flow(self, per):
        """possible last events of a member at the ends of the operation"""
        f = self.f
        ins = {0: {None}}
        todo = [0]
        out = set()
        while todo:
            b = todo.pop()
            s = set(ins[b])
            for e in per.get(b, ()):
                if e[0] == 'part':
                    s = {e if x is None or x[0] == 'part' else ('unknown', '', e[2]) for x in s} if True else s
                else:
                    s = {e}
            t = f.blocks[b][-1]
            if t.op == 'ret':
                out |= s
            for n in f.succs[b]:
                if self.same(b, n):
                    continue
                if f.throws(n):
                    continue
                if not s <= ins.get(n, set()) or n not in ins:
                    ins[n] = ins.get(n, set()) | s
                    todo.append(n)
        return out

    def field(self, off, size, name, ty, cls, states):
        key = f'{self.name}|{name}'
        own = base_name(cls['name'])
        what = {'construct': 'the copy', 'move': 'the moved object', 'assign': 'the assigned object', 'moveassign': 'the assigned object',
                'clone': 'the clone'}[self.kind]
        if not states:
            return
        kinds = {s[0] if s else None for s in states}
        shares = self.T.shares(ty) and not (REFERS.get(own) and re.search(REFERS[own], shape(ty)))
        bad = next((s for s in states if s and s[0] in ('wrong', 'into')), None)
        if shares:
            if 'into' in kinds or 'wrong' in kinds or 'copy' in kinds and not self.kind.startswith('move'):
                s = next(s for s in states if s and s[0] in ('into', 'wrong', 'copy'))
                self.c.ob('derived', False, key, f'{s[2].where()}: {name} ({ty[:50]}) of {what} is taken over from the source, so both refer to '
                          'the same storage', readable=base_name(self.t['name']) in VALUES)
            elif kinds <= {'set', 'init', 'made'}:
                self.c.ob('derived', True, key)
                self.c.sample(f'{self.name}: {name} is re-derived')
            elif kinds == {'copy'} and re.match(r'^std::(unique_ptr|list|vector|map|unordered_map|deque|set)<', ty) and not POSITION.search(ty):
                self.c.ob('derived', True, key)        # ownership moves along
            else:
                self.c.unsure('derived', key, f'{self.where()}: {name} of {what}: {sorted(str(k) for k in kinds)}')
            return
        if bad:
            self.c.ob('copied', False, key, f'{bad[2].where()}: {name} of {what} is taken {bad[1]}')
        elif kinds == {'copy'} or kinds == {'made'}:
            self.c.ob('copied', True, key)
        elif kinds == {'part'}:
            self.c.unsure('copied', key, f'{self.where()}: {name} is copied in parts')
        elif 'unknown' in kinds or 'made' in kinds:
            self.c.unsure('copied', key, f'{self.where()}: {name} of {what} is set in a way that is not understood')
        elif self.T.cache(cls, name):
            self.c.ob('copied', True, key)
        elif None in kinds and size == 1 and ty.startswith('std::'):
            self.c.ob('copied', True, key)
        else:
            s = next((s for s in states if s is None or s[0] != 'copy'), None)
            how = 'is not set from the source' if s is None else f'is set to {s[1] or "something else"} instead of the source\'s value'
            w = s[2].where() if s else self.where()
            self.c.ob('copied', False, key, f'{w}: {name} of {what} {how}')


def sz(i, f):
    import val
    r = i.ops[0]
    if i.ty and i.ty != 'void':
        n = val.tsize(i.ty)
        if n:
            return n
    if r[0] == 'c' and len(r) > 2 and isinstance(r[2], int):
        return max(1, r[2] // 8)
    j = f.get(r)
    if j is not None and j.ty:
        return val.tsize(j.ty) or 8
    if r[0] == 'a':
        return val.tsize(f.params[r[1]]['ty']) or 8
    return 8


class Clone:
    def __init__(self, c, m, T, f, t):
        self.c, self.m, self.T, self.f, self.t = c, m, T, f, t

    def check(self):
        c, f, t = self.c, self.f, self.t
        c.count('clones')
        key = base_name(t['name'])
        this = next((('a', k) for k, p in enumerate(f.params) if p['name'] == 'this'), ('a', 0))
        news = list(f.calls(r'^operator new'))
        makes = [i for i in f.calls(r'^std::(make_unique|make_shared)<')]
        virt = [i for i in f.calls() if not i.callee and any(f.is_ptr(o) and f.ptr(o)[0] == this for o in i.ops)]
        if not news and not makes:
            if virt:
                c.ob('clone', True, key)        # hands the request on to the most derived type
            else:
                own = [i for i in f.calls() if any(f.is_ptr(o) and f.ptr(o)[0] == this for o in i.ops)]
                c.ob('clone', False, key, f'{f.where()}: no new object is created', readable=not own)
            return
        if makes:
            i = makes[0]
            a = [o for o in i.ops if f.is_ptr(o) and f.ptr(o)[0] == this]
            x = re.match(r'^std::make_\w+<(.*)>$', i.callee)
            # make_unique<X, X const&>: the argument list is the one parameter of a copy
            args = split(x.group(1)) if x else []
            ok = len(args) == 2 and bare(args[1].replace(' const', '')) == bare(args[0]) and bool(a)
            c.ob('clone', ok and (self.owner(args[0])), key, f'{i.where()}: the clone is not a copy of the object', readable=len(args) >= 1 and
                 (len(args) != 2 or not ok and bool(a)))
            return
        if len(news) != 1 or news[0].ops[0][0] != 'c':
            c.unsure('clone', key, f'{f.where()}: {len(news)} allocations')
            return
        n = news[0]
        if not self.c.ob('clone', n.ops[0][1] == t['size'], key, f'{n.where()}: the clone of a {key} has {n.ops[0][1]} bytes, the object '
                         f'{t["size"]}: contents are cut off'):
            return
        Op(c, self.T, f, t, 'clone', ('i', n.id), this).check()

    def owner(self, name):
        return re.sub(r'\s', '', bare(name)).split('<')[0].endswith(base_name(self.t['name']))


def split(s):
    out, d, cur = [], 0, ''
    for ch in s:
        d += ch in '<(' 
        d -= ch in '>)'
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()]


def closures(c, T):
    """rules closure and statics, over every function of the library's classes"""
    m = c.work.load(UNIT, r'^common_robotics_utilities::', keep=[r'^common_robotics_utilities::'])
    c.count('functions searched for statics and stored closures', len(m.fns))
    for g in m.globals:
        x = re.sub(r'\(anonymous namespace\)::', '', g['name'])
        owner = [p for p in re.split(r'::', re.sub(r'<.*?>(?=::|$)', '', sa.strip_targs(x)))[:-1]]
        cls = next((p for p in owner if p in VALUES), None)
        where = f"{g.get('file')}:{g['line']}"
        ok = g['type'].startswith('const ') or re.search(r'\bconst\b', g['type']) is not None
        if not ok and cls is None:
            continue
        c.ob('statics', ok, f"{cls}|{x.split('::')[-1]}", f"{where}: {x.split('::')[-1]} is one variable for all objects of {cls}")
    for f in m.fns:
        if not f.params or f.params[0]['name'] != 'this':
            continue
        holds = {}
        for i in f.insts():
            if i.op == 'store' and f.is_ptr(i.ops[0]) and f.ptr(i.ops[0])[0] == ('a', 0):
                b = f.ptr(i.ops[1])[0]
                if f.get(b) is not None and f.get(b).op == 'alloca':
                    holds[b] = i
        bad = None
        for i in f.calls(r'^std::function<.*>::(function|operator=)'):
            src = [f.ptr(o)[0] for o in i.ops[1:] if f.is_ptr(o)]
            if any(b in holds for b in src):
                d = f.ptr(i.ops[0])[0]
                if d == ('a', 0):
                    bad = i
                else:
                    holds[d] = i
        if bad is not None or any(f.ptr(i.ops[0])[0] == ('a', 0) for i in f.calls(r'^std::function<.*>::(function|operator=)') if i.ops):
            c.ob('closure', bad is None, base_name(f.short().split('(')[0].rsplit('::', 1)[0]), f'{bad.where() if bad else ""}: a function stored '
                 'in the object captures the object itself: after a copy it still works on the source')
