"""C03: every grid accessor touches only the in-bounds cell it was asked for.

The grid classes are instantiated with an opaque payload, Eigen is inlined to scalar
operations, and each accessor is taken apart into its entry-to-return paths; on every
path the element reached, the literals established and the virtual hook consulted are
compared as terms over the arguments and the grid's fields."""
import re

import sa
from codec import P, atom
from grid import LOAD, M, NSG, AX, Roles, all_atoms, derem, implied, refuted, slit
from paths import paths
from val import fz, unfz, num, pmul, pinv, subst

ROOTS = [r'^common_robotics_utilities::v1::voxel_grid::', r'^sizes[1-5]$']


def run(c):
    c.rule('sizes', 'every writer of GridSizes leaves strides, inverses and extents derived from counts and cell sizes, or no cells')
    c.rule('access', 'an element is reached only on paths that establish all six bounds of the requested coordinates, at the '
                     'row-major index of those coordinates')
    c.rule('refuse', 'a path that reaches no element has established that a bound fails or that the hook refused')
    c.rule('hook', 'a mutable element is reached only where the virtual access hook returned true for exactly those coordinates')
    c.rule('raw', 'unchecked mutable access is guarded by the raw-access hook, storage index by the storage size')
    c.rule('inverse', 'at every return the stored inverse transform is the inverse of the stored transform')
    c.rule('mapping', 'index, location and storage-position conversions equal their definition as terms')
    c.rule('chunk', 'hashed grid: the chunk looked up is the one whose region contains the location, found before it is '
                    'dereferenced, and filled as the access assumes')
    c.assume('total cell counts fit in 64 bits; floating point is compared as algebra, not rounded')
    m = c.work.load('grids.cpp', roots=ROOTS, **LOAD)
    r = Roles(m)
    g = G(c, m, r)
    g.all()
    L = dict(LOAD)
    L['keep'] = L['keep'] + [r'^common_robotics_utilities::v1::serialization::(Des|S)erialize']
    m2 = c.work.load('grids.cpp', roots=[r'voxel_grid::(VoxelGridBase|DynamicSpatialHashedVoxelGrid(Base|Chunk))<.*>::'
                                         r'(DeserializeSelf|BaseDeserializeSelf|Initialize|VoxelGridBase)$'], **L)
    G(c, m2, r, g).stored()
    c.need('obligations:access', 20)
    c.need('obligations:hook', 10)


class G:
    def __init__(self, c, m, r, base=None):
        self.c, self.m, self.r, self.base = c, m, r, base
        self.places = {}
        self.pc = {}

    def paths(self, f):
        if f.name not in self.pc:
            self.pc[f.name] = paths(f)
            self.c.saw(f)
            if self.pc[f.name] is None:
                self.c.count('functions with loops (not path-enumerated)')
            else:
                self.c.count('paths', len(self.pc[f.name]))
        return self.pc[f.name] or []

    def fns(self, cls, names=r'\w+'):
        return [f for f in self.m.fns if re.search(NSG + cls + r'(<.*>)?::(' + names + r')$', strip_inner(f.qual))]

    def key(self, f, what):
        return f'{sig(f)}|{what}'

    def all(self):
        self.sizes()
        self.equality()
        self.mapping()
        for cls, get_sizes, data in (('VoxelGridBase', 'GetGridSizes', 'GetImmutableRawData'),):
            self.voxel_grid(cls, self.place(cls, get_sizes), self.place(cls, data))
        self.chunk()
        self.hashed()
        for cls in ('VoxelGridBase', 'DynamicSpatialHashedVoxelGridBase'):
            self.inverse(cls)

    def place(self, cls, accessor):
        """offset of the member a reference accessor returns"""
        if self.base is not None:
            return self.base.place(cls, accessor)
        if (cls, accessor) in self.places:
            return self.places[cls, accessor]
        for f in self.fns(cls, accessor):
            ps = self.paths(f)
            if len(ps) == 1 and ps[0].end.ops:
                t = ps[0].ret()
                if isinstance(t, tuple) and t[0] == 'ptr' and t[1][0] == ('arg', 0):
                    self.places[cls, accessor] = t[1][1]
                    return t[1][1]
        raise sa.Broken(f'{cls}::{accessor} does not return a member')

    # --- GridSizes ---
    def sizes(self):
        c, r = self.c, self.r
        spec = {
            'sizes1': ([1, 2, 3], [4, 5, 6], False), 'sizes2': ([1, 2, 3], [4, 5, 6], True),
            'sizes3': ([1, 1, 1], [2, 3, 4], False), 'sizes4': ([1, 1, 1], [2, 3, 4], True), 'sizes5': None}
        fs = [(f, f.qual) for f in self.m.fns if f.qual in spec] + \
             [(f, 'DeserializeSelf') for f in self.fns('GridSizes', 'DeserializeSelf')]
        for f, nm in fs:
            for p in self.paths(f):
                v = p.v
                end = p.end
                F = lambda n: as_p(v.mem((('arg', 0), r.off[n]), 1 if n == 'Valid' else 8, end))
                valid = F('Valid')
                lits = p.lits
                if valid.const() == 0:
                    ok = any(F(f'Num{a}Cells').const() is not None and F(f'Num{a}Cells').const() <= 0 for a in AX)
                    c.ob('sizes', ok, f'{nm}|empty when invalid', f'{f.where()}: invalid sizes keep cells')
                    continue
                c.ob('sizes', valid.const() == 1, f'{nm}|valid is set', f'{f.where()}: validity is {valid}')
                for a in AX:
                    cell, n = F(f'Cell{a}Size'), F(f'Num{a}Cells')
                    want = {f'InvCell{a}Size': pinv(cell), f'{a}Size': pmul(n, cell)}
                    if a == 'X' and 'Stride1' in r.off:
                        want['Stride1'] = pmul(F('NumYCells'), F('NumZCells'))
                    if a == 'X' and 'Stride2' in r.off:
                        want['Stride2'] = F('NumZCells')
                    for k, t in want.items():
                        c.ob('sizes', F(k) == t, f'{nm}|{k}', f'{f.where()}: {k} is {brief(F(k))}, expected {brief(t)}')
                    pos = ('fogt', fz(cell)) in lits
                    c.ob('sizes', pos, f'{nm}|{a} cell size positive', f'{f.where()}: cell size {a} not proven positive')
                    if spec.get(nm):
                        cells, counts, real = spec[nm]
                        c.ob('sizes', cell == atom(('arg', cells['XYZ'.index(a)])), f'{nm}|cell {a}',
                             f'{f.where()}: cell size {a} is {brief(cell)}')
                        x = atom(('arg', counts['XYZ'.index(a)]))
                        want_n = x if not real else atom(('int', fz(atom(('ceil', fz(pmul(x, pinv(cell))))))))
                        c.ob('sizes', n == want_n, f'{nm}|count {a}', f'{f.where()}: count {a} is {brief(n)}')
                        c.ob('sizes', implied(lits, x - P(1)) if not real else ('fogt', fz(x)) in lits, f'{nm}|count {a} positive',
                             f'{f.where()}: count {a} not proven positive')
                    else:
                        c.ob('sizes', implied(lits, n - P(1)), f'{nm}|count {a} positive', f'{f.where()}: count {a} not proven positive')

    # --- pure mappings ---
    def coords(self, f, skip=0):
        """[(kind, coordinate terms)] the arguments of f name"""
        out = []
        k0 = 1 if f.params and f.params[0].get('sret') else 0
        ts = [(k, f.argdi(k) or '') for k in range(k0 + 1, len(f.params))]
        longs = [k for k, t in ts if t == 'const long']
        dbl = [k for k, t in ts if t == 'const double']
        if len(longs) == 3:
            return ('index', [atom(('arg', k)) for k in longs], None)
        for k, t in ts:
            if re.search(r'voxel_grid::GridIndex ?&', t):
                return ('index', [M(('arg', k), 8 * j) for j in range(3)], None)
            mm = re.search(r'Matrix<double, ([34]), 1', t)
            if mm:
                n = int(mm.group(1))
                w = [M(('arg', k), 8 * j) for j in range(n)]
                return ('loc', w, [('obj', (('arg', k), 0), 8 * n),
                                   ('words', tuple(fz(x) for x in w[:3]) + (fz(P(1)),)) if n == 3 else None])
        if len(dbl) == 3:
            w = [atom(('arg', k)) for k in dbl]
            return ('loc', w, [('words', tuple(fz(x) for x in w)), ('words', tuple(fz(x) for x in w) + (fz(P(1)),))])
        if len(longs) == 1:
            return ('data', [atom(('arg', longs[0]))], None)
        return None

    def grid_loc(self, p, alts, inv_at):
        """grid-frame location terms on this path: inverse transform times the requested location"""
        for i in p.v.on_path(('call', 'invoke')):
            if i.callee and sa.strip_targs(i.callee).endswith('Transform::operator*'):
                t = p.v.call(i)
                if len(t) == 4 and t[2] == ('obj', (inv_at[0], inv_at[1]), 128) and t[3] in [a for a in alts if a]:
                    return [atom(('out', t, 0, 8 * k)) for k in range(3)], t
        return None, None

    def mapping(self):
        c, r = self.c, self.r
        this = ('arg', 0)
        # GridSizes itself and the forwarding methods of the grid
        for cls, at in (('GridSizes', 0), ('VoxelGridBase', self.place('VoxelGridBase', 'GetGridSizes'))):
            inv = None if cls == 'GridSizes' else self.place(cls, 'GetInverseOriginTransform')
            org = None if cls == 'GridSizes' else self.place(cls, 'GetOriginTransform')
            for f in self.fns(cls):
                nm = f.qual.split('::')[-1]
                co = self.coords(f)
                if not co:
                    continue
                kind, w, alts = co
                sret = bool(f.params[0].get('sret'))
                t0 = ('arg', 1 if sret else 0)
                der = r.derived((t0, at))
                if nm == 'IndexInBounds' and kind == 'index':
                    self.in_bounds(f, r.bounds((t0, at), w), der)
                elif nm.startswith('LocationInBounds') and kind == 'loc':
                    for p in self.paths(f):
                        g, _ = self.grid_loc(p, alts, (t0, inv))
                        if g is None:
                            c.ob('mapping', False, self.key(f, 'transform'), f'{f.where()}: location is not taken to the grid frame')
                            break
                        w = self.loc_to_index(g, (t0, at))
                        self.in_bounds(f, r.bounds((t0, at), w), der, [p])
                elif nm in ('GetDataIndex', 'GridIndexToDataIndex', 'HashDataIndex') and kind == 'index':
                    for p in self.paths(f):
                        got = subst(as_p(p.ret()), der)
                        c.ob('mapping', got == r.row_major((t0, at), w), self.key(f, 'row-major'),
                             f'{f.where()}: storage index is {brief(got)}')
                elif nm in ('GetGridIndexFromDataIndex', 'DataIndexToGridIndex') and kind == 'data' and sret:
                    ny, nz = (r.field((t0, at), f'Num{a}Cells') for a in 'YZ')
                    d = w[0]
                    D = lambda a, b: atom(('div', fz(a), fz(b)))
                    s1 = pmul(ny, nz)
                    x = D(d, s1)
                    y0 = D(d, nz)
                    want = [[x, D(y0, ny)], [D(d - pmul(s1, x), nz), y0 - pmul(ny, D(y0, ny)), y0 - pmul(ny, x)],
                            [d - pmul(nz, y0), (d - pmul(s1, x)) - pmul(nz, D(d - pmul(s1, x), nz))]]
                    for p in self.paths(f):
                        for k in range(3):
                            got = derem(subst(as_p(p.v.mem((('arg', 0), 8 * k), 8, p.end)), der))
                            c.ob('mapping', got in want[k], self.key(f, f'coordinate {k}'), f'{f.where()}: {brief(got)}')
                elif nm in ('IndexToLocationInGridFrame', 'GridIndexToLocationInGridFrame', 'GridIndexToLocation') \
                        and kind == 'index' and sret:
                    want = [pmul(r.field((t0, at), f'Cell{AX[k]}Size'), w[k] + num(0.5)) for k in range(3)] + [P(1)]
                    for p in self.paths(f):
                        if nm == 'GridIndexToLocation':
                            t = as_p(p.v.mem((('arg', 0), 0), 8, p.end))
                            a = single(t)
                            ok = a is not None and a[0] == 'out' and a[3] == 0 and a[1][0] == 'call' and \
                                a[1][1].endswith('operator*') and a[1][2] == ('obj', (t0, org), 128) and \
                                a[1][3] == ('words', tuple(fz(x) for x in want))
                            c.ob('mapping', ok, self.key(f, 'cell centre'), f'{f.where()}: location is {brief(t)}')
                            continue
                        for k in range(4):
                            got = subst(as_p(p.v.mem((('arg', 0), 8 * k), 8, p.end)), der)
                            c.ob('mapping', got == want[k], self.key(f, f'coordinate {k}'), f'{f.where()}: {brief(got)}')
                elif re.match(r'Location(InGridFrame)?ToGridIndex', nm) and kind == 'loc' and sret:
                    for p in self.paths(f):
                        g = w
                        if 'InGridFrame' not in nm:
                            g, _ = self.grid_loc(p, alts, (t0, inv))
                        for k in range(3):
                            got = as_p(p.v.mem((('arg', 0), 8 * k), 8, p.end))
                            ok = g is not None and subst(got, der) == subst(self.loc_to_index(g, (t0, at))[k], der)
                            c.ob('mapping', ok, self.key(f, f'coordinate {k}'), f'{f.where()}: cell {AX[k]} is {brief(got)}')

    def equality(self):
        """keys compare equal exactly when all coordinates do"""
        c = self.c
        for cls, fl in (('GridIndex', False), ('ChunkRegion', True)):
            for f in self.fns(cls, 'operator=='):
                for p in self.paths(f):
                    for pol, extra in p.outcomes():
                        lits = p.lits + extra
                        n = 0
                        for k in range(3 if pol or not fl else 4):
                            d = [fz(M(('arg', a), 8 * k) - M(('arg', 1 - a), 8 * k)) for a in (0, 1)]
                            n += any(l[0] == (('foeq' if fl else 'eq') if pol else ('fune' if fl else 'ne')) and l[1] in d
                                     for x in lits for l in (x[1] if x[0] in ('any', 'all') else [x]))
                        c.ob('mapping', n == 3 if pol else n >= 1, self.key(f, f'equality {pol}'),
                             f'{f.where()}: {"equal" if pol else "different"} is reported on {n} of 3 coordinates')

    def loc_to_index(self, g, at):
        return [atom(('int', fz(atom(('floor', fz(pmul(g[k], self.r.field(at, f'InvCell{AX[k]}Size')))))))) for k in range(3)]

    def in_bounds(self, f, goals, der, ps=None):
        c = self.c
        for p in ps or self.paths(f):
            for pol, extra in p.outcomes():
                lits = p.lits + extra
                if pol:
                    miss = [g for g in goals if not implied(lits, g)]
                    c.ob('mapping', not miss, self.key(f, 'in bounds implies every bound'),
                         f'{f.where()}: reported in bounds without {brief(miss[0]) if miss else ""} >= 0')
                else:
                    c.ob('mapping', refuted(lits, goals), self.key(f, 'out of bounds implies a failing bound'),
                         f'{f.where()}: reported out of bounds on a path where no bound fails')

    # --- dense grid ---
    def voxel_grid(self, cls, at, data):
        c, r = self.c, self.r
        hooks = self.hooks(cls)
        for f in self.fns(cls):
            nm = f.qual.split('::')[-1]
            if not re.match(r'(Get|Set)\w+$', nm):
                continue
            ret = f.argtypes[0] if f.argtypes else ''
            co = self.coords(f)
            this = next((k for k in range(len(f.params)) if f.argdi(k) and cls in f.argdi(k)), None)
            if this is None:
                continue
            const = f.argdi(this).startswith('const ')
            t0 = ('arg', this)
            setter = nm.startswith('Set')
            if re.search(r'RawData$', nm):
                for p in self.paths(f):
                    if not const:
                        touched = self.hook_true(p, hooks.get('OnMutableRawAccess'), t0, [])
                        c.ob('raw', touched, self.key(f, 'hook'), f'{f.where()}: storage handed out without the raw-access hook')
                    if setter:
                        total = pmul(pmul(*[r.field((t0, at), f'Num{a}Cells') for a in 'XY']), r.field((t0, at), 'NumZCells'))
                        src = next((k for k in range(len(f.params)) if k != this), None)
                        size = [a for l in p.lits for a in all_atoms(l) if a[0] == 'call' and a[1].endswith('::size')
                                and a[2][:1] == ('obj',) and a[2][1][0] == ('arg', src)]
                        ok = any(l[0] == 'eq' and any(unfz(l[1]) in (total - atom(s), atom(s) - total) for s in size) for l in p.lits)
                        c.ob('raw', ok, self.key(f, 'size'), f'{f.where()}: storage replaced without comparing its size with the cell count')
                continue
            if not co or not (ret.endswith('&') or 'GridQuery' in ret or 'AccessStatus' in ret or setter):
                continue
            kind, w, alts = co
            der = r.derived((t0, at))
            for p in self.paths(f):
                self.access(f, p, cls, kind, w, alts, t0, at, data, der, const, setter, hooks)

    def elements(self, p, t0, data):
        """[(call, index term)] of element accesses on the path, in any storage below t0+data"""
        out = []
        for i in p.v.on_path(('call', 'invoke')):
            l = p.v.loc(('i', i.id)) if i.ty == 'ptr' else None
            if l and l[0][0] == 'elem' and l[0][1] == (t0, data):
                out.append((i, unfz(l[0][2]) if l[0][2][0] == 'P' else atom(l[0][2]), l))
        return out

    def access(self, f, p, cls, kind, w, alts, t0, at, data, der, const, setter, hooks):
        c, r = self.c, self.r
        lits = [slit(x, der) for x in p.lits]
        if kind == 'loc':
            inv = self.place(cls, 'GetInverseOriginTransform')
            g, _ = self.grid_loc(p, alts, (t0, inv))
            if g is None:
                c.ob('access', False, self.key(f, 'transform'), f'{f.where()}: the requested location is not taken to the grid frame')
                return
            w = self.loc_to_index(g, (t0, at))
        w = [subst(x, der) for x in w]
        els = self.elements(p, t0, data)
        if kind == 'data':
            for i, ix, l in els:
                size = [a for x in lits for a in all_atoms(x) if a[0] == 'call' and a[1].endswith('::size')]
                ok = ix == w[0] and implied(lits, ix) and any(implied(lits, atom(s) - ix - P(1)) for s in size)
                c.ob('access', ok, self.key(f, 'storage index in range'), f'{i.where()}: element {brief(ix)} without a range test')
                if not const:
                    c.ob('raw', self.hook_true(p, hooks.get('OnMutableRawAccess'), t0, []), self.key(f, 'hook'),
                         f'{i.where()}: mutable element without the raw-access hook')
            if els:
                self.result(f, p, els, setter, t0, None)
            else:
                c.ob('access', False, self.key(f, 'reaches the element'), f'{f.where()}: returns without reaching the element')
            return
        goals = r.bounds((t0, at), w)
        want = r.row_major((t0, at), w)
        hook = hooks.get('OnMutableAccess')
        if els:
            for i, ix, l in els:
                got = subst(ix, der)
                c.ob('access', got == want, self.key(f, 'row-major'), f'{i.where()}: element {brief(got)}, expected {brief(want)}')
                miss = [g for g in goals if not implied(lits, g)]
                c.ob('access', not miss, self.key(f, 'bounds'),
                     f'{i.where()}: element reached without {brief(miss[0]) if miss else ""} >= 0')
                if not const:
                    ok = self.hook_true(p, hook, t0, w, der)
                    c.ob('hook', ok, self.key(f, 'consulted for this cell'),
                         f'{i.where()}: mutable element reached without the hook agreeing to these coordinates')
            self.result(f, p, els, setter, t0, 0)
        else:
            st = self.status(p)
            if refuted(lits, goals):
                c.ob('refuse', st == 1, self.key(f, 'out of bounds status'), f'{f.where()}: status {st} for an out-of-bounds request')
            elif not const and self.hook_false(p, hook):
                c.ob('refuse', st == 2, self.key(f, 'refused status'), f'{f.where()}: status {st} for a refused access')
            else:
                c.ob('refuse', False, self.key(f, 'reason'), f'{f.where()}: a path refuses an in-bounds request')

    def status(self, p):
        t = p.ret() if p.end.ops else None
        if isinstance(t, P):
            return t.const()
        if isinstance(t, tuple) and t[0] == 'agg':
            for ix, v in t[1]:
                if v[0] == 'P' and unfz(v).const() is not None:
                    return unfz(v).const()
        return None

    def result(self, f, p, els, setter, t0, status):
        """what the caller gets is the element reached"""
        c = self.c
        locs = [l for _, _, l in els]
        t = p.ret() if p.end.ops else None
        if setter:
            val = next((k for k in range(len(f.params) - 1, -1, -1) if f.params[k]['ty'] == 'ptr'), None)
            src = (('arg', val), 0)
            ok = any(i.callee and i.callee.endswith('::operator=') and p.v.loc(i.ops[0]) in locs and p.v.loc(i.ops[1]) == src
                     for i in p.v.on_path(('call', 'invoke')))
            c.ob('access', ok, self.key(f, 'assigned'), f'{f.where()}: the value is not assigned to the element reached')
        else:
            ptrs = [t[1]] if isinstance(t, tuple) and t[0] == 'ptr' else \
                [v[1] for _, v in t[1] if v[0] == 'ptr'] if isinstance(t, tuple) and t[0] == 'agg' else []
            c.ob('access', bool(ptrs) and all(x in locs for x in ptrs), self.key(f, 'returned'),
                 f'{f.where()}: what is returned is not the element reached')
        if status is not None:
            st = self.status(p)
            c.ob('access', st == status, self.key(f, 'success status'), f'{f.where()}: status {st} with a reached element')

    # --- virtual hooks ---
    def hooks(self, cls):
        """vtable slot of each hook, from the derived grid's table"""
        out = {}
        der = 'VoxelGrid' if cls == 'VoxelGridBase' else 'DynamicSpatialHashedVoxelGrid'
        for k, slots in self.m.vtables.items():
            if re.search(r'voxel_grid::' + der + '<', k):
                for j, s in enumerate(slots):
                    nm = sa.strip_targs(s or '').split('(')[0].split('::')[-1]
                    out.setdefault(nm, j)
        for n in ('OnMutableAccess', 'OnMutableRawAccess'):
            if n not in out:
                raise sa.Broken(f'no {n} slot in the vtable of {der}')
        return out

    def hook_calls(self, p, slot):
        """virtual calls through the slot on the path"""
        for i in p.v.on_path(('call', 'invoke')):
            if i.callee is None and i.ind:
                ld = p.v.fn.get(sa.tuple_ref(i.ind))
                if ld is not None and ld.op == 'load':
                    b, off, var = p.v.fn.ptr(ld.ops[0])
                    if not var and off == 8 * slot:
                        yield i

    def hook_true(self, p, slot, t0, w, der=None):
        for i in self.hook_calls(p, slot):
            if ('bool', fz(atom(('icall', i.id))), True) not in p.lits:
                continue
            if p.v.loc(i.ops[0]) != (t0, 0):
                continue
            args = [p.v.n(o) for o in i.ops[1:]]
            if der:
                args = [subst(a, der) for a in args]
            if args == list(w):
                return True
        return False

    def hook_false(self, p, slot):
        return any(('bool', fz(atom(('icall', i.id))), False) in p.lits for i in self.hook_calls(p, slot))

    # --- chunk of the hashed grid ---
    def chunk_layout(self):
        t = [x for n, xs in self.m.by_base.items() if n.endswith('DynamicSpatialHashedVoxelGridChunk') for x in xs]
        fields = {}
        for x in t:
            for name, off, ty, size in x['members']:
                ty = ty or ''
                if 'GridSizes' in ty:
                    fields['sizes'] = off
                elif 'ChunkRegion' in ty:
                    fields['region'] = off
                elif 'vector' in ty or 'BackingStore' in ty:
                    fields['data'] = off
                elif 'FillStatus' in ty:
                    fields['fill'] = off
        if len(fields) < 4:
            raise sa.Broken(f'chunk members not identified: {fields}')
        return fields

    def chunk(self):
        self.lay = self.chunk_layout()
        cls = 'DynamicSpatialHashedVoxelGridChunk'
        for f in self.fns(cls):
            nm = f.qual.split('::')[-1]
            this = next((k for k in range(len(f.params)) if f.argdi(k) and cls in f.argdi(k)), None)
            if this is None:
                continue
            t0 = ('arg', this)
            for p in self.paths(f):
                self.fills(f, p, (t0, 0))
            if not re.match(r'(Get|Set)\w+$', nm):
                continue
            co = self.coords(f)
            if not co or co[0] == 'data':
                continue
            for p in self.paths(f):
                w = co[1]
                self.chunk_access(f, p, (t0, 0), co[0], w, nm.startswith('Set'))

    def fills(self, f, p, base):
        """the fill status written at exit agrees with the number of cells stored"""
        c, r, L = self.c, self.r, self.lay
        root, b = base
        st = as_p(p.v.mem((root, b + L['fill']), 1, p.end))
        if st.const() not in (1, 2) or not any(
                i.op == 'store' and p.v.loc(i.ops[1]) == (root, b + L['fill']) for i in p.v.on_path(('store',))):
            return
        der = r.derived((root, b + L['sizes']))
        total = pmul(pmul(*[r.field((root, b + L['sizes']), f'Num{a}Cells') for a in 'XY']), r.field((root, b + L['sizes']), 'NumZCells'))
        last = None
        for i in p.v.on_path(('call', 'invoke')):
            if i.ops and p.v.fn.is_ptr(i.ops[0]) and p.v.loc(i.ops[0]) == (root, b + L['data']):
                if re.search(r'::(resize|assign)$', i.callee or ''):
                    last = subst(p.v.n(i.ops[1]), der)
                elif re.search(r'::(clear|operator=)$', i.callee or ''):
                    last = None
        if last is None:
            known = [x for x in p.lits if x[0] == 'eq' and unfz(x[1]) in (M(root, b + L['fill']) - st, st - M(root, b + L['fill']))]
            c.ob('chunk', bool(known), self.key(f, f'fill status {st.const()} matches the storage'),
                 f'{f.where()}: the fill status is changed without resizing the storage')
            return
        # the sizes object itself may have been written on the path
        tot = [subst(total, {('m', (root, b + L['sizes'] + o)): as_p(p.v.mem((root, b + L['sizes'] + o), 8, p.end))
                             for o in r.off.values() if o != r.off['Valid']}), total]
        want = [P(1)] if st.const() == 1 else tot
        c.ob('chunk', last in want, self.key(f, f'storage size for fill status {st.const()}'),
             f'{f.where()}: {brief(last)} cells stored with fill status {st.const()}')

    def chunk_access(self, f, p, base, kind, w, setter, via=None):
        """element accesses inside the chunk at place base on this path"""
        c, r, L = self.c, self.r, self.lay
        root, b = base
        at = (root, b + L['sizes'])
        der = r.derived(at)
        # inverse sizes may be written as divisions
        lits = [slit(x, der) for x in p.lits]
        if kind == 'loc':
            rel = [w[k] - M(root, b + L['region'] + 8 * k) for k in range(3)]
            w = [atom(('int', fz(atom(('floor', fz(pmul(rel[k], pinv(r.field(at, f'Cell{AX[k]}Size'))))))))) for k in range(3)]
        w = [subst(x, der) for x in w]
        els = self.elements(p, root, b + L['data'])
        n = 0
        for i, ix, l in els:
            got = subst(ix, der)
            fill = as_p(p.v.mem((root, b + L['fill']), 1, i))
            lf = fill.const()
            if lf is None:
                for x in lits:
                    if x[0] == 'eq':
                        for s in (1, 2):
                            if unfz(x[1]) in (fill - num(s), num(s) - fill):
                                lf = s
            assigned = any(u.op in ('call', 'invoke') and (u.callee or '').endswith('::operator=') and
                           p.v.loc(u.ops[0]) == l for u in p.v.on_path(('call', 'invoke')))
            returned = self.returned(p, l)
            n += assigned or returned
            if lf == 2:
                ok = got == r.row_major(at, w)
                c.ob('access', ok, self.key(f, 'chunk row-major'), f'{i.where()}: element {brief(got)} of a cell-filled chunk')
                goals = r.bounds(at, w)
                miss = [g for g in goals if not implied(lits, g)]
                c.ob('access', not miss, self.key(f, 'chunk bounds'),
                     f'{i.where()}: chunk element reached without {brief(miss[0]) if miss else ""} >= 0')
                if returned:
                    c.ob('chunk', self.status(p) == 2, self.key(f, 'found in cell'), f'{f.where()}: status {self.status(p)}')
                if assigned:
                    c.ob('chunk', self.status(p) == 2, self.key(f, 'set cell'), f'{f.where()}: status {self.status(p)}')
            elif lf == 1:
                c.ob('access', got == P(0), self.key(f, 'chunk value'), f'{i.where()}: element {brief(got)} of a chunk-filled chunk')
                if returned:
                    c.ob('chunk', self.status(p) == 1, self.key(f, 'found in chunk'), f'{f.where()}: status {self.status(p)}')
                c.ob('chunk', not assigned or not setter, self.key(f, 'cell set'),
                     f'{i.where()}: one cell is set in a chunk that stores a single value for all cells')
            else:
                c.ob('chunk', False, self.key(f, 'fill status'), f'{i.where()}: element reached without knowing how the chunk is filled')
        return n

    def returned(self, p, l):
        t = p.ret() if p.end.ops else None
        ptrs = [t[1]] if isinstance(t, tuple) and t[0] == 'ptr' else \
            [v[1] for _, v in t[1] if v[0] == 'ptr'] if isinstance(t, tuple) and t[0] == 'agg' else []
        return l in ptrs

    # --- hashed grid ---
    def hashed(self):
        c, r, L = self.c, self.r, self.lay
        cls = 'DynamicSpatialHashedVoxelGridBase'
        hooks = self.hooks(cls)
        at = self.place(cls, 'GetChunkGridSizes')
        inv = self.place(cls, 'GetInverseOriginTransform')
        chunks = self.place(cls, 'GetImmutableInternalChunks')
        self.default = self.place(cls, 'GetDefaultValue')
        for f in self.fns(cls):
            nm = f.qual.split('::')[-1]
            this = next((k for k in range(len(f.params)) if f.argdi(k) and cls in f.argdi(k)), None)
            if this is None or not re.match(r'(Get|Set)', nm):
                continue
            t0 = ('arg', this)
            const = f.argdi(this).startswith('const ')
            if nm == 'GetMutableInternalChunks':
                for p in self.paths(f):
                    c.ob('raw', self.hook_true(p, hooks['OnMutableRawAccess'], t0, []), self.key(f, 'hook'),
                         f'{f.where()}: chunks handed out without the raw-access hook')
                continue
            co = self.coords(f)
            if not co or co[0] != 'loc' or not re.match(r'(Get|Set)Location', nm):
                continue
            setter = nm.startswith('Set')
            for p in self.paths(f):
                self.hashed_path(f, p, co, t0, at, inv, chunks, hooks, const, setter)

    def hashed_path(self, f, p, co, t0, at, inv, chunks, hooks, const, setter):
        c, r, L = self.c, self.r, self.lay
        g, gt = self.grid_loc(p, co[2], (t0, inv))
        deleg = [i for i in p.v.on_path(('call', 'invoke')) if re.search(r'HashedVoxelGridBase<.*>::(Get|Set)Location', i.callee or '')]
        for i in deleg:
            ps, _ = sa.params_of(i.cd or '')
            base = len(i.ops) - len(ps)
            pt = [k for k in range(base, len(i.ops)) if p.v.fn.is_ptr(i.ops[k])]
            nl = sum(1 for x in ps if x in ('double', 'const double'))
            loc = ('words', tuple(fz(p.v.n(o)) for o in i.ops[base:base + 3])) if nl == 3 else \
                p.v.obj(i.ops[base], i, 24 if '3d' in i.callee.split('::')[-1] else 32)
            ok = loc in [a for a in co[2] if a] and p.v.loc(i.ops[base - 1]) == (t0, 0)
            c.ob('access', ok, self.key(f, 'forwarded location'), f'{i.where()}: forwarded with location {brief(loc)}')
            if setter:
                val = next((k for k in range(len(f.params) - 1, -1, -1) if f.params[k]['ty'] == 'ptr'), None)
                own = [k for k in range(len(f.params)) if 'SetType' in (f.argdi(k) or '')]
                st = [p.v.n(o) for o in i.ops[base:] if not p.v.fn.is_ptr(o)]
                ok = p.v.loc(i.ops[pt[-1]]) == (('arg', val), 0) and (not own or atom(('arg', own[0])) in st)
                c.ob('access', ok, self.key(f, 'forwarded value'), f'{i.where()}: forwarded with another value or set type')
        if g is None:
            if deleg:
                return
            c.ob('access', False, self.key(f, 'transform'), f'{f.where()}: the requested location is not taken to the grid frame')
            return
        der = r.derived((t0, at))
        size = [subst(r.field((t0, at), f'{a}Size'), der) for a in AX]
        region = ('words', tuple(fz(pmul(size[k], atom(('floor', fz(pmul(g[k], pinv(size[k]))))))) for k in range(3)) + (fz(P(1)),))
        hook_ok = self.hashed_hook(p, hooks['OnMutableAccess'], t0, gt, True)
        hook_no = self.hashed_hook(p, hooks['OnMutableAccess'], t0, gt, False)
        finds = []
        for i in p.v.on_path(('call', 'invoke')):
            meth = re.search(r'unordered_map(<.*>)?::(find|count|at|operator\[\]|emplace|insert|try_emplace)(<.*>)?$', i.callee or '')
            if meth and \
                    p.v.loc(i.ops[1 if i.sret else 0]) == (t0, chunks):
                k = 2 if i.sret else 1
                key = p.v.obj(i.ops[k], i, 32)
                key = tuple(fz(subst(unfz(x), der)) if x[0] == 'P' else x for x in key[1]) if key[0] == 'words' else key
                ok = key == region[1]
                c.ob('chunk', ok, self.key(f, f'region of {meth.group(2)}'),
                     f'{i.where()}: the chunk is looked up under {brief(key)}, expected the region containing the location')
                finds.append(i)
                if meth.group(2) in ('emplace', 'insert', 'try_emplace', 'operator[]'):
                    c.ob('hook', hook_ok, self.key(f, 'hook before allocation'), f'{i.where()}: a chunk is added without the hook agreeing')
                if meth.group(2) == 'emplace' and len(i.ops) > k + 1:
                    self.allocated(f, p, i, p.v.loc(i.ops[k + 1]), region[1], t0, at, der)
        # dereferenced find results
        places = {}
        for i in p.v.on_path(('call', 'invoke')):
            l = p.v.loc(('i', i.id)) if i.ty == 'ptr' else None
            if l and l[0][0] == 'elem' and l[0][1][0][0] == 'at':
                root, off = l[0][1]
                places.setdefault((root, off - L['data']), i)
        n = 0
        for (root, b), i in places.items():
            t = root[1]
            a = single(unfz(t)) if t[0] == 'P' else t
            isfind = a is not None and a[0] == 'call' and a[1].endswith('::find')
            if isfind:
                guard = any(l[0] == 'bool' and any(x[0] == 'call' and x[1].endswith('::end') for x in all_atoms(l)) and
                            a in all_atoms(l) and self.says_found(l) for l in p.lits)
                c.ob('chunk', guard, self.key(f, 'found before use'), f'{i.where()}: the looked-up chunk is used without having been found')
            n += self.chunk_access(f, p, (root, b), 'loc', g, setter)
            if not const:
                c.ob('hook', hook_ok, self.key(f, 'consulted for this location'),
                     f'{i.where()}: a mutable cell is reached without the hook agreeing to this location')
        if setter and not deleg:
            st = self.status(p)
            own = [k for k in range(len(f.params)) if 'SetType' in (f.argdi(k) or '')]
            val = next((k for k in range(len(f.params) - 1, -1, -1) if f.params[k]['ty'] == 'ptr'), None)
            cell = [l for l in p.lits if own and l[0] in ('eq', 'ne') and unfz(l[1]) in (
                atom(('arg', own[0])) - num(1), num(1) - atom(('arg', own[0])))]
            if st == 0:
                c.ob('refuse', hook_no, self.key(f, 'refused'), f'{f.where()}: refused although the hook agreed')
            elif st == 1:
                ok = any(re.search(r'::(resize|assign)$', i.callee or '') and p.v.loc(i.ops[-1]) == (('arg', val), 0) and
                         p.v.n(i.ops[1]) == P(1) for i in p.v.on_path(('call', 'invoke')))
                c.ob('access', ok, self.key(f, 'chunk value set'), f'{f.where()}: reported as set without storing the value')
                c.ob('access', not any(l[0] == 'eq' for l in cell), self.key(f, 'set type'),
                     f'{f.where()}: a whole chunk is set although a cell was requested')
                c.ob('hook', hook_ok, self.key(f, 'consulted for this location'),
                     f'{f.where()}: a chunk is set without the hook agreeing to this location')
            elif st == 2:
                c.ob('access', n > 0, self.key(f, 'cell value set'), f'{f.where()}: reported as set without storing the value')
                c.ob('access', any(l[0] == 'eq' for l in cell), self.key(f, 'set type'),
                     f'{f.where()}: a cell is set although a whole chunk was requested')
            else:
                c.ob('refuse', False, self.key(f, 'status'), f'{f.where()}: status {st}')
        if not places and not deleg and setter is False:
            st = self.status(p)
            if st == 0:
                nf = any(l[0] == 'bool' and any(x[0] == 'call' and x[1].endswith('::end') for x in all_atoms(l)) and
                         not self.says_found(l) for l in p.lits)
                c.ob('refuse', nf, self.key(f, 'not found'), f'{f.where()}: reported as not found without a failed lookup')
            elif st == 3:
                c.ob('refuse', hook_no, self.key(f, 'refused'), f'{f.where()}: reported as prohibited although the hook agreed')
            else:
                c.ob('refuse', False, self.key(f, 'status'), f'{f.where()}: status {st} without an element')

    def allocated(self, f, p, i, ch, region, t0, at, der):
        """a chunk added to the map covers the region it is stored under, has the grid's chunk sizes and holds the default value"""
        c, r, L = self.c, self.r, self.lay
        if ch is None or ch[0][0] != 'alloca':
            return
        root, b = ch
        got = [subst(as_p(p.v.mem((root, b + L['region'] + 8 * k), 8, i)), der) for k in range(3)]
        c.ob('chunk', [fz(x) for x in got] == list(region[:3]), self.key(f, 'region of the allocated chunk'),
             f'{i.where()}: the allocated chunk covers another region than the one it is stored under')
        bad = [n for n, o in r.off.items() if n != 'Valid' and
               subst(as_p(p.v.mem((root, b + L['sizes'] + o), 8, i)), der) != subst(M(t0, at + o), der)]
        c.ob('chunk', not bad, self.key(f, 'sizes of the allocated chunk'), f'{i.where()}: the allocated chunk has other sizes: {bad[:3]}')
        dv = self.default
        for u in p.v.on_path(('call', 'invoke')):
            if u is i:
                break
            if u.ops and p.v.fn.is_ptr(u.ops[0]) and p.v.loc(u.ops[0]) == (root, b + L['data']) and \
                    re.search(r'::(resize|assign)$', u.callee or ''):
                c.ob('chunk', len(u.ops) > 2 and p.v.loc(u.ops[2]) == (t0, dv), self.key(f, 'value of the allocated chunk'),
                     f'{u.where()}: the allocated chunk is not filled with the default value')

    def says_found(self, l):
        a = [x for x in all_atoms(l) if x[0] == 'call' and re.search(r'operator[!=]=$', x[1])]
        if not a:
            return False
        return l[2] == a[0][1].endswith('operator!=')

    def hashed_hook(self, p, slot, t0, gt, pol):
        for i in self.hook_calls(p, slot):
            if ('bool', fz(atom(('icall', i.id))), pol) in p.lits and p.v.loc(i.ops[0]) == (t0, 0):
                o = p.v.obj(i.ops[1], i, 32)
                if o == ('outobj', gt, 0, 0, 32) or o[0] == 'words' and [unfz(x) for x in o[1][:3]] == [
                        atom(('out', gt, 0, 8 * k)) for k in range(3)]:
                    return True
        return False

    # --- storage filled by initialisation and deserialization ---
    def stored(self):
        c, r = self.c, self.r
        at, data = (self.place('VoxelGridBase', x) for x in ('GetGridSizes', 'GetImmutableRawData'))
        self.lay = self.base.lay
        for cls in ('VoxelGridBase', 'DynamicSpatialHashedVoxelGridChunk', 'DynamicSpatialHashedVoxelGridBase'):
            for f in self.fns(cls):
                nm = f.qual.split('::')[-1]
                t0 = ('arg', 0)
                if cls.startswith('Dynamic') and nm == 'Initialize':
                    continue
                for p in self.paths(f):
                    v, end = p.v, p.end
                    if cls == 'VoxelGridBase' and f.params and len(f.params) > 1:
                        self.storage(f, p, (t0, at), (t0, data), None, nm)
                    elif cls.endswith('Chunk') and nm == 'DeserializeSelf':
                        fill = as_p(v.mem((t0, self.lay['fill']), 1, end))
                        self.storage(f, p, (t0, self.lay['sizes']), (t0, self.lay['data']), fill, nm)
        for cls in ('VoxelGridBase', 'DynamicSpatialHashedVoxelGridBase'):
            self.inverse(cls)

    def storage(self, f, p, at, data, fill, nm):
        c, r, v, end = self.c, self.r, p.v, p.end
        n = [as_p(v.mem((at[0], at[1] + r.off[f'Num{a}Cells']), 8, end)) for a in AX]
        total = pmul(pmul(n[0], n[1]), n[2])
        last = None
        for i in v.on_path(('call', 'invoke')):
            if i.ops and v.fn.is_ptr(i.ops[0]) and v.loc(i.ops[0]) == data:
                cal = (i.callee or '').split('::')[-1]
                if cal in ('resize', 'assign'):
                    last = v.n(i.ops[1])
                elif cal.startswith(('clear', 'operator=')):
                    last = 'size'
        if last is None:
            return
        if isinstance(last, str):
            last = atom(('call', 'std::vector::size', v.content(data, 24, end)))
        eqs = [unfz(l[1]) for l in p.lits if l[0] == 'eq']
        same = lambda a, b: a == b or (a - b) in eqs or (b - a) in eqs
        if fill is None:
            ok = same(last, total)
        else:
            ok = same(fill, P(2)) and same(last, total) or same(fill, P(1)) and same(last, P(1)) or same(last, P(0))
        c.ob('chunk' if fill is not None else 'raw', ok, self.key(f, 'storage size matches the cell count'),
             f'{f.where()}: returns with {brief(last)} cells stored, not shown equal to the cell count')

    # --- transforms ---
    def inverse(self, cls):
        c = self.c
        org, inv = self.place(cls, 'GetOriginTransform'), self.place(cls, 'GetInverseOriginTransform')
        for f in self.fns(cls) + self.fns(cls, cls) + self.fns(cls, r'operator='):
            this = next((k for k in range(len(f.params)) if f.argdi(k) and f.argdi(k).endswith('*') and cls in f.argdi(k)), None)
            if this is None:
                continue
            t0 = ('arg', this)
            for p in self.paths(f):
                o = p.v.content((t0, org), 128, p.end)
                i = p.v.content((t0, inv), 128, p.end)
                if o == ('obj', (t0, org), 128) and i == ('obj', (t0, inv), 128):
                    continue
                ok = i[0] == 'outobj' and i[1][0] == 'call' and i[1][1].endswith('Transform::inverse') and i[1][2] == o \
                    and i[3] == 0
                ok = ok or o[0] == 'obj' and i[0] == 'obj' and o[1][0] == i[1][0] and i[1][1] - o[1][1] == inv - org
                ok = ok or o == i and o[0] == 'words' and identity(o[1])
                # another method of the same object did it
                ok = ok or o[0] == 'outobj' and i[0] == 'outobj' and o[1] == i[1] and i[3] - o[3] == inv - org and \
                    re.match('voxel_grid::' + cls + '::', o[1][1])
                c.ob('inverse', ok, self.key(f, 'inverse of the stored transform'),
                     f'{f.where()}: transform {brief(o)} with inverse {brief(i)}')


def identity(ws):
    return len(ws) == 16 and all(w[0] == 'P' and unfz(w).const() == (1 if k % 5 == 0 else 0) for k, w in enumerate(ws))


def as_p(t):
    return t if isinstance(t, P) else atom(t)


def single(t):
    if isinstance(t, P) and len(t.t) == 1:
        (k, v), = t.t.items()
        if v == 1 and len(k) == 1:
            return k[0]
    return None


def brief(t):
    return str(t)[:160]


def strip_inner(q):
    return re.sub(r'<.*>', '<>', q)


def sig(f):
    q = re.sub(r'<.*>', '', f.short())
    ts = [re.sub(r'<.*>', '', t).replace('common_robotics_utilities::v1::', '') for t in f.argtypes[1:]]
    return f'{q}({",".join(t.split("::")[-1] for t in ts[1:])})' + ('const' if ts and ts[0].startswith('const') else '')
