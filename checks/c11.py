"""C11: roadmap edges carry the caller's checks and distances, in the direction they are stored."""
import re

import sa
from closures import LOOP, View, body_of
from codec import P, atom
from flow import atom1, atoms_in, geq, proves
from graphs import ACC, Layout, edge_pushes, node_index
from loops import Loops, calls_in, callname, erase, flags, misses, truth
from paths import feasible, negate, paths, segments
from val import V, fz, unfz, num, subst

UNIT = 'prm.cpp'
PRM = r'simple_prm_planner::'
KEEP = [r'std::(any_of|all_of|none_of|find_if|find_if_not|count_if)<', r'simple_knearest_neighbors::GetKNearestNeighbors', 'AddEdges?BetweenNodes$', '::AddNode$', 'GetNode(Imm|M)utable$', 'Parallel(For|.*Loop)']
CALLBACK = re.compile(r'^std::function<.*>::operator\(\)$')
KNN = re.compile(r'(?<!simple_knearest_neighbors)::GetKNearestNeighbors(<.*>)?$')


def run(c):
    c.rule('checked', 'each edge given to the roadmap runs in a direction the caller\'s check accepted on that path (either direction when '
                      'declared symmetric), between the two nodes the check was asked about')
    c.rule('weight', 'the weight of each edge is the caller\'s distance in its direction: the result of the distance callback, or the '
                     'neighbour distance of a query in that direction (any direction when symmetric)')
    c.rule('kept', 'an accepted motion is not dropped: every neighbour is visited and both directions are stored when accepted')
    c.rule('self', 'no edge from a node to itself')
    c.rule('node', 'a state is added only after the caller\'s check accepted it; duplicates only when asked for')
    c.rule('mirrored', 'the completion step adds, for every stored edge half without a counterpart, exactly its counterpart')
    c.rule('update', 'updating sets an edge\'s weight to the distance from its start to its end, or to infinity when the check rejects it')
    c.rule('provider', 'the linear neighbour provider measures in the direction of the query and refuses neighbours outside the allowed range')
    m = c.work.load(UNIT, ACC + [r'^nn_(index|distance)$', r'^direction_to_new$'])
    lay = Layout(m)
    nn = {}
    to_new = None
    for f in m.fns:
        n = f.qual.split('(')[0]
        if n.startswith('nn_'):
            a = atom1(paths(f)[0].ret())
            nn[n[3:]] = a[1][1]
        if n == 'direction_to_new':
            to_new = paths(f)[0].ret().const()
    if set(nn) != {'index', 'distance'} or to_new is None:
        raise sa.Broken('layout of IndexAndDistance not found')
    m = c.work.load(UNIT, PRM + r'(AddNodeToRoadmap|BuildRoadMap|UpdateRoadMapEdges)<', keep=KEEP)
    fs = {}
    for f in m.fns:
        n = re.search(PRM + r"(\w+)<[^']*$", f.qual)
        if n:
            fs[n.group(1)] = f
    for n, cls in (('AddNodeToRoadmap', AddNode), ('BuildRoadMap', Build), ('UpdateRoadMapEdges', Update)):
        if n not in fs:
            raise sa.Broken(f'{n} not found')
        cls(c, m, fs[n], lay, nn, to_new).check()
    grow(c)
    queries(c)
    provider(c, lay, to_new)
    c.need('obligations:checked', 2)
    c.need('obligations:weight', 2)


def A(v, i, k):
    x = v.arg(i, k)
    return unfz(x) if x[0] == 'P' else x


class Motion:
    """result of a user callback on two states: kind check | dist, ends as node names"""
    def __init__(self, kind, a, b, t, i):
        self.kind, self.a, self.b, self.t, self.i = kind, a, b, t, i


class Ctx:
    """One function (or body) in the vocabulary of the rules.
    roles: creator's argument number -> role"""
    def __init__(self, f, view, roles, lay, nn, to_new):
        self.f, self.view, self.roles, self.lay, self.nn, self.to_new = f, view, roles, lay, nn, to_new
        self.ss = segments(f) or []
        self.loops = Loops(f, self.ss)
        v = V(f)
        self.knn = {}           # place of a result -> arguments of the query
        for i in f.insts():
            if i.op in ('call', 'invoke') and KNN.search(i.callee or '') and i.sret:
                l = view.T(v.loc(i.ops[0]))
                if l:
                    self.knn[l] = (v, i)

    def T(self, t):
        return self.view.T(t)

    def role(self, l):
        """role of the argument a place is"""
        if l and l[0] and l[0][0] == 'O' and l[1] == 0:
            return self.roles.get(l[0][1])
        return None

    def node(self, s, l, off=None):
        """name of the node whose value (or which) is at place l: ('new',) or ('node', index)"""
        if l is None:
            return None
        if self.role(self.T(l)) == 'state':
            return ('new',)
        k = node_index(self.f, s, l[0])
        if k is not None and l[1] == (self.lay.node['Value'] if off is None else off):
            return ('node', fz(self.T(k)))
        return None

    def motions(self, s):
        out = []
        for i in s.v.on_path(('call', 'invoke')):
            if not CALLBACK.search(i.callee or ''):
                continue
            k = 1 if i.sret else 0
            r = self.role(self.T(s.v.loc(i.ops[k])))
            if r in ('check', 'dist'):
                a, b = (self.node(s, s.v.loc(o)) for o in i.ops[-2:])
                t = atom1(s.v.val(('i', i.id)))
                out.append(Motion(r, a, b, erase(t), i))
        return out

    def lits(self, s):
        return [self.T(x) for x in s.lits]

    def accepted(self, s, lits, a, b, pol=True):
        """the check from a to b was asked on the path and answered pol"""
        for m in self.motions(s):
            if m.kind == 'check' and (m.a, m.b) == (a, b):
                t = fz(atom(m.t))
                if ('bool', t, pol) in lits:
                    return True
        return False

    def flag(self, lits, role, pol=True):
        ks = [k for k, r in self.roles.items() if r == role]
        for x in lits:
            for k in ks:
                o = fz(atom(('O', k)))
                if x == ('bool', o, pol) or x == ('bool', fz(atom(('trunc', 'i1', o))), pol):
                    return True
                if x in ((('ne' if pol else 'eq'), o), (('ne' if pol else 'eq'), fz(P(0) - unfz(o)))):
                    return True
        return False

    def direction(self, lits, term):
        """True: roadmap to new, False: new to roadmap, None: not known"""
        if isinstance(term, P) and term.const() is not None:
            return term.const() == self.to_new
        for x in lits:
            if x[0] in ('eq', 'ne') and x[1][0] == 'P':
                p = unfz(x[1])
                for g in (1, -1):
                    d = (p - term * P(g)).const()
                    if d is not None:
                        val = -d * g
                        is_new = val == self.to_new
                        return is_new if x[0] == 'eq' else not is_new
        return None

    def neighbor(self, t):
        """place of the neighbour record whose index t is, or None"""
        a = atom1(t) if isinstance(t, P) else t
        if isinstance(a, tuple) and a and a[0] == 'm' and a[1][1] == self.nn['index']:
            return a[1][0]
        return None

    def container(self, root):
        """place of the query result a neighbour record is part of"""
        if root[0] == 'elem':
            return root[1]
        if root[0] == 'deref':
            for it in self.loops.iters.values():
                if it.kind == 'iter' and self.T(it.cur)[0] == root:
                    return self.T(it.K)
        return None

    def query(self, root, other=None):
        """(from-roadmap direction term, node asked about) of the query behind a neighbour record"""
        q = (other or self).knn.get(self.container(root))
        return q

    def distances(self, s, lits, idx, me):
        """[(term, a, b)]: distance terms known on this path, between me and the node with index idx"""
        out = [(m.t, m.a, m.b) for m in self.motions(s) if m.kind == 'dist']
        return out


class Base:
    def __init__(self, c, m, f, lay, nn, to_new):
        self.c, self.m, self.f, self.lay, self.nn, self.to_new = c, m, f, lay, nn, to_new
        self.outer = View(f)
        c.saw(f)
        self.name = f.short().split('<')[0].split('::')[-1]

    def bodies(self, roles):
        """[(body function, Ctx, loop call, creator's V)]"""
        out = []
        v = V(self.f)
        for i in self.f.insts():
            if i.op in ('call', 'invoke') and i.callee and LOOP.search(i.callee):
                b = body_of(self.m, i.callee)
                ptrs = [v.loc(x) for x in i.ops if self.f.is_ptr(x)]
                if b is None or not ptrs or ptrs[-1] is None:
                    self.c.unsure('checked', f'{self.name}|body', f'{i.where()}: loop body not found')
                    continue
                self.c.saw(b)
                out.append((b, Ctx(b, View(b, self.outer, ptrs[-1]), roles, self.lay, self.nn, self.to_new), i, v))
        return out

    def weight_ok(self, cx, s, lits, w, a, b, root, sym, dirs):
        """w is the caller's distance from a to b; root: neighbour record of the roadmap node; dirs: direction of the query on this path
        (True when from the roadmap node to the other)"""
        t = atom1(w) if isinstance(w, P) else w
        if t is None:
            return False
        for m in cx.motions(s):
            if m.kind == 'dist' and erase(t) == m.t:
                return (m.a, m.b) == (a, b) or sym and (m.b, m.a) == (a, b)
        if t == ('m', (root, cx.nn['distance'])):
            return sym or dirs is not None and dirs == (b == self.me)
        return None


# ---------------------------------------------------------------- adding one state
class AddNode(Base):
    ROLES = {0: 'state', 1: 'direction', 2: 'roadmap', 3: 'knn', 4: 'dist', 5: 'check', 9: 'symmetric', 10: 'duplicates'}
    me = ('new',)

    def check(self):
        c, f = self.c, self.f
        cx = Ctx(f, self.outer, self.ROLES, self.lay, self.nn, self.to_new)
        if not cx.ss:
            return c.unsure('checked', self.name, f'{f.where()}: too many paths')
        if len(cx.knn) != 1:
            return c.unsure('checked', self.name, f'{f.where()}: not one neighbour query')
        (K, (v, q)), = cx.knn.items()
        T = cx.T
        args = [v.loc(x) if f.is_ptr(x) else v.val(x) for x in q.ops[1:]]
        qdir = [T(x) for x in args if isinstance(x, P)]
        asked = [cx.role(T(x)) for x in args if not isinstance(x, P)]
        c.ob('weight', 'state' in asked, f'{self.name}|query', f'{q.where()}: the neighbours are not those of the new state')
        D = atom(('O', 1))
        c.ob('weight', D in qdir, f'{self.name}|query direction', f'{q.where()}: the query is not made in the direction asked for')
        self.nodes(cx, K)
        # edges
        events = {}
        for s in cx.ss:
            lits = cx.lits(s)
            for i in s.v.on_path(('call', 'invoke')):
                if not re.search(r'::AddEdge\w*$', i.callee or ''):
                    continue
                a, b, w = (A(s.v, i, k) for k in (1, 2, 3))
                a, b = (unfz(T(fz(x))) if isinstance(x, P) else None for x in (a, b))
                pa, pb = (self.isnew(x) for x in (a, b))
                root = cx.neighbor(b if pa else a)
                if pa == pb or root is None or cx.container(root) != K:
                    c.ob('checked', False, f'{self.name}|ends', f'{i.where()}: the edge does not run between the new node and one of its neighbours')
                    continue
                both = 'AddEdgesBetweenNodes' in i.callee
                place = self.place(T(w))
                events.setdefault((root, s.start), []).append((s, i, 'out' if pa else 'in', both, place, T(w), lits))
        if not events:
            return c.ob('kept', False, f'{self.name}|edges', f'{f.where()}: no edge is added')
        bodies = self.bodies(self.ROLES)
        for (root, start), ev in events.items():
            it = cx.loops.iters.get(start)
            c.ob('kept', it is not None and T(it.K) == K and not misses_any(cx, it), f'{self.name}|all neighbours',
                 f'{f.where()}: not every neighbour is connected', readable=it is not None or start in cx.loops.off)
            comp = {}
            for s, i, way, both, place, w, lits in ev:
                for d in (('in', 'out') if both else (way,)):
                    if place is None or place[0][0] != 'elem' or it is None or place[0][2] != self.counter(cx, it):
                        c.unsure('weight', f'{self.name}|{d}', f'{i.where()}: the weight is not read from per-neighbour storage')
                        continue
                    comp.setdefault(d, set()).add((place[0][1], place[1]))
                    ok = excluded(lits, w, -1)
                    c.ob('checked', ok, f'{self.name}|{d} guard', f'{i.where()}: an edge rejected by the check is stored')
            # a path of the loop that does not store direction d
            for s in cx.loops.inner(start):
                if s.start != start or s.stop != ('loop', start):
                    continue
                lits = cx.lits(s)
                for d in ('in', 'out'):
                    here = [e for e in ev if e[0] is s and (e[2] == d or e[3])]
                    w = [e for e in ev if e[2] == d or e[3]]
                    if not here and w:
                        ok = excluded(lits, w[0][5], 0) and excluded(lits, w[0][5], 1)
                        c.ob('kept', ok, f'{self.name}|{d} kept', f'{f.where()}: an edge with an accepted check and non-negative distance is not stored')
                    if len(here) > 1:
                        c.ob('kept', False, f'{self.name}|{d} twice', f'{f.where()}: an edge is stored twice')
            for d in ('in', 'out'):
                c.ob('kept', d in comp, f'{self.name}|{d}', f'{f.where()}: no edge {"from" if d == "in" else "to"} the neighbour is ever stored',
                     readable=any(x in comp for x in ('in', 'out')))
            for d, ps in comp.items():
                for V_, off in ps:
                    self.filled(cx, bodies, K, V_, off, d)

    def counter(self, cx, it):
        return cx.T(it.cur) if it.kind == 'index' else None

    def isnew(self, x):
        a = atom1(x) if x is not None else None
        return bool(a and a[0] in ('callv', 'call') and callname(a) == 'AddNode')

    def place(self, w):
        a = atom1(w) if isinstance(w, P) else w
        if isinstance(a, tuple) and a:
            if a[0] == 'm':
                return a[1]
            if a[0] == 'out' and isinstance(a[3], tuple):
                return a[3]
        return None

    def filled(self, cx, bodies, K, store, off, d):
        """the body leaves the right distance, or a negative value, in component off of every element of store"""
        c = self.c
        done = False
        for b, bx, call, v in bodies:
            if not any(True for s in bx.ss for i in s.v.on_path(('store',)) if self.slot(bx, s, i, store) is not None):
                continue
            done = True
            lo, hi = A(v, call, 1), A(v, call, 2)
            n = atom1(hi) if isinstance(hi, P) else None
            ok = isinstance(lo, P) and lo == P(0) and n is not None and callname(n) == 'size'
            c.ob('kept', ok, f'{self.name}|range', f'{call.where()}: the loop does not cover every neighbour')
            for s in bx.ss:
                if s.stop != ('ret',):
                    continue
                lits = bx.lits(s)
                sts = [i for i in s.v.on_path(('store',)) if self.slot(bx, s, i, store) == off]
                if not sts:
                    c.ob('checked', False, f'{self.name}|{d} unset', f'{b.where()}: the entry of a neighbour stays at zero on some path: an unchecked edge of weight 0')
                    continue
                val = bx.T(s.v.val(sts[-1].ops[0]))
                root = ('elem', K, fz(atom(('own', 2))))
                node = ('node', fz(atom(('m', (root, self.nn['index'])))))
                a, b2 = (node, self.me) if d == 'in' else (self.me, node)
                sym = bx.flag(lits, 'symmetric')
                acc = bx.accepted(s, lits, a, b2) or sym and bx.accepted(s, lits, b2, a)
                rej = bx.accepted(s, lits, a, b2, False) or sym and bx.accepted(s, lits, b2, a, False)
                k = val.const() if isinstance(val, P) else None
                if k is not None:
                    c.ob('checked', k < 0, f'{self.name}|{d} constant', f'{sts[-1].where()}: stores the constant {k} as distance')
                    c.ob('kept', rej and not acc, f'{self.name}|{d} rejected', f'{sts[-1].where()}: marks an edge as rejected that the check did not reject')
                    continue
                dirs = bx.direction(lits, atom(('O', 1)))
                c.ob('checked', acc, f'{self.name}|{d}', f'{sts[-1].where()}: the edge {"from the neighbour to the new node" if d == "in" else "from the new node to the neighbour"} '
                     'is stored although the check did not accept it in that direction')
                ok = self.weight_ok(bx, s, lits, val, a, b2, root, sym, dirs)
                c.ob('weight', bool(ok), f'{self.name}|{d}', f'{sts[-1].where()}: the weight is not the distance in the direction of the edge', readable=ok is not None)
        if not done:
            c.unsure('weight', f'{self.name}|{d} storage', f'{self.f.where()}: what fills the per-neighbour storage was not found')

    def slot(self, bx, s, i, store):
        l = bx.T(s.v.loc(i.ops[1]))
        if l and l[0][0] == 'elem' and l[0][1] == store and l[0][2] == fz(atom(('own', 2))):
            return l[1]
        return None

    def nodes(self, cx, K):
        """duplicates: refused exactly when unwanted and a neighbour has distance zero"""
        c, f = self.c, self.f
        add = lambda s: [i for i in s.v.on_path(('call', 'invoke')) if re.search(r'::AddNode$', i.callee or '')]
        for s in cx.ss:
            lits = cx.lits(s)
            for i in add(s):
                ok = cx.node(s, s.v.loc(i.ops[1])) == ('new',)
                c.ob('node', ok, f'{self.name}|value', f'{i.where()}: the node added is not the given state')
                if cx.flag(lits, 'duplicates', True):
                    continue
                it = cx.loops.iters.get(s.start)
                ok = it is not None and cx.T(it.K) == K and not early(cx, it, s)
                c.ob('node', ok, f'{self.name}|duplicates', f'{i.where()}: a state is added although duplicates are unwanted and not every neighbour was compared',
                     readable=it is not None)
            if s.stop == ('ret',) and s.start in cx.loops.iters and not add(s):
                r = cx.T(s.ret()) if isinstance(s.ret(), P) else None
                root = cx.neighbor(r) if r is not None else None
                if root is not None:
                    z = ('foeq', fz(atom(('m', (root, self.nn['distance'])))))
                    z2 = ('foeq', fz(P(0) - atom(('m', (root, self.nn['distance'])))))
                    ok = (z in lits or z2 in lits) and (cx.flag(lits, 'duplicates', False) or dupfree(cx, s.start))
                    c.ob('node', ok, f'{self.name}|duplicate found', f'{f.where()}: a neighbour is handed out for a state that does not coincide with it')
        # an item of the comparison loop is passed over only when its distance is not zero
        for h, it in cx.loops.iters.items():
            if cx.T(it.K) != K:
                continue
            inner = [s for s in cx.ss if s.start == h]
            if not any(add(s) for s in inner):
                continue
            for s in inner:
                if s.stop == ('loop', h):
                    lits = cx.lits(s)
                    d = atom(('m', (cx.T(it.place(0))[0], self.nn['distance'])))
                    ok = excluded(lits, d, 0)
                    c.ob('node', ok, f'{self.name}|passed over', f'{f.where()}: a neighbour at distance zero is passed over')


def dupfree(cx, h):
    """every way into loop h has established that duplicates are unwanted"""
    en = [s for s in cx.ss if s.stop == ('loop', h) and s.start != h]
    return bool(en) and all(cx.flag(cx.lits(s), 'duplicates', False) for s in en)


def early(cx, it, s):
    """segment s leaves the loop before its end"""
    return not cx.loops.over(s, it)


def misses_any(cx, it):
    return bool(cx.loops.early(it))


def excluded(lits, w, k):
    """some literal is false when the float w has value k"""
    a = w if isinstance(w, P) else atom(w)
    a = atom1(a)
    for x in lits:
        if x[0] == 'any' and all(excluded([y], w, k) for y in x[1]):
            return True
        if x[0][0] != 'f' or x[0] == 'false' or x[1][0] != 'P':
            continue
        c = subst(unfz(x[1]), {a: P(k)}).const()
        if c is None:
            continue
        op = x[0][2:]
        t = {'eq': c == 0, 'ne': c != 0, 'gt': c > 0, 'ge': c >= 0, 'lt': c < 0, 'le': c <= 0}.get(op)
        if t is False:
            return True
    return False


# ---------------------------------------------------------------- building a whole roadmap
class Build(Base):
    ROLES = {0: 'roadmap', 2: 'sample', 3: 'knn', 4: 'dist', 5: 'valid', 6: 'check', 11: 'symmetric', 12: 'duplicates'}
    me = ('node', fz(atom(('own', 2))))

    def check(self):
        c, f = self.c, self.f
        self.predicates = {}
        n = 0
        for b, bx, call, v in self.bodies(self.ROLES):
            if not bx.ss:
                c.unsure('checked', f'{self.name}|body', f'{b.where()}: too many paths')
                continue
            if any(edge_pushes(s, self.lay) for s in bx.ss) or bx.knn:
                n += 1
                self.connect(b, bx, call, v)
        c.ob('kept', n > 0, f'{self.name}|connection', f'{f.where()}: no loop connects the nodes', readable=False)
        self.mirror()
        self.samples()

    def connect(self, b, bx, call, v):
        c = self.c
        lo, hi = A(v, call, 1), A(v, call, 2)
        n = atom1(hi) if isinstance(hi, P) else None
        c.ob('kept', lo == P(0) and n is not None and callname(n) == 'size' or hi == atom(('arg', 1)), f'{self.name}|range',
             f'{call.where()}: the loop does not cover every node')
        if len(bx.knn) != 1:
            return c.unsure('checked', self.name, f'{b.where()}: not one neighbour query')
        (K, (bv, q)), = bx.knn.items()
        s0 = next((s for s in bx.ss if q in list(s.v.on_path(('call', 'invoke')))), None)
        args = [s0.v.loc(x) if b.is_ptr(x) else A(s0.v, q, k + 1) for k, x in enumerate(q.ops[1:])]
        about = [bx.node(s0, x) for x in args if not isinstance(x, P)]
        c.ob('weight', self.me in about, f'{self.name}|query', f'{q.where()}: the neighbours are not those of the node')
        consts = [x.const() for x in args if isinstance(x, P)]
        qd = consts[1] if len(consts) > 1 else None
        if qd is None:
            return c.unsure('weight', f'{self.name}|query direction', f'{q.where()}: the direction of the query is not a constant')
        dirs = qd == self.to_new
        its = [it for it in bx.loops.iters.values() if bx.T(it.K) == K]
        if len(its) != 1:
            return c.unsure('kept', f'{self.name}|neighbours', f'{b.where()}: the loop over the neighbours is not recognised')
        it = its[0]
        c.ob('kept', not misses_any(bx, it), f'{self.name}|all neighbours', f'{b.where()}: the loop over the neighbours can end early')
        root = bx.T(it.place(0))[0]
        other = ('node', fz(atom(('m', (root, self.nn['index'])))))
        oi = unfz(other[1])
        mi = atom(('own', 2))
        for s in bx.ss:
            lits = bx.lits(s)
            ps = edge_pushes(s, self.lay)
            if ps and s.start != it.h:
                c.ob('checked', False, f'{self.name}|outside', f'{ps[0].i.where()}: an edge is stored outside the loop over the neighbours')
                continue
            if s.start != it.h or s.stop != ('loop', it.h):
                continue
            sym = bx.flag(lits, 'symmetric')
            got = {}
            for p in ps:
                k = node_index(b, s, p.node) if p.node else None
                if p.words is None or p.side is None or k is None:
                    c.unsure('checked', f'{self.name}|push', f'{p.i.where()}: list not recognised')
                    continue
                k = bx.T(k)
                frm, to, w = (bx.T(x) for x in p.words[:3])
                d = 'in' if (frm, to) == (oi, mi) else 'out' if (frm, to) == (mi, oi) else None
                c.ob('checked', d is not None and k == mi and (p.side == 'InEdges') == (d == 'in'), f'{self.name}|{p.side}',
                     f'{p.i.where()}: edge {frm} -> {to} in the {p.side} list of node {k}')
                if d is None:
                    continue
                got.setdefault(d, []).append(p)
                a, z = (other, self.me) if d == 'in' else (self.me, other)
                acc = bx.accepted(s, lits, a, z) or sym and bx.accepted(s, lits, z, a)
                c.ob('checked', acc, f'{self.name}|{d}', f'{p.i.where()}: an edge is stored although the check did not accept it in that direction')
                ok = self.weight_ok(bx, s, lits, w, a, z, root, sym, dirs)
                c.ob('weight', bool(ok), f'{self.name}|{d}', f'{p.i.where()}: the weight is not the distance in the direction of the edge', readable=ok is not None)
                c.ob('self', ('ne', fz(oi - mi)) in lits or ('ne', fz(mi - oi)) in lits, f'{self.name}|self', f'{p.i.where()}: a node can be connected to itself')
            selfp = ('eq', fz(oi - mi)) in lits or ('eq', fz(mi - oi)) in lits
            for d in ('in', 'out'):
                a, z = (other, self.me) if d == 'in' else (self.me, other)
                if len(got.get(d, [])) > 1:
                    c.ob('kept', False, f'{self.name}|{d} twice', f'{b.where()}: an edge is stored twice')
                if got.get(d) or selfp:
                    continue
                rej = bx.accepted(s, lits, a, z, False) or bx.accepted(s, lits, z, a, False) and sym
                c.ob('kept', rej, f'{self.name}|{d} kept', f'{b.where()}: a path stores no edge although the check did not reject it')

    # ---- completion step
    def mirror(self):
        c, f = self.c, self.f
        cx = Ctx(f, self.outer, self.ROLES, self.lay, self.nn, self.to_new)
        L = self.lay
        todo = []
        for it in cx.loops.iters.values():
            r, off = it.K
            if r[0] != 'deref' or off not in (L.node['InEdges'], L.node['OutEdges']):
                continue
            k = node_index(f, cx.ss[0], r)
            if k is None or not any(o.kind == 'index' and it.h in o.body and o.h != it.h and unfz(cx.T(o.cur)) == cx.T(k) for o in [*cx.loops.iters.values(), *cx.loops.off.values()]):
                continue
            todo.append((it, 'in' if off == L.node['InEdges'] else 'out', cx.T(k)))
        ways = {w for _, w, _ in todo}
        c.ob('mirrored', ways == {'in', 'out'}, f'{self.name}|both lists', f'{f.where()}: not both edge lists of each node are completed', readable=bool(todo))
        for it, way, k in todo:
            outer = [o for o in cx.loops.iters.values() if o.kind == 'index' and it.h in o.body and o.h != it.h]
            full = [o for o in outer if unfz(cx.T(o.cur)) == k]
            part = [o for o in cx.loops.off.values() if it.h in o.body and unfz(cx.T(o.cur)) == k]
            c.ob('mirrored', bool(full) and not misses_any(cx, it) and not any(misses_any(cx, o) for o in full), f'{self.name}|{way} all',
                 f'{f.where()}: not every edge of every node is completed', readable=bool(outer) or bool(part))
            root = cx.T(it.place(0))
            e = {n: atom(('m', (root[0], root[1] + self.lay.edge[n]))) for n in ('FromIndex', 'ToIndex', 'Weight')}
            far = e['FromIndex'] if way == 'in' else e['ToIndex']
            frm, to = (far, k) if way == 'in' else (k, far)
            side = 'OutEdges' if way == 'in' else 'InEdges'
            fld = 'ToIndex' if side == 'OutEdges' else 'FromIndex'
            inner = {}
            for h, pit in cx.loops.iters.items():
                if h in it.body and h != it.h:
                    pk = node_index(f, cx.ss[0], pit.K[0])
                    x = cx.T(pit.place(0))
                    d = atom(('m', (x[0], x[1] + self.lay.edge[fld]))) - k
                    hit = (('eq', fz(d)), ('eq', fz(P(0) - d)))
                    ok = pk is not None and cx.T(pk) == far and pit.K[1] == self.lay.node[side]
                    c.ob('mirrored', ok, f'{self.name}|{way} list', f'{f.where()}: the search for the counterpart of an edge does not run over the far node\'s {side}')
                    inner[h] = (pit, hit)
            for s in cx.ss:
                if s.start not in it.body or s.start != it.h and s.start not in inner:
                    continue
                ps = edge_pushes(s, self.lay)
                for p in ps:
                    pk = node_index(f, s, p.node) if p.node else None
                    if p.words is None or pk is None:
                        c.unsure('mirrored', f'{self.name}|{way} push', f'{p.i.where()}: list not recognised')
                        continue
                    w = [cx.T(x) for x in p.words[:3]]
                    ok = cx.T(pk) == far and p.side == side and w[2] == e['Weight'] and \
                        w[0] in (frm, e['FromIndex']) and w[1] in (to, e['ToIndex'])
                    c.ob('mirrored', ok, f'{self.name}|{way} counterpart', f'{p.i.where()}: the edge added is not the counterpart of the one found')
                if s.start == it.h:
                    if s.stop == ('loop', it.h):
                        self.asked(cx, s, ps, way, far, k, side)
                    elif ps:
                        c.ob('mirrored', False, f'{self.name}|{way} early', f'{ps[0].i.where()}: a counterpart is added before the search for it')
                    continue
                pit, hit = inner[s.start]
                lits = cx.lits(s)
                found = any(x in lits for x in hit)
                none = any(negate(x) in lits for x in hit)
                fl = flags(f, cx.ss, pit, hit)
                said = next((x for x in (truth(s.lits, y) for y in fl) if x is not None), None)
                if s.stop == ('loop', pit.h):
                    c.ob('mirrored', (none or found and fl) and not ps, f'{self.name}|{way} search', f'{f.where()}: the search passes over a counterpart')
                elif s.stop == ('loop', it.h):
                    if said is not None:
                        found = said
                    ok = cx.loops.over(s, pit) and not found and (said is False or not fl) if ps else found
                    c.ob('mirrored', ok, f'{self.name}|{way} when', f'{f.where()}: a counterpart is {"added although one may be present" if ps else "not added although missing"}')
                else:
                    c.unsure('mirrored', f'{self.name}|{way} exit', f'{f.where()}: the search leaves in an unknown way')

    def asked(self, cx, s, ps, way, far, k, side):
        """the predicate on the far node's list decides"""
        c, f = self.c, self.f
        lits = cx.lits(s)
        calls = [i for i in s.v.on_path(('call', 'invoke')) if "'lambda" in (i.callee or '').split('::operator()')[0][-40:] and (i.callee or '').endswith('operator()')]
        preds = []
        for i in calls:
            t = fz(atom(erase(atom1(s.v.val(('i', i.id))))))
            for x in lits:
                if x[0] == 'bool' and x[1] == unf(cx.T(unfz(t))):
                    preds.append((i, x[2]))
        if len(preds) != 1:
            c.unsure('mirrored', f'{self.name}|{way} test', f'{f.where()}: the test for the counterpart is not recognised')
            return
        i, pol = preds[0]
        c.ob('mirrored', pol == (not ps), f'{self.name}|{way} when', f'{i.where()}: the counterpart is {"added although present" if ps else "not added although missing"}')
        nodes = [node_index(f, s, s.v.loc(o)[0]) for o in i.ops if f.is_ptr(o) and s.v.loc(o)]
        nodes = [cx.T(x) for x in nodes if x is not None]
        nums = [cx.T(A(s.v, i, j)) for j in range(len(i.ops)) if not f.is_ptr(i.ops[j])]
        c.ob('mirrored', nodes == [far] and nums == [k], f'{self.name}|{way} asks', f'{i.where()}: the test is not about the far node and this node')
        r = self.predicate(i.callee)
        want = (side, 'ToIndex' if side == 'OutEdges' else 'FromIndex')
        c.ob('mirrored', r == want, f'{self.name}|{way} list', f'{i.where()}: the test searches {r}, not the far node\'s {want}', readable=r is not None)

    def predicate(self, callee):
        """(list, field) a lambda (node, index) searches: true exactly when an edge of the list has that field equal to index"""
        if callee in self.predicates:
            return self.predicates[callee]
        b = next((g for g in self.m.fns if g.qual == callee), None)
        r = None
        if b is not None:
            self.c.saw(b)
            ss = segments(b) or []
            lp = Loops(b, ss)
            for it in lp.iters.values():
                for n, off in self.lay.node.items():
                    if it.K == (('arg', 1), off):
                        for fld in ('FromIndex', 'ToIndex'):
                            x = it.mem(self.lay.edge[fld])
                            a = atom(('arg', 2))
                            hit = (('eq', fz(x - a)), ('eq', fz(a - x)))
                            fl = flags(b, ss, it, hit)
                            if all(self.pred_ok(s, lp, it, hit, fl) for s in ss if s.start == it.h) and \
                                    all(s.start == it.h or s.stop == ('loop', it.h) for s in ss):
                                r = (n, fld)
        self.predicates[callee] = r
        return r

    def pred_ok(self, s, lp, it, hit, fl):
        lits = [erase(x) for x in s.lits]
        found = any(h in lits for h in hit)
        none = any(negate(h) in lits for h in hit)
        if s.stop[0] == 'loop':
            return none and not found or found and bool(fl)
        t = s.ret()
        if fl:
            return lp.over(s, it) and isinstance(t, P) and t in [atom(y) for y in fl] + [atom(('trunc', 'i1', fz(atom(y)))) for y in fl]
        val = t.const() if isinstance(t, P) else None
        if val is None:
            a = atom1(t) if isinstance(t, P) else None
            if a and a[0] == 'sel':
                cnd = erase(a[1])
                if cnd[0] == 'cond' and cnd[1] in hit and isinstance(a[2], tuple) and unfz(a[2]).const() not in (None, 0):
                    return found
            return False
        return found if val & 1 else lp.over(s, it)

    # ---- nodes
    def samples(self):
        c, f, m = self.c, self.f, self.m
        cx = Ctx(f, self.outer, self.ROLES, self.lay, self.nn, self.to_new)
        for s in cx.ss:
            for i in s.v.on_path(('call', 'invoke')):
                if re.search(r'::AddNode$', i.callee or ''):
                    l = cx.T(s.v.loc(i.ops[1]))
                    it = cx.loops.iters.get(s.start)
                    ok = it is not None and cx.T(it.place(0))[0] == l[0]
                    c.ob('node', ok, f'{self.name}|item', f'{i.where()}: the node added is not one of the samples', readable=it is not None)
                    if it is not None:
                        self.store = cx.T(it.K)
        # functions that produce samples: a returned sample was accepted
        n = 0
        for g in m.fns:
            if 'BuildRoadMap<' not in g.qual or 'parallelism::' in g.qual.split('BuildRoadMap<')[0] or not g.qual.endswith('operator()'):
                continue
            if not any(i.op in ('call', 'invoke') and re.search(r'^std::function<State \(int\)>::operator\(\)$', i.callee or '') for i in g.insts()):
                continue
            n += 1
            c.saw(g)
            Samples(segments(g) or []).check(c, self.name)
        if not n:
            c.unsure('node', f'{self.name}|sampler', f'{f.where()}: no function takes the samples')


class Samples:
    """copies of sampled states within one function"""
    def __init__(self, ss):
        self.ss, self.by = ss, {}
        for s in ss:
            cs = [i for i in s.v.on_path(('call', 'invoke'))]
            self.by[id(s)] = (
                [i for i in cs if CALLBACK.search(i.callee or '') and re.search('<State ', i.callee)],
                [i for i in cs if re.search(r'^std::function<bool \(', i.callee or '')],
                [(i, s.v.loc(i.ops[0]), s.v.loc(i.ops[-1])) for i in cs if re.search(r'^State::(State|operator=)$', i.callee or '') and len(i.ops) == 2])

    def accepted(self, s, src, seen=()):
        """True/False: the state at src in segment s is a sample the check accepted; None: not a sample, or not known"""
        made, val, copies = self.by[id(s)]
        for j in made:
            if s.v.loc(j.ops[0]) == src:
                return any(s.v.loc(k.ops[-1]) == src and ('bool', fz(s.v.val(('i', k.id))), True) in s.lits for k in val)
        here = [y for _, x, y in copies if x == src and y != src]
        if here:
            return self.accepted(s, here[-1], seen)
        if src in seen or src is None:
            return None
        rs = [self.accepted(t, y, seen + (src,)) for t in self.ss for _, x, y in self.by[id(t)][2] if x == src]
        return None if not rs or None in rs else all(rs)

    def check(self, c, name):
        for s in self.ss:
            for i, dst, src in self.by[id(s)][2]:
                if dst is None or dst[0][0] == 'alloca':
                    continue
                ok = self.accepted(s, src)
                c.ob('node', bool(ok), f'{name}|sample accepted', f'{i.where()}: a sample is handed out that the state check did not accept', readable=ok is not None)


def unf(x):
    return fz(x) if isinstance(x, P) else x


# ---------------------------------------------------------------- updating
class Update(Base):
    ROLES = {0: 'roadmap', 1: 'check', 2: 'dist'}

    def check(self):
        c = self.c
        W = self.lay.edge['Weight']
        n = 0
        for b, bx, call, v in self.bodies(self.ROLES):
            lo, hi = A(v, call, 1), A(v, call, 2)
            h = atom1(hi) if isinstance(hi, P) else None
            c.ob('update', lo == P(0) and h is not None and callname(h) == 'size', f'{self.name}|range',
                 f'{call.where()}: the loop does not cover every node')
            me = ('node', fz(atom(('own', 2))))
            for it in bx.loops.iters.values():
                r, off = it.K
                k = node_index(b, bx.ss[0], r)
                if off != self.lay.node['OutEdges'] or k is None or bx.T(k) != atom(('own', 2)):
                    continue
                n += 1
                self.edges(b, bx, it, me, W)
            for s in bx.ss:
                if s.start == 0 and s.stop == ('ret',) and n:
                    empty = any(self.outs(b, bx, s, t) for x in s.lits for t in calls_in(x))
                    c.ob('update', empty, f'{self.name}|passed over', f'{b.where()}: the edges of a node are not updated on some path')
        if not n:
            c.unsure('update', self.name, f'{self.f.where()}: the loop over the edges of a node is not recognised')


    def outs(self, b, bx, s, t):
        """t asks how many out edges the node has"""
        if callname(t) not in ('empty', 'size') or len(t) < 3 or t[2][0] not in ('obj', 'outobj') or not isinstance(t[2][1], tuple):
            return False
        l = t[2][1]
        k = node_index(b, s, l[0]) if len(l) == 2 and isinstance(l[0], tuple) else None
        return k is not None and bx.T(k) == atom(('own', 2)) and l[1] == self.lay.node['OutEdges']

    def edges(self, b, bx, it, me, W):
        """the loop over the out edges of one node"""
        c = self.c
        c.ob('update', not misses_any(bx, it), f'{self.name}|all edges', f'{b.where()}: not every edge of a node is updated')
        root = bx.T(it.place(0))
        far = ('node', fz(atom(('m', (root[0], root[1] + self.lay.edge['ToIndex'])))))
        pits = {}
        for h, p in bx.loops.iters.items():
            if h in it.body and h != it.h:
                k = node_index(b, bx.ss[0], p.K[0])
                if k is not None and p.K[1] == self.lay.node['InEdges'] and ('node', fz(bx.T(k))) == far:
                    pits[h] = p
        own = (root[0], root[1] + W)
        sets = lambda s, l: [i for i in s.v.on_path(('store',)) if bx.T(s.v.loc(i.ops[1])) == l]
        heads = [s for s in bx.ss if s.start == it.h and not bx.loops.over(s, it)]
        for s in heads:
            sts = sets(s, own)
            if not sts and s.stop[0] == 'loop' and s.stop[1] in pits:
                later = [sets(t, own) for t in bx.ss if t.start == s.stop[1] and t.stop == ('loop', it.h)]
                if later and all(later):
                    sts = later[0]
            if not sts:
                weights = any(x[0] in ('foeq', 'fueq', 'feq') and ('m', own) in atoms_in(erase(x)) for x in bx.lits(s))
                c.ob('update', False, f'{self.name}|unset', f'{b.where()}: an edge is passed over without setting its weight', readable=not weights and s.stop != ('throw',) and
                     (s.stop == ('loop', it.h) or s.stop[1] in pits))
                continue
            i = sts[-1]
            self.weighed(b, bx, s, i, me, far)
        copied = False
        for h, p in pits.items():
            item = bx.T(p.place(0))
            copy = (item[0], item[1] + W)
            d = unfz(bx.T(fz(p.mem(self.lay.edge['FromIndex'])))) - unfz(me[1])
            hit = (('eq', fz(d)), ('eq', fz(P(0) - d)))
            for t in bx.ss:
                if t.start != h:
                    continue
                lits = [erase(x) for x in bx.lits(t)]
                found, none = any(x in lits for x in hit), any(negate(x) in lits for x in hit)
                st = sets(t, copy)
                if t.stop != ('loop', h):
                    c.ob('update', t.stop == ('throw',) or bx.loops.over(t, p), f'{self.name}|copies all', f'{b.where()}: the search for copies of an edge stops early')
                    continue
                if not st:
                    c.ob('update', none, f'{self.name}|copy unset', f'{b.where()}: the copy of an edge at its end keeps its weight', readable=found)
                    continue
                copied = True
                c.ob('update', found, f'{self.name}|copy of', f'{st[-1].where()}: the weight goes to an edge that is not the copy of the one updated')
                for s in heads:
                    if s.stop != ('loop', h):
                        continue
                    o = sets(s, own)
                    x = s.v.val(st[-1].ops[0])
                    if o:
                        w = s.v.val(o[-1].ops[0])
                        y = t.v.val(st[-1].ops[0])
                        same = x == w or isinstance(y, P) and erase(bx.T(y)) == erase(atom(('m', own)))
                        c.ob('update', same, f'{self.name}|copy weight', f'{st[-1].where()}: the copy of an edge gets a different weight', readable=same or settled(x))
                    else:
                        self.weighed(b, bx, s, st[-1], me, far)
        if not copied:
            nested = [h for h in b.loops() if h in it.body and h != it.h]
            algo = any(i.op in ('call', 'invoke') and re.search(r'^std::(for_each|find|transform|replace|any_of|all_of)', i.callee or '') for i in b.insts())
            c.ob('update', False, f'{self.name}|copies', f'{b.where()}: the copies of an edge at its end are not updated', readable=not nested and not algo)

    def weighed(self, b, bx, s, i, me, far):
        """store i of a weight, in terms of segment s"""
        c = self.c
        lits = bx.lits(s)
        w = s.v.val(i.ops[0])
        inf = w == ('cf', 'inf') or isinstance(w, P) and atom1(w) == ('cf', 'inf')
        if inf:
            ok = bx.accepted(s, lits, me, far, False)
            c.ob('update', ok, f'{self.name}|infinite', f'{i.where()}: an edge is made infinite although the check did not reject it from its start to its end')
            return
        ok = bx.accepted(s, lits, me, far, True)
        c.ob('update', ok, f'{self.name}|accepted', f'{i.where()}: an edge gets a finite weight although the check did not accept it from its start to its end')
        t = atom1(bx.T(w)) if isinstance(w, P) else None
        ds = [d for d in bx.motions(s) if d.kind == 'dist' and d.t == erase(t)] if t else []
        c.ob('update', any((d.a, d.b) == (me, far) for d in ds), f'{self.name}|distance',
             f'{i.where()}: the weight is not the distance from the start to the end of the edge', readable=bool(ds) or t is None)


def settled(x):
    """the term does not depend on something merged elsewhere"""
    return not any(isinstance(a, tuple) and a and a[0] in ('v', 'phi', 'mphi', 'def') for a in atoms_in(x)) if isinstance(x, P) else x is not None


# ---------------------------------------------------------------- growing
def grow(c):
    m = c.work.load(UNIT, PRM + r'GrowRoadMap<', keep=[r'::AddNodeToRoadmap(<.*>)?$'])
    f = next((f for f in m.fns if re.search(PRM + r"GrowRoadMap<[^']*$", f.qual)), None)
    if f is None:
        raise sa.Broken('GrowRoadMap not found')
    c.saw(f)
    # arguments: sret 0, roadmap 1, sample 2, knn 3, dist 4, valid 5, check 6, terminate 7, K 8, parallelism 9, symmetric 10, duplicates 11
    n = 0
    for s in segments(f) or []:
        cs = [i for i in s.v.on_path(('call', 'invoke')) if CALLBACK.search(i.callee or '')]
        for i in s.v.on_path(('call', 'invoke')):
            if not re.search(r'::AddNodeToRoadmap(<.*>)?$', i.callee or ''):
                continue
            n += 1
            src = s.v.loc(i.ops[0])
            made = [j for j in cs if j.sret and s.v.loc(j.ops[0]) == src and s.v.loc(j.ops[1]) == (('arg', 2), 0)]
            val = [j for j in cs if not j.sret and s.v.loc(j.ops[0]) == (('arg', 5), 0) and s.v.loc(j.ops[-1]) == src]
            ok = any(('bool', fz(s.v.val(('i', j.id))), True) in s.lits for j in val)
            c.ob('node', bool(made), 'GrowRoadMap|sample', f'{i.where()}: the state added is not the sample')
            c.ob('node', ok, 'GrowRoadMap|sample accepted', f'{i.where()}: a state is added that the state check did not accept')
            fl = [A(s.v, i, k) for k in (9, 10)]
            names = [bare(x) for x in fl]
            c.ob('checked', names == [('arg', 10), ('arg', 11)], 'GrowRoadMap|flags', f'{i.where()}: the symmetric / duplicate settings are not handed on')
            fn = [s.v.loc(i.ops[k]) for k in (4, 5)]
            c.ob('checked', fn == [(('arg', 4), 0), (('arg', 6), 0)], 'GrowRoadMap|callbacks', f'{i.where()}: the caller\'s distance and check are not handed on')
    if not n:
        c.unsure('node', 'GrowRoadMap', f'{f.where()}: no call of AddNodeToRoadmap')


def queries(c):
    """the path queries hand their caller's distance, check and settings on to AddNodeToRoadmap"""
    m = c.work.load(UNIT, PRM + r'(Lazy)?QueryPath(AndAddNodes)?<', keep=[r'::AddNodeToRoadmap(<.*>)?$', r'QueryPathAndAddNodes<', r'::Perform\w*AstarSearch'])
    # arguments: sret 0, starts 1, goals 2, roadmap 3, knn 4, dist 5, check 6, K 7, parallelism 8, symmetric 9, duplicates 10
    for f in m.fns:
        x = re.search(PRM + r"(\w+)<[^']*$", f.qual)
        if not x:
            continue
        n, name = 0, x.group(1)
        c.saw(f)
        v = V(f)
        for i in f.insts():
            if i.op not in ('call', 'invoke'):
                continue
            add = re.search(r"^common[^']*::AddNodeToRoadmap(<[^']*>)?$", i.callee or '')
            if not add and not re.search(r"^common[^']*QueryPathAndAddNodes(<[^']*>)?$", i.callee or ''):
                continue
            n += 1
            dist, check, flags = ((4, 5), None, (9, 10)) if add else ((5, 6), None, (9, 10))
            fn = [v.loc(i.ops[k]) for k in dist]
            c.ob('checked', fn == [(('arg', 5), 0), (('arg', 6), 0)], f'{name}|callbacks', f'{i.where()}: the caller\'s distance and check are not handed on')
            fl = [bare(A(v, i, k)) for k in flags]
            c.ob('checked', fl == [('arg', 9), ('arg', 10)], f'{name}|settings', f'{i.where()}: the symmetric / duplicate settings are not handed on',
                 readable=all(y is None or y[0] in ('arg', 'trunc') for y in fl))
        if not n:
            c.unsure('checked', name, f'{f.where()}: no call that adds the states of the query')


def bare(x):
    a = atom1(x) if isinstance(x, P) else None
    while a and a[0] == 'trunc':
        a = atom1(unfz(a[2]))
    return a


# ---------------------------------------------------------------- the provider
def provider(c, lay, to_new):
    m = c.work.load(UNIT, PRM + r'(LinearGraphKNNProvider|GraphKNNProvider)<', keep=[r'simple_knearest_neighbors::GetKNearestNeighbors'])
    for f in m.fns:
        if re.search(r"PerformLinearGraphKNN<[^']*$", f.qual) and 'std::' not in f.qual.split('simple_prm')[0]:
            measure(c, m, f, lay, to_new)
        if re.search(r'::GraphKNNProvider<.*>::GetKNearestNeighbors$', f.qual) and f.qual.split('<')[0].endswith('GraphKNNProvider'):
            sanity(c, f)


def measure(c, m, f, lay, to_new):
    """arguments: sret 0, this 1, roadmap 2, state 3, K 4, direction 5, max 6"""
    c.saw(f)
    view = View(f)
    D = atom(('arg', 5))
    for s in segments(f) or []:
        if s.stop != ('ret',):
            continue
        known = None
        for x in s.lits:
            if x[0] in ('eq', 'ne') and x[1][0] == 'P':
                for g in (1, -1):
                    d = (unfz(x[1]) - D * P(g)).const()
                    if d is not None:
                        known = (-d * g == to_new) == (x[0] == 'eq')
        made = [i for i in s.v.on_path(('call', 'invoke')) if re.search(r"std::function<double \(.*GraphNode.*\)>::(function|operator=)<.*'lambda\d*'", i.callee or '')]
        if not made:
            c.unsure('provider', 'measure', f'{f.where()}: the distance used by the query is not a lambda')
            continue
        i = made[-1]
        x = re.search(r"::(?:function|operator=)<(.*)>$", i.callee).group(1)
        names = re.findall(r"'lambda\d*'\([^()]*\)", x)
        b = next((g for g in m.fns if g.qual.endswith('::operator()') and x.split(', void')[0].endswith(g.qual[:-12])), None)
        clo = [s.v.loc(o) for o in i.ops[1:] if f.is_ptr(o)]
        if b is None:
            b = next((g for g in m.fns if g.qual.endswith('::operator()') and g.qual[:-12] in i.callee and 'Function' not in g.qual[:60]), None)
        if b is None:
            c.unsure('provider', 'measure', f'{i.where()}: the lambda is not found')
            continue
        c.saw(b)
        for p in paths(b) or []:
            k = known
            for x in p.lits:
                if k is None and x[0] in ('eq', 'ne') and x[1][0] == 'P' and len(unfz(x[1]).t) <= 2:
                    cst = unfz(x[1]).t.get((), 0)
                    others = [(t, v) for t, v in unfz(x[1]).t.items() if t]
                    if len(others) == 1 and abs(others[0][1]) == 1:
                        k = (-cst * others[0][1] == to_new) == (x[0] == 'eq')
            cs = [j for j in p.v.on_path(('call', 'invoke')) if CALLBACK.search(j.callee or '')]
            if len(cs) != 1 or k is None:
                c.unsure('provider', 'measure', f'{b.where()}: direction or distance call not recognised')
                continue
            j = cs[0]
            a = ['node' if p.v.loc(o) == (('arg', 1), lay.node['Value']) else 'state' if p.v.loc(o) == (('arg', 2), 0) else '?' for o in j.ops[-2:]]
            want = ['node', 'state'] if k else ['state', 'node']
            c.ob('provider', a == want, f'measure|{"to new" if k else "from new"}', f'{j.where()}: measures {a}, the query asks for {want}')
            r = p.ret()
            c.ob('provider', isinstance(r, P) and r == p.v.val(('i', j.id)), 'measure|result', f'{b.where()}: the distance is altered')


def below(lits, x, bound):
    """x < bound, also through a minimum bound is part of"""
    if proves(lits, bound - x - P(1)):
        return True
    b = atom1(bound)
    for y in lits:
        for t in atoms_in(y):
            if t[:1] == ('smin',) and any(z == fz(bound) or z == b for z in t[1:]) and proves(lits, atom(t) - x - P(1)):
                return True
            if t[:1] == ('sel',) and len(t) == 4 and fz(bound) in t[2:] and minimum(t) and proves(lits, atom(t) - x - P(1)):
                return True
    return False


def minimum(t):
    """select term t is the smaller of its two values"""
    if t[1][0] != 'cond' or t[2][0] != 'P' or t[3][0] != 'P':
        return False
    a, b = unfz(t[2]), unfz(t[3])
    return proves([t[1][1]], b - a) and proves([negate(t[1][1])], a - b)


def sanity(c, f):
    """arguments: sret 0, this 1, roadmap 2, state 3, K 4, direction 5, max 6"""
    c.saw(f)
    ss = segments(f) or []
    lp = Loops(f, ss)
    its = [it for it in lp.iters.values() if it.K == (('arg', 0), 0)]
    if not its:
        return c.unsure('provider', 'range', f'{f.where()}: the results are not looped over')
    for it in its:
        c.ob('provider', not lp.early(it), 'range|all', f'{f.where()}: not every result is checked')
        x = it.mem(0)
        for s in ss:
            if s.start != it.h or s.stop != ('loop', it.h):
                continue
            lits = [erase(y) for y in s.lits]
            hi = below(lits, x, atom(('arg', 6)))
            c.ob('provider', hi, 'range|limit', f'{f.where()}: a result at or above the allowed index passes')
            lo = geq(x, P(0), lits)
            c.ob('provider', lo, 'range|negative', f'{f.where()}: a negative result passes')
            size = any(below(lits, x, atom(t)) for y in lits for t in atoms_in(y) if t[:1] in (('call',), ('callv',), ('m',)) and "('arg', 2)" in str(t))
            c.ob('provider', size, 'range|size', f'{f.where()}: a result beyond the roadmap passes')
