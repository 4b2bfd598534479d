"""C15: random sources depend on their seed and on nothing else."""
import re
from concurrent.futures import ThreadPoolExecutor

from c22 import A, O, PRE
from codec import P, atom
from flow import arriving, atom1
from folds import Body, holds, leaves
from lists import method
from val import fz, unfz

M64 = (1 << 64) - 1
G = 0x9E3779B97F4A7C15
GENERATORS = {'splitmix': 'SplitMix64PRNG', 'xorshift': 'XorShift128PlusPRNG', 'xorstar': 'XorShift1024StarPRNG'}
UNITS = ['bodies.cpp', 'callbacks.cpp', 'copies.cpp', 'graph.cpp', 'grids.cpp', 'path.cpp', 'prm.cpp', 'random.cpp', 'reduce.cpp', 'rrt.cpp', 'search.cpp']
OUTSIDE = re.compile(r'^(rand|srand|random|srandom|rand_r|drand48|erand48|lrand48|mrand48|srand48|getrandom|getentropy|arc4random\w*)$|std::random_device::|std::rand\b')
CLOCK = re.compile(r'(_clock::now|^time|^clock|^gettimeofday|^clock_gettime)$')
ENGINE = re.compile(r'std::(mersenne_twister_engine|linear_congruential_engine|subtract_with_carry_engine|discard_block_engine|shuffle_order_engine|independent_bits_engine)'
                    r'<.*>::(\w+|operator=)(<.*>)?$|simple_prngs::(\w+PRNG)::(\w+)$')


def run(c):
    c.rule('determined', 'everything a generator reads before it writes it is set by seeding and by construction, to values that depend on the seed only')
    c.rule('own', 'drawing reads and writes the generator\'s own state only')
    c.rule('algorithm', 'the next state and the number drawn are those of the published algorithm')
    c.rule('seeding', 'the first state is the one the published seeding gives')
    c.rule('discard', 'discard(n) changes the state n times exactly as drawing does')
    c.rule('range', 'min() and max() are those of 64 bits; a random index is the floor of one draw times the size, refused for empty ranges')
    c.rule('rotation', 'a random quaternion has unit norm and is made of three different draws; angles come from different draws')
    c.rule('source', 'samplers draw from the generator they are handed only, and return its result in the documented order')
    c.rule('entropy', 'nothing in the library draws on a clock, device or generator other than those handed in, or on state shared between calls')
    m = c.work.load('random.cpp', [r'^(splitmix|xorshift|xorstar|index|range|rotation)_\w+(\(|$)', PRE + r'random_rotation_generator::'],
                    keep=[r'Eigen::.*::(x|y|z|w|Quaternion|Matrix)$'])
    for g, name in GENERATORS.items():
        generator(c, m, g, name)
    indices(c, m)
    quaternion(c, m)
    angles(c, m)
    sources(c, m)
    entropy(c)
    c.assume('std distributions, std::function and std::array behave as the standard says; IEEE doubles')
    c.need('obligations:algorithm', 2)


def fn(m, n):
    return next((f for f in m.fns if f.qual.split('(')[0] == n), None)


# ---------------------------------------------------------------- terms over 64 bits
def same(x):
    """one name for the object at a parameter, and for what it holds at the start of a round"""
    if not isinstance(x, tuple):
        return x
    if len(x) == 3 and x[0] == 'mphi':
        return same(('m', x[2]))
    if len(x) == 2 and x[0] == 'arg' and isinstance(x[1], int):
        return ('O', x[1])
    return tuple(same(y) for y in x)


class Odd(Exception):
    pass


def bits(t):
    """canonical form modulo 2^64: a set of (shifted) words that are xored, or a linear form of such"""
    if isinstance(t, tuple) and t and t[0] == 'P':
        t = unfz(t)
    if isinstance(t, P):
        mono = {k: v for k, v in t.t.items() if v}
        if any(not isinstance(v, int) for v in mono.values()):
            raise Odd(f'{t}')
        if not mono:
            return frozenset()
        if len(mono) == 1:
            (k, v), = mono.items()
            v &= M64
            if len(k) == 1 and v and not v & (v - 1):
                return shift(bits(k[0]), v.bit_length() - 1)
            if k == ():
                return frozenset({('const', v)}) if v else frozenset()
        out = []
        for k, v in mono.items():
            out.append((tuple(sorted((bits(a) for a in k), key=repr)), v & M64))
        return frozenset({('lin', tuple(sorted(out, key=repr)))})
    if not isinstance(t, tuple):
        raise Odd(f'{t}')
    if t[0] == 'xor':
        r = frozenset()
        for x in t[1:]:
            r = r ^ bits(x)
        return r
    if t[0] == 'lshr':
        k = unfz(t[2]).const() if isinstance(t[2], tuple) and t[2][0] == 'P' else None
        if not isinstance(k, int):
            raise Odd(f'{t}')
        return shift(bits(t[1]), -k)
    if t[0] == 'rem':
        k = unfz(t[2]).const()
        if isinstance(k, int) and k > 0 and not k & (k - 1):
            return frozenset({('and', bits(t[1]), k - 1)})
    if t[0] == 'and':
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            k = unfz(y).const() if isinstance(y, tuple) and y[0] == 'P' else None
            if isinstance(k, int):
                return frozenset({('and', bits(x), k & M64)})
    if t[0] == 'or':
        return frozenset({('or',) + tuple(sorted((bits(x) for x in t[1:]), key=repr))})
    if t[0] == 'm':
        (r, off) = t[1]
        if r[0] == 'O':
            return frozenset({('state', off)})
        if r[0] in ('idx', 'elem'):
            base, ix = r[1], unfz(r[2])
            if base == ('O', 0):
                base = (base, 0)
            if r[0] == 'idx':
                ix = P({k: v // 8 for k, v in ix.t.items()}) if all(isinstance(v, int) and v % 8 == 0 for v in ix.t.values()) else None
            if ix is None or base[0][0] != 'O':
                raise Odd(f'{t}')
            return frozenset({('state', base[1] + off, bits(ix))})
    if t[0] in ('O', 'phi') and len(t) == 2:
        return frozenset({t})
    raise Odd(f'{t}')


def shift(s, k):
    """xor-linear shift: left for positive k"""
    r = set()
    for x in s:
        if x[0] == 'const':
            v = (x[1] << k) & M64 if k >= 0 else x[1] >> -k
            x = ('const', v) if v else None
        elif x[0] == 'shr' and k < 0:
            x = ('shr', x[1], x[2] - k)
        elif x[0] == 'shl' and k > 0:
            x = ('shl', x[1], x[2] + k)
        elif k:
            x = ('shr', x, -k) if k < 0 else ('shl', x, k)
        if x is not None:
            r ^= {x}
    return frozenset(r)


def P64(x, mul=1, add=0):
    """mul * x + add for a term in canonical form"""
    ks = [((x,), mul & M64)] if mul else []
    if add:
        ks.append(((), add & M64))
    return frozenset({('lin', tuple(sorted(ks, key=repr)))})


def psum(x, y):
    return frozenset({('lin', tuple(sorted([((x,), 1), ((y,), 1)], key=repr)))})


def mixed(s):
    """output of splitmix for state s (a P)"""
    z = bits(fz(s))
    z = P64(z ^ shift(z, -30), 0xBF58476D1CE4E5B9)
    z = P64(z ^ shift(z, -27), 0x94D049BB133111EB)
    return z ^ shift(z, -31)


def published(g):
    """{word: value}, output"""
    w = lambda o, *ix: frozenset({('state', o, *ix)})
    if g == 'splitmix':
        s = atom(('m', (('O', 0), 0))) + P(G)
        return {0: bits(fz(s))}, mixed(s), {}
    if g == 'xorshift':
        s1, s0 = w(0), w(8)
        s1 = s1 ^ shift(s1, 23)
        n = s1 ^ s0 ^ shift(s1, -18) ^ shift(s0, -5)
        return {0: s0, 8: n}, psum(n, s0), {}
    p = w(128)
    q = frozenset({('and', P64(p, 1, 1), 15)})
    s0, s1 = w(0, p), w(0, q)
    s1 = s1 ^ shift(s1, 31)
    n = s1 ^ s0 ^ shift(s1, -11) ^ shift(s0, -30)
    return {128: q, (0, q): n}, P64(n, 1181783497276652981), {}


# ---------------------------------------------------------------- generators
def key_of(l):
    """name of a word of the object: its offset, or (offset, index)"""
    l = same(l)
    r, off = l
    if r == ('O', 0):
        return off
    if r[0] == 'idx' and r[1] == (('O', 0), 0):
        ix = unfz(r[2])
        if all(isinstance(v, int) and v % 8 == 0 for v in ix.t.values()):
            return off, bits(same(fz(P({k: v // 8 for k, v in ix.t.items()}))))
    raise Odd(f'{l}')


def owned(l):
    l = same(l)
    r = l[0]
    while isinstance(r, tuple) and r and r[0] in ('idx', 'elem'):
        r = r[1][0]
    return r


def effects(b, s, h=None):
    """{word: value} written in segment s, canonical; values relative to the start"""
    out = {}
    for i in s.v.on_path(('store',)):
        l = s.v.loc(i.ops[1])
        if l is None:
            raise Odd(i.where())
        r = owned(l)
        if r[0] == 'alloca':
            continue
        if r != ('O', 0):
            raise Odd(f'{i.where()}: writes {r}')
        v = s.v.val(i.ops[0])
        out[key_of(l)] = bits(same(fz(v) if isinstance(v, P) else v))
    return out


def generator(c, m, g, name):
    fs = {n: fn(m, f'{g}_{n}') for n in ('make', 'seed', 'next', 'discard', 'min', 'max', 'size')}
    if any(f is None for f in fs.values()):
        c.unsure('determined', name, 'not found')
        return
    bs = {n: Body(f) for n, f in fs.items()}
    if not all(b.ok for b in bs.values()):
        c.unsure('determined', name, 'too many paths')
        return
    for f in fs.values():
        c.saw(f)
    for n, w in (('min', 0), ('max', M64)):
        for s in bs[n].segs:
            if s.stop == ('ret',):
                v = s.ret()
                k = v.const() if isinstance(v, P) else None
                c.ob('range', k is not None and int(k) & M64 == w, f'{name}|{n}', f'{fs[n].where()}: {n}() is {v}', readable=k is not None)
    size = next((s.ret().const() for s in bs['size'].segs if s.stop == ('ret',) and isinstance(s.ret(), P)), None)
    # drawing
    state = None
    reads = set()
    b = bs['next']
    for s in b.segs:
        for i in s.v.on_path(('call', 'invoke', 'store', 'load')):
            if i.op in ('store', 'load'):
                l = s.v.loc(i.ops[0 if i.op == 'load' else 1])
                r = owned(l) if l else None
                if r is None:
                    c.unsure('own', f'{name}|next', i.where())
                    continue
                c.ob('own', r == ('O', 0) or r[0] == 'alloca', f'{name}|next|{i.op}',
                     f'{i.where()}: drawing {"reads" if i.op == "load" else "writes"} {str(r)[:80]}, which is not the generator\'s own state',
                     readable=r[0] in ('arg', 'O') or r[0] == 'g' and (i.op == 'store' or written(m, r)))
                if i.op == 'load' and r == ('O', 0):
                    reads |= words(l, size)
            elif i.callee and not re.search(r'^(llvm\.|std::(__throw|array))|assert', i.callee) and s.stop != ('throw',):
                c.unsure('own', f'{name}|next|calls', f'{i.where()}: {i.callee}')
        if s.stop != ('ret',):
            if s.stop[0] == 'loop' or s.start:
                c.unsure('algorithm', f'{name}|next', 'loops')
            continue
        try:
            got = effects(b, s)
            v = s.ret()
            out = bits(same(fz(v) if isinstance(v, P) else v))
        except Odd as e:
            c.unsure('algorithm', f'{name}|next', f'{fs["next"].where()}: {str(e)[:120]}')
            continue
        want, res, _ = published(g)
        state = got
        c.ob('algorithm', got == want, f'{name}|state', f'{fs["next"].where()}: the next state is not that of the published algorithm', readable=plain(got))
        c.ob('algorithm', out == res, f'{name}|output', f'{fs["next"].where()}: the number drawn is not that of the published algorithm', readable=plain(got))
        c.sample(f'{name}: {len(got)} words change when drawing')
    if not reads:
        c.unsure('determined', f'{name}|reads', 'nothing is read')
    for n in ('seed', 'make'):
        seeded(c, bs[n], f'{name}|{n}', g, reads, size, bs[n].f)
    discards(c, bs['discard'], name, state)


def written(m, r):
    return any(i.op == 'store' and str(f.ptr(i.ops[1])[0][1:]) == str(tuple(r[1:])) for f in m.fns for i in f.inst.values())


def plain(st):
    return True


def words(l, size):
    """offsets of the object a location may be"""
    r, off = same(l)
    if r == ('O', 0):
        return {off}
    if r[0] in ('idx', 'elem') and r[1] == (('O', 0), 0):
        ix = unfz(r[2])
        a = atom1(ix) if not ix.const() else None
        return {('region', 0)}
    return set()


def seeded(c, b, k, g, reads, size, f):
    """every word drawing reads is set, on every path, from the seed only"""
    done = set()
    vals = {}
    for s in b.segs:
        if s.stop[0] == 'throw':
            continue
        for i in s.v.on_path(('store', 'call', 'invoke')):
            if i.op == 'store':
                l = s.v.loc(i.ops[1])
                if l is None:
                    c.unsure('determined', k, i.where())
                    continue
                r = owned(l)
                if r[0] == 'alloca':
                    continue
                c.ob('own', r == ('O', 0), f'{k}|writes', f'{i.where()}: seeding writes {r}', readable=r[0] in ('g', 'O'))
                put = [z for z in leaves(same(fz(l))) if isinstance(z, tuple) and len(z) == 2 and z[0] == 'm' and isinstance(z[1], tuple) and owned(z[1]) == ('O', 0)
                       and kept(b, s, i, z[1])] if r == ('O', 0) else []
                c.ob('determined', not put, f'{k}|place', f'{i.where()}: where the state is set depends on the state before ({put[:1]})')
                v = s.v.val(i.ops[0])
                if isinstance(v, P):
                    x = same(fz(v))
                    old = [z for z in leaves(x) if isinstance(z, tuple) and len(z) == 2 and z[0] == 'm' and isinstance(z[1], tuple) and owned(z[1]) == ('O', 0)
                           and kept(b, s, i, z[1])]
                    glob = [z for z in leaves(x) if isinstance(z, tuple) and len(z) == 2 and z[0] == 'g']
                    c.ob('determined', not old and not glob, f'{k}|from seed', f'{i.where()}: the state after seeding depends on {(old + glob)[:1]}', readable=True)
    # straight paths: the last value of every word at the end
    heads = set(b.f.loops())
    rets = [s for s in b.segs if s.stop == ('ret',)]
    for w in sorted(reads, key=repr):
        if w == ('region', 0):
            ok, where = region(b, size)
            c.ob('determined', ok is True, f'{k}|array', f'{where}: not all elements of the state array are set', readable=ok is False)
            continue
        ok = all(set_on(b, s, w) for s in rets) if rets else False
        c.ob('determined', ok, f'{k}|word', f'{place(f)}: the word at offset {w}, which drawing depends on, keeps its earlier value', readable=not opaque(b))
    # the first state
    for s in rets:
        if s.start != 0 and g != 'xorstar':
            c.unsure('seeding', k, 'loops')
            continue
        seed = atom(('O', 1))
        want = {'splitmix': {0: bits(fz(seed))}, 'xorshift': {0: mixed(seed + P(G)), 8: mixed(seed + P(2 * G))}}.get(g)
        if want is None:
            continue
        try:
            got = effects(b, s)
        except Odd as e:
            c.unsure('seeding', k, f'{f.where()}: {str(e)[:120]}')
            continue
        c.ob('seeding', got == want, k, f'{f.where()}: the first state is not the one published for a seed')
    if g == 'xorstar':
        at = lambda s: [i for i in s.v.on_path(('store',)) if same(s.v.loc(i.ops[1]) or ((), 0)) == (('O', 0), 128)]
        ends = [s for s in b.segs if s.stop == ('ret',) and at(s)] or [s for s in b.segs if at(s)]
        for s in ends:
            i = at(s)[-1]
            v = s.v.val(i.ops[0])
            c.ob('seeding', v == P(0), f'{k}|position', f'{i.where()}: the first position is {v}', readable=isinstance(v, P) and v.const() is not None)
        for h, w in b.walks.items():
            for s in b.segs:
                if s.stop != ('loop', h):
                    continue
                if s.start != h:
                    continue
                for i in s.v.on_path(('store',)):
                    l = s.v.loc(i.ops[1])
                    if not l or l[0][0] != 'idx' or owned(l) != ('O', 0):
                        continue
                    v = s.v.val(i.ops[0])
                    phis = [x for x in leaves(fz(v) if isinstance(v, P) else v) if len(x) == 2 and x[0] == 'phi' and x != w.a]
                    if len(set(phis)) != 1:
                        c.unsure('seeding', f'{k}|array', i.where())
                        continue
                    p = phis[0]
                    try:
                        c.ob('seeding', bits(fz(v)) == mixed(atom(p) + P(G)), f'{k}|array', f'{i.where()}: the first state is not the one published for a seed')
                        nxt = arriving(b.f, s, p)
                        c.ob('seeding', nxt is not None and bits(fz(nxt)) == bits(fz(atom(p) + P(G))), f'{k}|array step', f'{i.where()}: the seed generator does not advance once per element {nxt}')
                        for e in b.segs:
                            if e.stop == ('loop', h) and e.start != h:
                                c.ob('seeding', same(fz(arriving(b.f, e, p))) == fz(atom(('O', 1))), f'{k}|array seed', f'{i.where()}: the seed generator does not start from the seed')
                    except Odd as e:
                        c.unsure('seeding', f'{k}|array', str(e)[:100])


def place(f):
    """where the library starts in a witness function"""
    return next((i.where() for i in f.inst.values() if '/include/' in i.where()), f.where())


def written_before(b, s, i, l):
    for j in s.v.on_path(('store',)):
        if j is i:
            return False
        if same(s.v.loc(j.ops[1])) == same(l):
            return True
    return False


def kept(b, s, i, l):
    """on some path to instruction i of segment s nothing has set place l"""
    if written_before(b, s, i, l):
        return False
    l = same(l)
    if s.start == 0 or l[0] != ('O', 0):
        return True
    before = [t for t in b.segs if t.stop == ('loop', s.start) and t.start != s.start]
    return not (before and all(set_on(b, t, l[1]) for t in before))


def opaque(b):
    """calls that may write the object"""
    for s in b.segs:
        for i in s.v.on_path(('call', 'invoke')):
            if i.callee and not i.callee.startswith('llvm.') and any(b.f.is_ptr(o) and s.v.loc(o) and owned(s.v.loc(o)) == ('O', 0) for o in i.ops):
                return True
            if i.callee and i.callee.startswith('llvm.mem') and b.f.is_ptr(i.ops[0]) and s.v.loc(i.ops[0]) and owned(s.v.loc(i.ops[0])) == ('O', 0):
                return False
    return False


def sets(s, w):
    for i in s.v.on_path(('store',)):
        l = s.v.loc(i.ops[1])
        if l and same(l) == (('O', 0), w):
            return True
    return False


def set_on(b, s, w, seen=()):
    """w is written on all paths that end with segment s"""
    if sets(s, w):
        return True
    if s.start == 0:
        return False
    before = [t for t in b.segs if t.stop == ('loop', s.start) and t.start != s.start]
    return bool(before) and all(set_on(b, t, w) for t in before if t.start not in seen)


def region(b, size):
    """every element of the array at the start of the object is written by a loop over all of it"""
    n = 16
    why = b.f.where()
    known = False
    for h, w in b.walks.items():
        back = [s for s in b.segs if s.start == h and s.stop == ('loop', h)]
        each = bool(back)
        for s in back:
            hit = False
            for i in s.v.on_path(('store',)):
                l = same(s.v.loc(i.ops[1]) or ((), 0))
                if isinstance(l[0], tuple) and l[0][:1] == ('idx',) and l[0][1] == (('O', 0), 0) and l[1] == 0 and unfz(l[0][2]) == atom(w.a) * P(8):
                    hit = True
                    known = True
            each = each and hit
        if known and w.hi.const() is not None:
            ok = each and w.covers(P(0), P(n))
            return ok, why
    return None, why


def discards(c, b, name, state):
    f = b.f
    if state is None:
        return
    for h in f.loops():
        w = b.walks.get(h)
        back = [s for s in b.segs if s.start == h and s.stop == ('loop', h)]
        if w is None:
            bits32 = narrow(b, h)
            c.ob('discard', False, f'{name}|count', f'{f.where()}: the number of draws is not n', readable=bits32)
            continue
        kn = all(z[0] in ('O',) for mono in w.lo.t for z in mono) and all(z[0] in ('O',) for mono in w.hi.t for z in mono)
        c.ob('discard', w.covers(P(0), atom(('O', 1))), f'{name}|count', f'{f.where()}: draws {w.lo} to {w.hi} times instead of n', readable=kn or 'trunc' in str(w.hi) or 'umin' in str(w.hi) or 'sel' in str(w.hi))
        for s in b.early(w):
            if s.stop[0] != 'throw':
                c.ob('discard', False, f'{name}|early', f'{f.where()}: stops before n numbers are drawn', readable=bool(b.lits(s)))
        for s in back:
            try:
                got = effects(b, s, h)
            except Odd as e:
                c.unsure('discard', f'{name}|step', f'{f.where()}: {str(e)[:120]}')
                continue
            c.ob('discard', got == state, f'{name}|step', f'{f.where()}: a discarded number changes the state in another way than a drawn one')
    outside = [s for s in b.segs if s.start == 0]
    for s in outside:
        try:
            got = effects(b, s)
        except Odd:
            continue
        c.ob('discard', not got, f'{name}|start', f'{f.where()}: the state changes even for n = 0', readable=bool(got))
        if s.stop == ('ret',) and not f.loops():
            c.ob('discard', False, f'{name}|count', f'{f.where()}: nothing is discarded')


def narrow(b, h):
    """the loop counter has fewer bits than the count"""
    for s in b.segs:
        if s.start == h:
            for l in b.lits(s):
                if any(isinstance(x, tuple) and x and x[0] == 'trunc' for x in leaves(l)):
                    return True
    return any(p.op == 'phi' and p.ty in ('i32', 'i16', 'i8') for p in b.f.blocks[h])


# ---------------------------------------------------------------- indices
def indices(c, m):
    for n, lo, cnt in (('index_unsigned', None, A(1)), ('index_signed', None, A(1)), ('range_unsigned', A(1), A(2) - A(1) + P(1)), ('range_signed', A(1), A(2) - A(1) + P(1))):
        f = fn(m, n)
        if f is None:
            c.unsure('range', n, 'not found')
            continue
        b = Body(f)
        c.saw(f)
        if not b.ok:
            c.unsure('range', n, 'too many paths')
            continue
        for s in b.segs:
            if s.stop != ('ret',):
                continue
            draws = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and re.match(r'std::function<double \(\)>::operator\(\)', i.callee)]
            c.ob('range', len(draws) == 1, f'{n}|draws', f'{f.where()}: draws {len(draws)} numbers for one index', readable=len(draws) != 0 or True)
            v = s.ret()
            if len(draws) != 1 or not isinstance(v, P):
                continue
            v = unargs_p(v)
            x = v - (lo if lo is not None else P(0))
            a = atom1(x)
            inner = unfz(a[1]) if a and a[0] == 'int' else None
            fl = atom1(inner) if inner is not None else None
            if fl and fl[0] == 'floor':
                inner = unfz(fl[1])
            ok = False
            pure = False
            if inner is not None:
                xs = [z for mono in inner.t for z in mono]
                calls = {z for z in xs if isinstance(z, tuple) and z[0] == 'callv'}
                pure = all(isinstance(z, tuple) and z[0] in ('callv', 'arg', 'O') for z in xs) and len(calls) == 1
                if len(calls) == 1:
                    ok = unargs_p(inner) == unargs_p(cnt * atom(calls.pop()))
            # another function that rounds
            odd = inner is None and a and a[0] == 'int' or fl and fl[0] in ('round', 'ceil', 'rint', 'nearbyint')
            c.ob('range', ok, f'{n}|value', f'{f.where()}: the index is {str(v)[:120]}, not the floor of one draw times the number of values', readable=pure or bool(fl and fl[0] in ('round', 'ceil', 'rint', 'nearbyint')))
            # refused when empty
            ls = s.lits
            want = cnt - P(1)
            good = holds([unargs(l) for l in ls], [unargs_p(want)])
            if lo is not None and good:
                # differences of unsigned values wrap: only a comparison of the two bounds themselves counts
                good = 'unsigned' not in n or any(i.op == 'icmp' and {fz(unargs_p(x)) for x in map(s.v.val, i.ops[:2]) if isinstance(x, P)} == {fz(unargs_p(A(1))), fz(unargs_p(A(2)))}
                                                  for i in f.inst.values())
            c.ob('range', good, f'{n}|empty', f'{f.where()}: an index of an empty range is not refused', readable=not good and not any(l[0] not in ('ge', 'uge', 'eq', 'ne', 'sge', 'bool') for l in ls) and refusable(b))


def unargs(l):
    return tuple(same(x) for x in l)


def unargs_p(p):
    return unfz(same(fz(p)))


def refusable(b):
    return True


# ---------------------------------------------------------------- rotations
def scalars(b, s, cls, dest=None):
    """values handed to the constructor of a quaternion or vector"""
    for i in s.v.on_path(('call', 'invoke')):
        if i.callee and re.search(cls, i.callee) and len(i.ops) >= 4:
            out = []
            for o in i.ops[1:]:
                l = s.v.loc(o) if b.f.is_ptr(o) else None
                v = s.v.mem(l, 8, i) if l else s.v.val(o)
                out.append(v if isinstance(v, P) else atom(v) if isinstance(v, tuple) else None)
            return i, out
    return None, None


def args_of(b, s, a):
    """argument of a mathematical call atom"""
    if a[0] == 'sqrt' and len(a) == 2:
        return unfz(a[1])
    if a[0] in ('callv', 'call') and a[1] in ('sin', 'cos', 'sqrt', 'acos', 'std::sin', 'std::cos'):
        if a[0] == 'callv':
            i = b.f.inst[a[2]]
            return s.v.n(i.ops[0])
        return unfz(a[2]) if isinstance(a[2], tuple) and a[2][0] == 'P' else None
    return None


def kind_of(a):
    if a[0] == 'sqrt':
        return 'sqrt'
    return a[1].split('::')[-1] if a[0] in ('call', 'callv') and isinstance(a[1], str) else None


def draw(x):
    """the single draw a linear term is made of, with factor and offset"""
    if x is None:
        return None
    ks = [k for k in x.t if k]
    if len(ks) != 1 or len(ks[0]) != 1 or ks[0][0][0] != 'callv' or 'function' not in str(ks[0][0][1]):
        return None
    return ks[0][0], float(x.t[ks[0]]), float(x.t.get((), 0))


def polar(b, s, x):
    """(sin or cos, its argument, the factor it is multiplied with)"""
    if x is None or not x.t:
        return None
    trig = None
    rest = {}
    for k, v in x.t.items():
        ts = [z for z in k if kind_of(z) in ('sin', 'cos')]
        if len(ts) != 1 or trig not in (None, ts[0]):
            return None
        trig = ts[0]
        r = list(k)
        r.remove(trig)
        rest[tuple(r)] = v
    arg = args_of(b, s, trig)
    return None if arg is None else (kind_of(trig), fz(arg), fz(P(rest)))


def squared(b, s, x):
    """x * x, where a square root times itself is its argument"""
    y = P(0)
    for k, v in (x * x).t.items():
        t = P({(): v})
        left = list(k)
        for z in sorted(set(k), key=repr):
            if kind_of(z) == 'sqrt':
                n = left.count(z)
                for _ in range(n // 2):
                    t = t * args_of(b, s, z)
                    left.remove(z)
                    left.remove(z)
        for z in left:
            t = t * atom(z)
        y = y + t
    return y


def quaternion(c, m):
    f = next((g for g in m.fns if re.search(r'RandomRotationGenerator::GenerateUniformRandomQuaternion$', g.qual.split('(')[0])), None)
    if f is None:
        c.unsure('rotation', 'quaternion', 'not found')
        return
    c.saw(f)
    b = Body(f)
    for s in b.segs if b.ok else ():
        if s.stop != ('ret',):
            continue
        i, v = scalars(b, s, r'Eigen::Quaternion<double, 0>::Quaternion$')
        if i is None or len(v) != 4:
            c.unsure('rotation', 'quaternion|made', f.where())
            continue
        parts = [polar(b, s, x) for x in v]
        if None in parts:
            c.unsure('rotation', 'quaternion|shape', f'{i.where()}: {[str(x)[:60] for x in v]}')
            continue
        rs = sorted({p[2] for p in parts}, key=repr)
        ok = len(rs) == 2 and squared(b, s, unfz(rs[0])) + squared(b, s, unfz(rs[1])) == P(1)
        pairs = [sorted(p[:2] for p in parts if p[2] == r) for r in rs]
        ok = ok and all(len(q) == 2 and {x[0] for x in q} == {'sin', 'cos'} and q[0][1] == q[1][1] for q in pairs)
        c.ob('rotation', ok, 'quaternion|unit', f'{i.where()}: the squares of the components do not add up to one')
        if ok:
            fs = [squared(b, s, unfz(r)) for r in rs[:1]] + [unfz(q[0][1]) for q in pairs]
            kn = all(linear(x) for x in fs)
            c.ob('rotation', kn and rank(fs) == 3, 'quaternion|draws', f'{i.where()}: the components do not come from three different draws', readable=kn)
            ds = [draw(x) for x in fs]
            if None not in ds:
                full = all(abs(abs(d[1]) - 6.283185307179586) < 1e-12 for d in ds[1:])
                c.ob('rotation', full and abs(ds[0][1]) == 1, 'quaternion|full', f'{i.where()}: the angles do not cover a full turn')
            elif kn:
                c.unsure('rotation', 'quaternion|full', f'{i.where()}: an angle is a sum of draws')


def linear(x):
    return all(k == () or len(k) == 1 and k[0][0] == 'callv' and 'function' in str(k[0][1]) for k in x.t)


def rank(fs):
    cols = sorted({k for x in fs for k in x.t if k}, key=repr)
    rows = [[float(x.t.get(k, 0)) for k in cols] for x in fs]
    n = 0
    for j in range(len(cols)):
        p = max(range(n, len(rows)), key=lambda r: abs(rows[r][j]), default=None)
        if p is None or abs(rows[p][j]) < 1e-9:
            continue
        rows[n], rows[p] = rows[p], rows[n]
        for r in range(n + 1, len(rows)):
            q = rows[r][j] / rows[n][j]
            rows[r] = [u - q * v for u, v in zip(rows[r], rows[n])]
        n += 1
    return n


def angles(c, m):
    f = next((g for g in m.fns if re.search(r'RandomRotationGenerator::GenerateUniformRandomEulerAngles$', g.qual.split('(')[0])), None)
    if f is None:
        c.unsure('rotation', 'angles', 'not found')
        return
    c.saw(f)
    b = Body(f)
    for s in b.segs if b.ok else ():
        if s.stop != ('ret',):
            continue
        i, v = scalars(b, s, r'Eigen::Matrix<double, 3, 1, 0, 3, 1>::Matrix$')
        if i is None or len(v) != 3:
            c.unsure('rotation', 'angles|made', f.where())
            continue
        r, p, y = v
        dr, dy = draw(r), draw(y)
        for n, d in (('roll', dr), ('yaw', dy)):
            c.ob('rotation', d is not None and abs(abs(d[1]) - 6.283185307179586) < 1e-12, f'angles|{n}', f'{i.where()}: {n} does not cover a full turn', readable=d is not None)
        pd = {x for x in leaves(fz(p)) if len(x) == 3 and x[0] == 'callv' and 'function' in str(x[1])}
        for a in [x for mono in p.t for x in mono if kind_of(x) == 'acos']:
            q = args_of(b, s, a)
            pd |= {x for mono in q.t for x in mono if x[0] == 'callv'} if q is not None else set()
        if dr and dy:
            c.ob('rotation', dr[0] != dy[0] and not pd & {dr[0], dy[0]}, 'angles|draws', f'{i.where()}: two angles come from the same draw')


def sources(c, m):
    """samplers hand the distribution and the caller's generator to the function that makes rotations"""
    for f in m.fns:
        q = f.qual
        if 'random_rotation_generator::RandomRotationGenerator' not in q.split('(')[0]:
            continue
        if q.endswith("operator()") and 'lambda' in q:
            b = Body(f)
            c.saw(f)
            for s in b.segs if b.ok else ():
                if s.stop != ('ret',):
                    continue
                ds = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and not i.callee.startswith('llvm.')]
                own = [i for i in ds if re.search(r'uniform_real_distribution<double>::operator\(\)', i.callee)]
                c.ob('source', len(own) == 1 and len(ds) == 1, f'{short(q)}|draw', f'{f.where()}: one number is not one draw from the distribution', readable=len(own) != 1 and all(i in own for i in ds))
                if len(own) == 1:
                    v = s.ret()
                    a = atom1(v) if isinstance(v, P) else None
                    c.ob('source', bool(a) and a[0] in ('callv', 'call') and 'uniform_real' in str(a[1]), f'{short(q)}|returned', f'{f.where()}: the draw is not returned as it is', readable=isinstance(v, P) and 'uniform_real' in str(v))
                    l = s.v.loc(own[0].ops[1]) if len(own[0].ops) > 1 else None
                    t = owned(l) if l else None
                    c.ob('source', t is not None and t[0] in ('deref',) and 'threadlocal' not in str(t), f'{short(q)}|generator', f'{own[0].where()}: draws from {t}, not from the generator handed in', readable=t is not None and (t[0] in ('alloca', 'g', 'O', 'arg') or 'threadlocal' in str(t)))
        g = re.search(r'::(GetRawQuaternion|GetRawEulerAngles)<', q)
        if g and 'lambda' not in q:
            b = Body(f)
            c.saw(f)
            want = 'xyzw' if 'Quat' in g[1] else 'xyz'
            for s in b.segs if b.ok else ():
                if s.stop != ('ret',):
                    continue
                vs = [i for i in s.v.on_path(('call', 'invoke')) if i.callee and re.match(r'std::vector<double.*>::vector$', i.callee) and len(i.ops) >= 3]
                if len(vs) != 1 or s.v.val(vs[0].ops[2]) != P(len(want)):
                    c.unsure('source', f'{g[1]}|order', f.where())
                    continue
                l = s.v.loc(vs[0].ops[1])
                for k, n in enumerate(want):
                    x = s.v.mem((l[0], l[1] + 8 * k), 8, vs[0]) if l else None
                    t = re.findall(r'Eigen::\w+(?:<[^>]*>)?::([xyzw])\b', str(x))
                    c.ob('source', t[:1] == [n], f'{g[1]}|order', f'{vs[0].where()}: element {k} is {t[:1]}, not {n}', readable=len(t) == 1)
        g = re.search(r'::(GetQuaternion|GetEulerAngles)<', q)
        if g and 'lambda' not in q:
            # what the closure captures: this object and the caller's generator
            b = Body(f)
            for s in b.segs if b.ok else ():
                if s.stop != ('ret',):
                    continue
                caps = {s.v.val(i.ops[0])[1][0] for i in s.v.on_path(('store',)) if isinstance(s.v.val(i.ops[0]), tuple) and s.v.val(i.ops[0])[0] == 'ptr'}
                c.ob('source', ('O', 2) in caps or ('arg', 2) in caps, f'{g[1]}|generator', f'{f.where()}: the generator handed in is not the one drawn from', readable=False)


def short(q):
    g = re.search(r'::(Get\w+)<', q)
    return g[1] if g else q[-40:]


# ---------------------------------------------------------------- entropy
def entropy(c):
    def go(u):
        # nothing is inlined: every function of the library with the calls it makes itself
        return u, c.work.load(u, [r'common_robotics_utilities::'], keep=[r'.'])
    c.work.compile(UNITS[0])
    with ThreadPoolExecutor(4) as ex:
        for u, m in ex.map(go, UNITS):
            glob = {}
            for g in m.globals if isinstance(m.globals, list) else []:
                if isinstance(g, dict):
                    glob[g.get('name')] = g
            for f in m.fns:
                if not f.qual.startswith('common_robotics_utilities::'):
                    continue
                c.saw(f)
                for i in f.inst.values():
                    if i.op in ('call', 'invoke'):
                        n = i.callee or i.cn or ''
                        if OUTSIDE.search(n):
                            c.ob('entropy', False, f'{u}|{f.qual.split("(")[0][-50:]}|outside', f'{i.where()}: calls {n}')
                        if n.startswith('llvm.mem') and (f.ptr(i.ops[0])[0][0] in ('g', 'ge') or shared(f, i.ops[0])):
                            c.ob('entropy', False, f'{f.qual.split("(")[0][-50:]}|shared', f'{i.where()}: writes an object that all calls share')
                        if ENGINE.search(n):
                            r = f.ptr(i.ops[0])[0] if i.ops and i.ops[0] else ('?',)
                            if r[0] in ('g', 'ge') or shared(f, i.ops[0]):
                                c.ob('entropy', False, f'{f.qual.split("(")[0][-50:]}|kept generator', f'{i.where()}: {n.split("::")[-1]} of a generator that all calls share')
                            for o in i.ops[1:]:
                                t = clocked(f, o)
                                if t:
                                    c.ob('entropy', False, f'{f.qual.split("(")[0][-50:]}|clock', f'{i.where()}: a generator is seeded from {t.callee or t.cn}')
                    elif i.op == 'store':
                        b, off, var = f.ptr(i.ops[1])
                        if (b[0] in ('g', 'ge') or shared(f, i.ops[1])) and not re.search(r'guard variable', str(b)):
                            if once(f, i.block):
                                c.unsure('entropy', f'{f.qual.split("(")[0][-50:]}|static', i.where())
                            else:
                                c.ob('entropy', False, f'{f.qual.split("(")[0][-50:]}|shared', f'{i.where()}: writes {str(b[1])[:80]}, which all calls share')
            c.count('functions looked at for outside entropy', len(m.fns))
    c.ob('entropy', True, 'library', '')


def shared(f, o):
    """o is in a thread-local variable"""
    for _ in range(8):
        i = f.inst.get(o[1]) if o and o[0] == 'i' else None
        if i is None:
            return False
        if i.op == 'call' and 'threadlocal.address' in (i.cn or i.callee or ''):
            return True
        if i.op not in ('gep', 'getelementptr', "bitcast"):
            return False
        o = i.ops[0]
    return False


def clocked(f, o, depth=0):
    """the call to a clock that o is computed from, if any"""
    i = f.inst.get(o[1]) if o and o[0] == 'i' else None
    if i is None or depth > 12:
        return None
    n = i.callee or i.cn or ''
    if i.op in ('call', 'invoke'):
        if CLOCK.search(n):
            return i
        if not n.startswith('std::chrono'):
            return None
    if i.op in ('alloca', 'load'):
        a = i if i.op == 'alloca' else f.inst.get(i.ops[0][1]) if i.ops[0][0] == 'i' else None
        if a is None or a.op != 'alloca':
            return None
        for j in f.inst.values():
            if j.op == 'store' and j.ops[1] == ['i', a.id] or j.op == 'store' and tuple(j.ops[1]) == ('i', a.id):
                t = clocked(f, j.ops[0], depth + 1)
                if t:
                    return t
            elif j.op in ('call', 'invoke') and (j.callee or '').startswith('std::chrono') and j.ops and tuple(j.ops[0]) == ('i', a.id) and 'duration' in j.callee:
                for q in j.ops[1:]:
                    t = clocked(f, q, depth + 1)
                    if t:
                        return t
        return None
    for q in i.ops:
        t = clocked(f, q, depth + 1)
        if t:
            return t
    return None


def once(f, block):
    """the block runs only when a function-local static is made"""
    for ref, pol, br in f.facts(block):
        i = f.inst.get(ref[1]) if ref and ref[0] == 'i' else None
        for o in i.ops if i is not None else ():
            j = f.inst.get(o[1]) if o and o[0] == 'i' else None
            if j is not None and (j.cn or j.callee or '') == '__cxa_guard_acquire':
                return True
    return False
