"""C12: shortcuts and resampling keep the ends of a path and replace stretches only by validated connections."""
import re

from codec import P, atom
from flow import arriving, atom1, atoms_in, state_atoms
from lists import Held, calls, entails, loc, method
from loops import callname, calls_in, erase
from paths import segments
from val import fz, unfz

FN = r'^std::function<.*>::operator\(\)$'
STATE = 16


def run(c):
    c.rule('shortcut', 'a shortcut is the start state, states interpolated between start and end, and the end state, and is made only after '
                       'the edge check accepted start to end; or it is the two halves\' shortcuts and original stretches, laid end to end')
    c.rule('marginal', 'when asked to, a resampled shortcut is accepted only if every one of its edges was accepted')
    c.rule('all edges', 'the fraction of valid edges is counted from the first edge, in the path\'s direction, up to the first rejected one')
    c.rule('splice', 'smoothing replaces the path by: its states before the shortcut, the shortcut, its states after it; or keeps it')
    c.rule('indices', 'shortcuts are asked for within the path, and no stretch reaches outside it')
    c.rule('pick', 'a random index is the floor of a number in [0, 1) times the size, and an empty range is refused')
    c.rule('resample', 'resampling keeps the first state and, for every edge, its end state, reached through states interpolated on that edge')
    c.assume('the uniform source returns a number in [0, 1); interpolation with ratio 1 returns the end state')
    c.assume('AttemptShortcut is called with an end index inside the path (ShortcutSmoothPath does, see rule indices)')
    m = c.work.load('path.cpp', [r'::AttemptShortcut<[^(]*$', r'::ShortcutSmoothPath<[^(]*$', r'::ResamplePath<[^(]*$',
                                 r'::ComputePercentCollisionFree<[^(]*$', r'::GetUniformRandomIndex<[^(]*$'],
                    keep=['AttemptShortcut', 'ComputePercentCollisionFree', 'GetUniformRandomIndex', 'math::Interpolate'])
    for f in m.fns:
        name = f.qual.split('<')[0].split('::')[-1]
        h = {'AttemptShortcut': attempt, 'ShortcutSmoothPath': smooth, 'ResamplePath': resample, 'ComputePercentCollisionFree': percent,
             'GetUniformRandomIndex': pick}.get(name)
        if h is None or not re.search(rf'::{name}<[^(]*$', f.qual):
            continue
        c.saw(f)
        ss = segments(f)
        if ss is None:
            c.unsure('shortcut', name, f'{f.where()}: too many paths')
            continue
        h(c, f, ss)
    c.need('obligations:shortcut', 3)
    c.need('obligations:splice', 2)
    c.need('obligations:resample', 1)


# ---------------------------------------------------------------- vocabulary
def fn_calls(s, k):
    """calls of the std::function that is argument k"""
    return [i for i in calls(s, FN) if loc(s, i.ops[1 if i.sret else 0]) == (('arg', k), 0)]


def elem(l):
    """(container, index) of the state at place l"""
    if l is None:
        return None
    r = erase(l[0])
    if r[0] == 'idx':
        byte, b = unfz(r[2]), r[1]
        if b[0][0] != 'elem' or b[1] % STATE or l[1] % STATE:
            return None
        n = unfz(b[0][2]) + P(b[1] // STATE + l[1] // STATE)
        for m, v in byte.t.items():
            q = P(v // STATE)
            for a in m:
                q = q * atom(a)
            n = n + q
        return (b[0][1], n)
    if r[0] == 'elem' and l[1] % STATE == 0:
        return (r[1], unfz(r[2]) + P(l[1] // STATE))
    return None


def arg_elem(s, i, k):
    return elem(s.v.loc(i.ops[k])) if k < len(i.ops) else None


def made_by(s, i, k):
    """call that produced the object operand k of i points at"""
    for x in calls_in(erase(s.v.arg(i, k))):
        if x[0] == 'callv':
            j = s.v.fn.inst.get(x[2])
            if j is not None and re.search(FN, j.callee or ''):
                return j
    l = s.v.loc(i.ops[k])
    for j in calls(s, FN):
        if j.sret and s.v.loc(j.ops[0]) == l:
            return j
    return None


def verdict(lits, i):
    for l in lits:
        if l[0] == 'bool' and any(x[0] == 'callv' and x[2] == i.id for x in calls_in(l)):
            a = atom1(unfz(l[1])) if l[1] and l[1][0] == 'P' else None
            if a and (a[0] == 'callv' and a[2] == i.id or a[0] == 'trunc'):
                return l[2]
    return None


def edge_ok(s, c, f, k, ends, order=None):
    """the edge check (argument k) accepted the motion between the two path states"""
    for i in f.insts():
        if i.op in ('call', 'invoke') and re.search(FN, i.callee or '') and verdict(s.lits, i) is True:
            if erase(s.v.loc(i.ops[0])) != (('arg', k), 0) and loc(s, i.ops[0]) != (('arg', k), 0):
                continue
            got = [elem(s.v.loc(i.ops[b])) for b in (1, 2)]
            if got == ends:
                return True
    return False


def piece_states(s, held):
    """list of pieces with pushed states resolved: ('state', container, index) / ('made', call) / ('range'|'result'|'held', ...)"""
    if held is None:
        return None
    out = []
    for p in held:
        if p[0] != 'one':
            out.append(p)
            continue
        i = p[1]
        e = arg_elem(s, i, 1)
        if e is not None:
            out.append(('state',) + e)
            continue
        j = made_by(s, i, 1)
        out.append(('made', j) if j is not None else ('?', i))
    return out


# ---------------------------------------------------------------- one shortcut
def attempt(c, f, ss):
    w = f.where()
    A, B = atom(('arg', 2)), atom(('arg', 3))
    PATH = (('arg', 1), 0)
    ends = [(PATH, A), (PATH, B)]
    OUT = (('arg', 0), 0)
    heads = {}
    accepted = 0
    for s in ss:
        H = Held(s, STATE, r'::AttemptShortcut<')
        if s.stop[0] == 'loop':
            h = s.stop[1]
            # which containers grow around this loop
            for K, p in H.c.items():
                ps = piece_states(s, p)
                if ps is None or K[0][0] not in ('arg', 'alloca') or K == PATH:
                    continue
                if s.start == h:
                    ok = ps and ps[0] == ('held', K, P(0), ('end', 0)) and all(interpolated(s, x, ends) for x in ps[1:])
                    if ps and ps[0][0] == 'held' and len(ps) > 1:
                        c.ob('shortcut', ok, 'between', f'{w}: a state is inserted that is not interpolated between the ends of the shortcut',
                             all(x[0] in ('made', 'state') for x in ps[1:]))
                elif s.start == 0:
                    heads[(h, K)] = ps
                else:
                    heads.setdefault((h, K), ps)
    for s in ss:
        if s.stop != ('ret',):
            continue
        H = Held(s, STATE, r'::AttemptShortcut<')
        got = piece_states(s, H.get(OUT))
        if got is None:
            c.unsure("shortcut", "result", f"{w}: what is returned was not recognised")
            continue
        full = []
        for p in got:
            if p[0] == 'held' and p[1] != PATH:
                q = heads.get((s.start, p[1]))
                if q is None or p[2] != P(0) or p[3] != ('end', 0):
                    full.append(('?', p))
                else:
                    full += q + [('between',)]
            else:
                full.append(p)
        if not full:
            c.ob('shortcut', True, 'failed')
            continue
        accepted += 1
        if any(p[0] == '?' for p in full):
            c.unsure("shortcut", "result", f"{w}: what is returned was not recognised")
            continue
        direct = [p for p in full if p[0] in ('state', 'made', 'between')]
        if len(direct) == len(full):
            ok = full[0] == ('state', PATH, A) and full[-1] == ('state', PATH, B) and len(full) >= 2
            c.ob('shortcut', ok, 'ends', f'{w}: a shortcut is returned that does not run from the start to the end state')
            mid = [p for p in full[1:-1] if p[0] != 'between']
            c.ob('shortcut', all(interpolated(s, p, ends) for p in mid), 'between',
                 f'{w}: a state is inserted that is not interpolated between the ends of the shortcut')
            c.ob('shortcut', edge_ok(s, c, f, 7, ends), 'validated', f'{w}: a shortcut is returned although the edge check has not accepted start to end')
            few = resampled(full) and not small(s, full)
            c.ob('marginal', not few or marginal(s), 'checked', f'{w}: a resampled shortcut is returned without checking its edges')
            continue
        if direct and any(p[0] == 'made' or p[0] == 'between' for p in full):
            c.ob('shortcut', False, 'mixed', f'{w}: a shortcut is pieced together with interpolated states')
            continue
        tiles(c, f, s, full, PATH, A, B, w)
    c.ob('shortcut', accepted > 0, 'made', f'{w}: no shortcut is ever returned')
    # recursion: within the stretch, with the same functions
    for s in ss:
        for i in calls(s, r'::AttemptShortcut<'):
            for k, j in ((1, 1), (5, 5), (6, 6), (7, 7), (8, 8), (9, 9)):
                x, l = s.v.arg(i, k), loc(s, i.ops[k]) if f.is_ptr(i.ops[k]) else None
                same = l == (('arg', j), 0) if l is not None else erase(unfz(x) if x[0] == 'P' else x) == atom(('arg', j))
                c.ob('shortcut', same, f'passed {k}', f'{i.where()}: argument {k} is not handed on')
            a, b = s.v.n(i.ops[2]), s.v.n(i.ops[3])
            c.ob('indices', entails(s.lits, [a - A, B - b, b - a - P(1)]), 'recursion', f'{i.where()}: a shortcut is attempted over an empty stretch or outside this one ({a} to {b})')


def interpolated(s, p, ends):
    if p[0] != 'made':
        return False
    j = p[1]
    b = 2 if j.sret else 1
    return loc(s, j.ops[b - 1]) == (('arg', 9), 0) and [arg_elem(s, j, b), arg_elem(s, j, b + 1)] == ends


def resampled(full):
    return any(p[0] in ('between', 'made') for p in full)


def two(l):
    """l says that a container has at most two items"""
    return l[0] == 'uge' and l[1][0] == 'P' and 'size' in [callname(x) for x in calls_in(l)] and unfz(l[1]).t.get((), 0) <= 2 and \
        all(v < 0 for k, v in unfz(l[1]).t.items() if k)


def small(s, full):
    return any(two(l) for l in s.lits)


def marginal(s, lits=None):
    for l in s.lits if lits is None else lits:
        if l[0] == 'any' and all(marginal(s, [y]) or two(y) for y in l[1]):
            return True
        if l[0] == 'bool' and l[2] is False and l[1][0] == 'P' and ('arg', 6) in atoms_in(l[1]):
            return True
        xs = [x for x in calls_in(l) if callname(x).startswith('ComputePercentCollisionFree')]
        if xs and l[0] in ('fueq', 'foeq', 'feq', 'eq', 'foge', 'fuge', 'foeq'):
            d = unfz(l[1]) if l[1][0] == 'P' else None
            if d is not None and abs(d.t.get((), 0)) == 1:
                i = s.v.fn.inst.get(xs[0][2]) if xs[0][0] == 'callv' else None
                js = calls(s, r'::ComputePercentCollisionFree<')
                return any(loc(s, j.ops[1]) == (('arg', 7), 0) and loc(s, j.ops[0])[0] == ('arg', 0) or loc(s, j.ops[0])[0][0] == 'alloca' for j in js)
    return False


def tiles(c, f, s, full, PATH, A, B, w, first=None, last=None):
    """the pieces cover the states from A to B, each exactly once"""
    spans = []
    for p in full:
        if p[0] == 'state' and p[1] == PATH:
            spans.append((p[2], p[2]))
        elif p[0] in ('held', 'range') and p[1] == PATH:
            lo, hi = p[2], p[3]
            if isinstance(hi, tuple):
                c.ob('shortcut', False, 'stretch', f'{w}: a stretch of the path runs to its end')
                return
            spans.append((lo, hi - P(1)))
            c.ob('indices', entails(s.lits, [lo - A, B + P(1) - hi, hi - lo]), 'stretch', f'{w}: the stretch from {lo} to {hi} may lie outside the one to be shortened')
        elif p[0] == 'result':
            i = f.inst[p[1]]
            a, b = erase(s.v.n(i.ops[2])), erase(s.v.n(i.ops[3]))
            lo, hi = p[2], p[3]
            ok = isinstance(lo, P) and lo.const() in (0, 1) and isinstance(hi, tuple) and hi[1] in (0, 1)
            if not c.ob('shortcut', ok, 'half', f'{w}: states inside a half\'s shortcut are left out'):
                return
            spans.append((a + lo, b - P(hi[1])))
            c.ob('shortcut', nonempty(s, i), 'half succeeded', f'{w}: a half\'s shortcut is used although it failed')
        else:
            c.ob('shortcut', False, 'pieces', f'{w}: a piece that is neither a half\'s shortcut nor a stretch of the path', p[0] != '?')
            return
    ok = spans[0][0] == A and spans[-1][1] == B and all(x[1] + P(1) == y[0] for x, y in zip(spans, spans[1:]))
    c.ob('shortcut', ok, 'end to end', f'{w}: the pieces {[(str(a), str(b)) for a, b in spans]} do not cover the states from {A} to {B} once each')


def nonempty(s, i):
    """the container that is the result of call i is known not to be empty"""
    for l in s.lits:
        for x in calls_in(l):
            n = callname(x)
            if n in ('size', 'empty') and of_result(s, x, i):
                if n == 'empty' and l[0] == 'bool' and l[2] is False:
                    return True
                if n == 'size' and l[0] in ('uge', 'ge') and unfz(l[1]).t.get((), 0) <= -1 and all(v > 0 for k, v in unfz(l[1]).t.items() if k):
                    return True
                if n == 'size' and l[0] == 'ne':
                    return True
    return False


def of_result(s, x, i):
    for j in calls(s, rf'::{callname(x)}$'):
        if fz(s.v.val(('i', j.id))) == fz(atom(x)) or erase(fz(s.v.val(('i', j.id)))) == erase(fz(atom(x))):
            return loc(s, j.ops[0]) == loc(s, i.ops[0])
    return False


# ---------------------------------------------------------------- fraction of valid edges
def percent(c, f, ss):
    w = f.where()
    PATH = (('arg', 0), 0)
    size = None
    for s in ss:
        for i in calls(s, r'::size$'):
            if loc(s, i.ops[0]) == PATH:
                size = erase(s.v.val(('i', i.id)))
    heads = sorted(f.loops())
    if len(heads) != 1 or size is None:
        c.unsure('all edges', 'loop', f'{w}: {len(heads)} loops')
        return
    h = heads[0]
    phis = [i for i in f.blocks[h] if i.op == 'phi' and i.ty != 'ptr']
    ints = {i.id: atom(('phi', i.id)) for i in phis}
    into = [s for s in ss if s.stop == ('loop', h) and s.start != h]
    back = [s for s in ss if s.stop == ('loop', h) and s.start == h]
    first = {q: {fz(num(s.next(f.inst[q]))) for s in into} for q in ints}
    # on every pass exactly one edge is accepted
    idx = None
    for s in ss:
        if s.start != h:
            continue
        ks = fn_calls(s, 1)
        for i in ks:
            e = [arg_elem(s, i, 1), arg_elem(s, i, 2)]
            if None in e:
                c.unsure('all edges', 'states', f'{i.where()}: the checked states were not recognised')
                return
            c.ob('all edges', e[0][0] == PATH and e[1][0] == PATH and e[1][1] - e[0][1] == P(1), 'direction',
                 f'{i.where()}: checks {e[0][1]} to {e[1][1]}, which is not an edge of the path')
            idx = e[0][1]
    if idx is None:
        c.ob('all edges', False, 'checked', f'{w}: edges are not checked')
        return
    a = [x for x in state_atoms(fz(idx))]
    if len(a) != 1:
        c.unsure('all edges', 'index', f'{w}: edge number {idx}')
        return
    step = lambda s, x: sub(f, s, x)
    for s in into:
        c.ob('all edges', step(s, idx) == P(0), 'first', f'{w}: the first edge checked is number {step(s, idx)}')
    counts = []
    for q, x in ints.items():
        ok = all(step(s, x) == P(0) for s in into) and all(step(s, x) - x == P(1) for s in back)
        if ok:
            counts.append(x)
    for s in back:
        ks = fn_calls(s, 1)
        c.ob('all edges', len(ks) == 1 and verdict(s.lits, ks[0]) is True, 'accepted', f'{w}: goes on after an edge that was not accepted')
        c.ob('all edges', step(s, idx) - idx == P(1), 'next', f'{w}: an edge is skipped')
    for s in ss:
        if s.stop != ('ret',):
            continue
        r = s.ret()
        if s.start == 0:
            k = r.const() if isinstance(r, P) else None
            ks = fn_calls(s, 1)
            none = entails(s.lits, [P(0) - size])
            if k is None:
                c.unsure('all edges', 'short', f'{w}: returns {r}')
            elif k == 1:
                one = ks and verdict(s.lits, ks[0]) is True and entails(s.lits, [P(1) - size])
                ne = any(l[0] == 'ne' and unfz(l[1]) in (size - P(1), P(1) - size) for l in map(erase, s.lits))
                c.ob('all edges', bool(one) or none or ne and entails(s.lits, [P(1) - size]), 'short', f'{w}: reports valid without checking')
            else:
                c.ob('all edges', bool(ks) and verdict(s.lits, ks[0]) is False and k == 0, 'short', f'{w}: reports {k} without a rejected edge')
            continue
        rej = [i for i in fn_calls(s, 1) if verdict(s.lits, i) is False]
        want = [x + idx0 for x in counts for idx0 in (P(0),)] + [idx]
        ok = any(div(r, x, size - P(1)) for x in want)
        if not rej:
            c.ob('all edges', entails(s.lits, [idx - size + P(1)]), 'all', f'{w}: reports a result before all edges were checked')
            ok = ok or isinstance(r, P) and r.const() == 1
        else:
            ok = ok or isinstance(r, P) and r.const() is not None and r.const() < 1 and False
        c.ob('all edges', ok, 'fraction', f'{w}: reports {str(r)[:80]}')


def num(x):
    return x if isinstance(x, P) else atom(x)


def sub(f, s, x):
    """value on arrival of polynomial x over loop variables of the header s arrives at"""
    r = P(0)
    for k, v in x.t.items():
        y = P(v)
        for a in k:
            y = y * (num(arriving(f, s, a)) if a in state_atoms(fz(atom(a))) else atom(a))
        r = r + y
    return r


def div(r, x, n):
    """r is the quotient of x and n"""
    if not isinstance(r, P):
        return False
    r = erase(r)
    inv = [a for a in atoms_in(fz(r)) if isinstance(a, tuple) and a and a[0] == 'inv']
    for a in inv:
        if erase(a[1]) in (fz(n), ('sum',) + tuple()) or strip(a[1]) == n:
            if r == x * atom(a):
                return True
    return False


def strip(t):
    """polynomial behind conversions"""
    if isinstance(t, tuple) and t and t[0] == 'P':
        p = unfz(t)
        a = atom1(p)
        if a and a[0] in ('fp', 'sum', 'cvt', 'uitofp', 'sitofp') and len(a) == 2:
            return strip(a[1])
        return p
    if isinstance(t, tuple) and t and t[0] == 'sum' and len(t) == 2:
        return strip(t[1])
    return atom(t)


# ---------------------------------------------------------------- smoothing
def smooth(c, f, ss):
    w = f.where()
    OUT = (('arg', 0), 0)
    heads = sorted(f.loops())
    into = [s for s in ss if s.start == 0]
    cur = None
    for s in into:
        H = Held(s, STATE)
        if s.stop == ('ret',):
            c.ob('splice', whole(H.get(OUT), (('arg', 1), 0)), 'unchanged', f'{w}: returns something other than the path')
            continue
        ks = [K for K, p in H.c.items() if whole(p, (('arg', 1), 0))]
        c.ob('splice', len(ks) >= 1, 'starts', f'{w}: smoothing does not start from the path')
        cur = OUT if OUT in ks else ks[0] if ks else cur
    if cur is None or len(heads) != 1:
        c.unsure('splice', 'loop', f'{w}: {len(heads)} loops')
        return
    n = 0
    for s in ss:
        if s.start == 0:
            continue
        H = Held(s, STATE, r'::AttemptShortcut<')
        if s.stop == ('ret',):
            c.ob('splice', whole(H.get(OUT), cur), 'returned', f'{w}: returns something other than the current path')
            continue
        for i in calls(s):
            if method(i.callee) in ('pop_back', 'resize') and loc(s, i.ops[0]) == cur:
                c.ob('splice', False, 'states dropped', f'{i.where()}: states are cut off the path')
        size = None
        rs = calls(s, r'::AttemptShortcut<')
        for i in calls(s, r'::size$'):
            if loc(s, i.ops[0]) == cur:
                size = erase(s.v.val(('i', i.id)))
                break
        for i in rs:
            a, b = erase(s.v.n(i.ops[2])), erase(s.v.n(i.ops[3]))
            c.ob('splice', loc(s, i.ops[1]) == cur, 'on current', f'{i.where()}: the shortcut is sought in another path')
            for k, j in ((4, 4), (5, 6), (6, 7), (7, 8), (8, 9), (9, 10)):
                l = loc(s, i.ops[k]) if f.is_ptr(i.ops[k]) else None
                x = s.v.arg(i, k)
                same = l == (('arg', j), 0) if l is not None else erase(unfz(x) if x[0] == 'P' else x) == atom(('arg', j))
                c.ob('splice', same, f'passed {k}', f'{i.where()}: argument {k} of the shortcut is not the caller\'s')
            if size is None:
                c.unsure('indices', 'size', f'{i.where()}: size of the path not recognised')
                continue
            lits = s.lits + picks(s, size)
            c.ob('indices', entails(lits, [a, size - P(1) - b]), 'within', f'{i.where()}: a shortcut from {str(a)[:60]} to {str(b)[:60]} may leave the path')
        got = piece_states(s, H.get(cur))
        if got is None or any(p[0] in ('?', 'one') for p in got):
            c.unsure('splice', 'result', f'{w}: how the new path is put together was not recognised')
            continue
        if whole(got, cur):
            c.ob('splice', True, 'kept')
            continue
        n += 1
        res = [p for p in got if p[0] == 'result']
        if len(res) != 1 or size is None:
            c.ob('splice', False, 'one shortcut', f'{w}: the new path contains {len(res)} shortcuts')
            continue
        r = res[0]
        i = f.inst[r[1]]
        a, b = erase(s.v.n(i.ops[2])), erase(s.v.n(i.ops[3]))
        c.ob('splice', nonempty(s, i), 'succeeded', f'{w}: a failed shortcut is spliced in')
        lits = s.lits + picks(s, size)
        spans = []
        ok = True
        for p in got:
            if p[0] == 'result':
                k = p[2].const() if isinstance(p[2], P) else None
                e = p[3][1] if isinstance(p[3], tuple) else None
                ok = ok and k in (0, 1) and e in (0, 1)
                spans.append((a + P(k or 0), b - P(e or 0)))
            elif p[0] == 'held' and p[1] == cur:
                hi = p[3] if isinstance(p[3], P) else size - P(p[3][1])
                spans.append((p[2], hi - P(1)))
                c.ob('indices', entails(lits, [p[2], size - hi, hi - p[2]]), 'stretch', f'{w}: states {str(p[2])[:50]} to {str(hi)[:50]} may lie outside the path')
            elif p[0] == 'state' and p[1] == cur:
                spans.append((p[2], p[2]))
            else:
                ok = False
        glue = ok and all(entails(lits, [x[1] + P(1) - y[0], y[0] - x[1] - P(1)]) for x, y in zip(spans, spans[1:]))
        edge = ok and entails(lits, [P(0) - spans[0][0], spans[0][0], spans[-1][1] - size + P(1), size - P(1) - spans[-1][1]])
        c.ob('splice', bool(glue and edge), 'whole path', f'{w}: the new path does not consist of the states before the shortcut, the shortcut and the states after it')
    c.ob('splice', n > 0, 'used', f'{w}: shortcuts are never used')


def whole(p, K):
    return p is not None and len(p) == 1 and p[0] == ('held', K, P(0), ('end', 0))


def picks(s, size):
    """what rule `pick` guarantees about random indices"""
    out = []
    for i in calls(s, r'::GetUniformRandomIndex<'):
        x = s.v.val(('i', i.id))
        n = s.v.n(i.ops[1])
        out += [('ge', fz(x)), ('ge', fz(n - x - P(1)))]
    return out


def pick(c, f, ss):
    w = f.where()
    for s in ss:
        if s.stop != ('ret',):
            continue
        c.ob('pick', entails(s.lits, [atom(('arg', 1)) - P(1)]), 'refused', f'{w}: an index is drawn from an empty range')
        r = s.ret()
        us = fn_calls(s, 0)
        if len(us) != 1:
            c.unsure('pick', 'drawn', f'{w}: {len(us)} random numbers')
            continue
        u = s.v.val(('i', us[0].id))
        p = strip_round(fz(r))
        c.ob('pick', p == u * atom(('arg', 1)), 'floor', f'{w}: the index drawn is {str(r)[:80]}', p is not None)


def strip_round(t):
    """polynomial behind truncation or floor (None: rounded otherwise)"""
    if isinstance(t, tuple) and t and t[0] == 'P':
        a = atom1(unfz(t))
        if a is not None and a[0] in ('int', 'floor', 'trunc') and len(a) == 2:
            return strip_round(a[1])
        if a is not None and a[0] in ('callv', 'call') and callname(a) in ('floor',):
            return None
        return unfz(t)
    if isinstance(t, tuple) and t and t[0] in ('int', 'floor', 'trunc') and len(t) == 2:
        return strip_round(t[1])
    if isinstance(t, tuple) and t and t[0] in ('ceil', 'round', 'rint'):
        return P(-1)
    return None


# ---------------------------------------------------------------- resampling
def resample(c, f, ss):
    w = f.where()
    PATH, OUT = (('arg', 1), 0), (('arg', 0), 0)
    size = None
    for s in ss:
        for i in calls(s, r'::size$'):
            if loc(s, i.ops[0]) == PATH:
                size = erase(s.v.val(('i', i.id)))
    heads = f.loops()
    outer = [h for h in heads if not any(h in heads[o] and o != h for o in heads)]
    if len(outer) != 1 or size is None:
        c.unsure('resample', 'loop', f'{w}: {len(outer)} loops over the path')
        return
    h = outer[0]
    inner = [x for x in heads if x != h]
    # the edge looked at: index of its end state
    cand = []
    for s in ss:
        for i in fn_calls(s, 3):
            e = [arg_elem(s, i, 1), arg_elem(s, i, 2)]
            if None not in e and e[0][0] == PATH == e[1][0]:
                cand.append((e, i))
    if not cand or any(e != cand[0][0] for e, _ in cand):
        c.unsure('resample', 'edge', f'{w}: the edge being resampled was not recognised')
        return
    (_, lo), (_, hi) = cand[0][0]
    c.ob('resample', hi - lo == P(1), 'edge', f'{cand[0][1].where()}: measures {lo} to {hi}, which is not an edge of the path')
    edge = [(PATH, lo), (PATH, hi)]
    dist = f.inst[cand[0][1].id]
    grown = None
    for s in ss:
        H = Held(s, STATE)
        for K, p in H.c.items():
            if K != PATH and p and len(p) > 0 and p[-1][0] == 'one':
                grown = K
    if grown is None:
        c.unsure('resample', 'result', f'{w}: the resampled path was not recognised')
        return
    for s in ss:
        H = Held(s, STATE)
        got = piece_states(s, H.get(grown))
        new = got[1:] if got and got[0] == ('held', grown, P(0), ('end', 0)) else got
        if got is None or any(p[0] == '?' for p in got):
            c.unsure('resample', 'result', f'{w}: a resampled state was not recognised')
            continue
        if s.start == 0:
            if s.stop == ('ret',):
                c.ob('resample', whole(H.get(OUT), PATH) and entails(s.lits, [P(1) - size]), 'short', f'{w}: a path that has edges is returned as it is, or a short one is changed')
            else:
                c.ob('resample', got == [('state', PATH, P(0))], 'first', f'{w}: the first state is not kept')
                x = sub(f, s, hi)
                c.ob('resample', x == P(1), 'first edge', f'{w}: resampling starts at the edge to state {x}')
            continue
        if s.stop == ('ret',):
            c.ob('resample', not new and whole(H.get(OUT), grown), 'returned', f'{w}: what is returned is not the resampled path')
            c.ob('resample', s.start == h and entails(s.lits, [hi - size]), 'all edges', f'{w}: stops before every edge was resampled')
            continue
        if s.stop == ('loop', h):
            x = sub(f, s, hi)
            c.ob('resample', x - hi == P(1), 'next edge', f'{w}: goes on with the edge to state {x}')
        if s.start == h and s.stop == ('loop', h):
            if not new:
                z = zero(s)
                c.ob('resample', z, 'skipped', f'{w}: the end of an edge of non-zero length is left out')
            else:
                last = new[-1]
                ok = last == ('state', PATH, hi)
                c.ob('resample', ok and all(between(s, x, edge) for x in new[:-1]), 'end', f'{w}: an edge is not closed with its end state')
            continue
        if s.start == h:
            c.ob('resample', not new or all(between(s, x, edge) for x in new), 'interpolated', f'{w}: a state is inserted that is not interpolated on its edge')
            continue
        # inside the loop over the segments of an edge
        if s.stop == ('loop', s.start):
            c.ob('resample', all(between(s, x, edge) for x in new) and len(new) == 1, 'interpolated', f'{w}: a state is inserted that is not interpolated on its edge')
        else:
            c.ob('resample', all(x == ('state', PATH, hi) or between(s, x, edge) for x in new), 'interpolated', f'{w}: a state is inserted that is not interpolated on its edge')
            if not (new and new[-1] == ('state', PATH, hi)):
                closed(c, f, ss, s, w, edge)


def zero(s):
    """the number of segments is known to be zero"""
    for l in s.lits:
        if l[0] == 'eq' and l[1][0] == 'P' and any(x[0] == 'ceil' for x in atoms_in(l) if isinstance(x, tuple) and x):
            if unfz(l[1]).t.get((), 0) == 0:
                return True
        if l[0] in ('feq', 'foeq', 'fueq', 'fole', 'fule') and any(x[0] == 'callv' for x in calls_in(l)):
            if unfz(l[1]).t.get((), 0) == 0:
                return True
        if l[0] in ('ge', 'uge') and l[1][0] == 'P' and any(x[0] == 'ceil' for x in atoms_in(l) if isinstance(x, tuple) and x):
            p = unfz(l[1])
            if p.t.get((), 0) == 0 and all(v < 0 for k, v in p.t.items()):
                return True
    return False


def between(s, p, edge):
    if p[0] != 'made':
        return False
    j = p[1]
    b = 2 if j.sret else 1
    if loc(s, j.ops[b - 1]) != (('arg', 4), 0):
        return False
    return [arg_elem(s, j, b), arg_elem(s, j, b + 1)] == edge


def closed(c, f, ss, s, w, edge):
    """leaving the loop over the segments: the last one inserted had ratio one"""
    h = s.start
    ins = [q for q in ss if q.start == h and q.stop == ('loop', h)]
    into = [q for q in ss if q.stop == ('loop', h) and q.start != h]
    for q in ins:
        for i in calls(q, FN):
            b = 2 if i.sret else 1
            if loc(q, i.ops[b - 1]) != (('arg', 4), 0):
                continue
            r = erase(q.v.n(i.ops[b + 2]))
            seg = [a for a in state_atoms(fz(r)) if a[0] == 'phi' and f.inst[a[1]].block == h]
            inv = list({a for k in r.t for a in k if isinstance(a, tuple) and a and a[0] == 'inv'})
            if len(seg) != 1 or len(inv) != 1:
                c.unsure('resample', 'ratio', f'{i.where()}: ratio {str(r)[:60]}')
                return
            n = strip(inv[0][1])
            x = atom(seg[0])
            at = {}
            for k in r.t:
                if inv[0] not in k:
                    c.unsure('resample', 'ratio', f'{i.where()}: ratio {str(r)[:60]}')
                    return
            numer = P(0)
            for k, v in r.t.items():
                k = list(k)
                k.remove(inv[0])
                y = P(v)
                for a in k:
                    y = y * atom(a)
                numer = numer + y
            # numer is n on the last pass: numer(next) > n when leaving, numer <= n inside, steps of one
            up = sub(f, q, numer) - numer
            inside = entails(q.lits, [n - numer])
            over = entails(s.lits, [numer - n - P(1)])
            start = all(sub(f, e, numer) == P(1) for e in into)
            c.ob('resample', inside and over and up == P(1) and start, 'closed',
                 f'{i.where()}: the states inserted on an edge do not run up to its end state in steps of one segment')
