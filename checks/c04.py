"""C04: parallel loops run every index exactly once and deliver every failure."""
import re

import sa
from codec import P, atom
from flow import Counter, counter, proves, leq, geq, atom1, atoms_in, state_atoms, cond_lits
from paths import segments, paths, feasible, negate
from val import fz, unfz, num, subst, pmul

NS = 'common_robotics_utilities::v1::parallelism::'
INL = [r'^std::(forward|move|min|max|pair<.*>::pair|make_pair)']
BODY = re.compile(r'^(RangeBody|IndexBody)::operator\(\)$')
OMP = ['-fopenmp', '-I', f'{sa.VERIF}/witness/omp']


def run(c):
    c.rule('coverage', 'every way through a loop driver calls the body for consecutive ranges (or unit items) that partition '
                       '[range_start, range_end): counters start, step and stop so that each index is dispatched once')
    c.rule('threads', 'the thread number handed to the body is below the thread count and is not handed out twice at a time')
    c.rule('join', 'every future is drained with get() before a normal return, and launched asynchronously')
    c.rule('progress', 'a driver waiting on a condition is woken by every worker that ends: the shared count is accessed under the '
                       'lock, raised once per dispatch, lowered once on every way out of a worker (exceptions included), then notified')
    c.rule('failure', 'no way out of a throwing body reaches a normal return without the exception being stored and rethrown')
    c.rule('omp', 'OpenMP regions share the loop, bound the team to the thread count, contain exceptions and lock what they share')
    c.rule('order', 'futures are drained before anything the workers refer to is destroyed')
    c.assume('the OpenMP runtime runs each iteration of a work-shared loop once with a thread number below the team size')
    rx = [rf'^{NS}(Static|Dynamic)ParallelForRangeLoop<RangeBody>$',
          rf'^{NS}(Static|Dynamic)ParallelForRangeLoop<RangeBody>\(.*operator\(\)(\(.*)?$']
    for kind, flags in (('plain', []), ('omp', OMP)):
        m = c.work.load('parallel.cpp', roots=rx, inline=INL, flags=flags)
        mu = c.work.load('parallel.cpp', roots=rx, inline=INL, flags=flags, unwind=True)
        for which in ('Static', 'Dynamic'):
            Driver(c, m, mu, which, kind)
    index_loops(c)
    split(c)
    degree(c)
    c.need('obligations:coverage', 8)
    c.need('obligations:failure', 4)
    c.need('obligations:omp', 4)


def own(f, which):
    return re.search(rf'^{NS}{which}ParallelForRangeLoop<RangeBody>($|\()', f.qual)


def is_lambda(f):
    return re.search(r'<RangeBody>\(', f.qual) is not None


class Driver:
    def __init__(self, c, m, mu, which, kind):
        self.c, self.which, self.kind = c, which, kind
        fs = [f for f in m.fns if own(f, which)]
        us = [f for f in mu.fns if own(f, which)]
        main = [f for f in fs if not is_lambda(f) and 'outlined' not in f.name]
        if len(main) != 1:
            raise sa.Broken(f'{which}ParallelForRangeLoop: {len(main)} instances')
        self.main = main[0]
        self.outlined = [f for f in us if 'outlined' in f.name]
        self.workers = [f for f in fs if is_lambda(f) and any(BODY.search(i.callee or '') for i in f.calls())]
        self.uworkers = [f for f in us if is_lambda(f) and any(BODY.search(i.callee or '') for i in f.calls())]
        self.lambdas = [f for f in fs if is_lambda(f)]
        self.umain = [f for f in us if not is_lambda(f) and 'outlined' not in f.name][0]
        c.saw(self.main)
        for f in self.workers + self.outlined:
            c.saw(f)
        self.roles()
        self.segs = segments(self.main)
        if self.segs is None:
            raise sa.Broken(f'{which}: too many ways through the loop driver')
        c.count('segments', len(self.segs))
        if kind == 'plain':
            self.coverage()
            self.join()
            self.failure()
            self.progress()
        else:
            self.omp()

    def key(self, what):
        return f'{self.which}ParallelForRangeLoop|{what}'

    def roles(self):
        """which parameter is which"""
        f = self.main
        ty = f.argtypes[1:]
        ints = [k for k, t in enumerate(ty) if t.replace('const ', '') == 'long']
        par = [k for k, t in enumerate(ty) if 'DegreeOfParallelism' in t]
        body = [k for k, t in enumerate(ty) if 'RangeBody' in t]
        if len(ints) != 2 or len(par) != 1 or len(body) != 1:
            raise sa.Broken(f'unexpected signature {ty}')
        self.rs, self.re = (atom(('arg', k)) for k in ints)
        self.threads = atom(('m', (('arg', par[0]), 0)))
        self.S = self.re - self.rs

    # --- what a segment dispatches ---
    def body_calls(self, v):
        return [i for i in v.on_path(('call', 'invoke')) if BODY.search(i.callee or '')]

    def dispatches(self, s):
        """[(instruction, [(literals, start, end, thread)])] of one segment"""
        out = []
        for i in s.v.on_path(('call', 'invoke')):
            if BODY.search(i.callee or ''):
                l = s.v.loc(i.ops[-1])
                out.append((i, [([], *self.words(s.v, l, i))]))
            elif (i.callee or '').startswith('std::async<'):
                out.append((i, self.worker_cases(s.v, i)))
        return out

    def words(self, v, l, i):
        if l is None:
            return (atom(('?', i.id)),) * 3
        g = lambda o, n: aspoly(v.mem((l[0], l[1] + o), n, i))
        return g(0, 8), g(8, 8), g(16, 4)

    def worker_cases(self, v, i):
        """what the asynchronous worker hands to the body, in terms of the driver's values"""
        w = [f for f in self.workers]
        c = self.c
        if len(w) != 1:
            c.ob('coverage', False, self.key('worker'), f'{i.where()}: {len(w)} worker bodies call the loop body')
            return []
        f = w[0]
        base = 2 if i.sret else 1       # [result], policy, closure, arguments
        clo = v.loc(i.ops[base])
        args = i.ops[base + 1:]
        out = []
        ps = paths(f)
        if ps is None:
            c.ob('coverage', False, self.key('worker'), f'{f.where()}: the worker loops')
            return []
        m = {}
        for k, o in enumerate(args):
            l = v.loc(o)
            n = max(1, (i.deref or [0] * 9)[base + 1 + k] or 8)
            m[('arg', k + 1)] = aspoly(v.mem(l, n, i)) if l else atom(('?', i.id))
        for p in ps:
            b = self.body_calls(p.v)
            c.ob('coverage', len(b) == 1, self.key('worker body calls'),
                 f'{f.where()}: a worker calls the body {len(b)} times')
            if len(b) != 1:
                continue
            ws = self.words(p.v, p.v.loc(b[0].ops[-1]), b[0])
            ws = [self.captured(x, v, clo, i, m) for x in ws]
            lits = [sublit(x, lambda t: self.captured(t, v, clo, i, m)) for x in p.lits]
            out.append((lits, *ws))
        return out

    def captured(self, t, v, clo, i, m):
        mm = dict(m)
        for a in atoms_in(t):
            if isinstance(a, tuple) and a and a[0] == 'm' and isinstance(a[1], tuple):
                root, off = a[1]
                if root == ('arg', 0):              # captured by value
                    mm[a] = aspoly(v.mem((clo[0], clo[1] + off), 8, i))
                elif root[0] == 'deref':            # captured by reference
                    x = atom1(unfz(root[1])) if root[1][0] == 'P' else root[1]
                    if x and x[0] == 'm' and x[1][0] == ('arg', 0):
                        t2 = v.mem((clo[0], clo[1] + x[1][1]), 8, i)
                        if isinstance(t2, tuple) and t2[0] == 'ptr':
                            l = t2[1]
                            mm[a] = aspoly(v.mem((l[0], l[1] + off), self.size_of(l), i))
        return subst(t, mm)

    def size_of(self, l):
        from flow import width
        return width(self.main, l)

    # --- rules ---
    def coverage(self):
        c = self.c
        groups = {}
        for s in self.segs:
            d = self.dispatches(s)
            if s.start == 0 and s.stop == ('ret',):
                if not d:
                    ok = ('eq', fz(self.S)) in s.lits or ('eq', fz(P(0) - self.S)) in s.lits
                    c.ob('coverage', ok, self.key('nothing to do'), f'{self.main.where()}: returns without calling the body '
                         'although the range is not known to be empty')
                    continue
                ok = len(d) == 1 and len(d[0][1]) == 1
                if ok:
                    _, a, b, t = d[0][1][0]
                    ok = same(s.lits, a, self.rs) and same(s.lits, b, self.re)
                    c.ob('threads', t == P(0), self.key('serial thread number'), f'{d[0][0].where()}: thread number {t}')
                c.ob('coverage', ok, self.key('serial range'), f'{self.main.where()}: the serial call does not get the whole range')
                continue
            if s.start == 0 and d:
                c.ob('coverage', False, self.key('dispatch before the loop'), f'{d[0][0].where()}: the body is called ahead of the loop')
                continue
            if len(d) > 1:
                c.ob('coverage', False, self.key('several per step'), f'{d[1][0].where()}: the body is called twice in one step')
            elif d:
                groups.setdefault((d[0][0].id), []).append((s, d[0]))
        c.ob('coverage', len(groups) >= 1, self.key('loops'), f'{self.main.where()}: no loop calls the body')
        for g in groups.values():
            self.loop(g)
        # every way from the entry reaches a loop that was examined, unless it returned above
        for s in self.segs:
            if s.start == 0 and s.stop[0] == 'loop':
                r = self.main.reach([s.stop[1]])
                ok = any(x.block in r for g in groups.values() for x in [g[0][1][0]])
                c.ob('coverage', ok, self.key('a loop is reached'), f'{self.main.where()}: a way through calls the body in no loop')

    def loop(self, group):
        c = self.c
        inst = group[0][1][0]
        direct = bool(BODY.search(inst.callee or ''))
        what = 'direct' if direct else 'async'
        cases = [x for _, d in group for x in d[1]]
        if not cases:
            return
        cand = set()
        for lits, a, b, t in cases:
            for x in (a, b):
                cand |= {y for y in state_atoms(x)}
        best = None
        for a in sorted(cand, key=repr):
            k = counter(self.main, self.segs, a)
            if k is not None and k.init and self.advance(k):
                best = k
                break
        if not c.ob('coverage', best is not None, self.key(f'{what} counter'),
                    f'{inst.where()}: what is handed to the body is not determined by a counter that starts at a fixed value '
                    'and advances by one per call'):
            return
        k = best
        start = k.init[0][1]
        c.ob('coverage', all(x == start for _, x in k.init), self.key(f'{what} counter start'), f'{inst.where()}: several start values')
        # the stop bound: leaving the loop establishes counter >= bound; calling establishes counter < bound
        h = group[0][0].start
        leave = [s for s in self.segs if s.start in k.at and not (s.stop[0] == 'loop' and s.stop[1] in k.at)]
        bounds = []
        for s, _ in group:
            D = atom(k.at[s.start])
            for p in s.lits:
                if p[0] == 'ge':
                    b = unfz(p[1]) + D + P(1)       # bound - 1 - D >= 0
                    if not (set(k.at.values()) & set(state_atoms(b))) and b not in bounds:
                        bounds.append(b)
                elif p[0] == 'ne':
                    for q in (unfz(p[1]), P(0) - unfz(p[1])):
                        b = q + D
                        if not (set(k.at.values()) & set(state_atoms(b))) and b not in bounds:
                            bounds.append(b)
        if not c.ob('coverage', bool(bounds), self.key(f'{what} stop'), f'{inst.where()}: the body is called without a bound on the counter'):
            return
        unit = all(b - a == P(1) for _, a, b, _ in cases)
        verdict, why = False, ''
        for B in bounds:
            ok = all(ends_at(s.lits, atom(k.at[s.start]), B) for s in leave) and \
                all(runs_below(s.lits, atom(k.at[s.start]), B, geq(B, start, self.ctx(B))) for s, _ in group)
            if not ok:
                why = f'the loop can stop before {short(B)}'
                continue
            if unit:
                ok = True
                for s, d in group:
                    D = k.at[s.start]
                    for _, a, b, t in d[1]:
                        lo, hi = subst(a, {D: start}), subst(a, {D: B})
                        ok &= (a - atom(D)).const() is not None or not [x for x in state_atoms(a - atom(D))]
                        if not (lo == self.rs and hi == self.re):
                            ok = False
                            why = f'items run from {short(lo)} to {short(hi)}'
            else:
                ok, why = self.partition(group, k, start, B)
            if ok:
                verdict = True
                self.bound = B
                break
        c.ob('coverage', verdict, self.key(f'{what} covers the range'), f'{inst.where()}: {why}')
        if verdict:
            self.thread_numbers(group, k, self.bound, what, inst)
            if not direct:
                self.policy(group)

    def advance(self, k):
        """the counter moves by one exactly on the segments that call the body"""
        for s in self.segs:
            d = k.step.get(id(s))
            n = len(self.dispatches(s))
            if d is None:
                if s.start in k.at and n and s.stop[0] == 'loop':
                    return False
                continue
            if d != n:
                return False
        return True

    def partition(self, group, k, start, N):
        if start != P(0):
            return False, f'parts are counted from {short(start)}'
        cs = []
        for s, d in group:
            D = k.at[s.start]
            for lits, a, b, t in d[1]:
                m = {D: atom(('t',))}
                cs.append(([sublit(x, lambda y: subst(y, m)) for x in s.lits + lits], subst(a, m), subst(b, m)))
        return partition(cs, subst(N, {}), self.rs, self.re)

    def thread_numbers(self, group, k, B, what, inst):
        c = self.c
        for s, d in group:
            D = atom(k.at[s.start])
            for lits, a, b, t in d[1]:
                t = strip_trunc(t)
                if t == D:
                    ok = leq(B, self.threads, self.ctx(B)) and all(x == P(0) for _, x in k.init)
                    c.ob('threads', ok, self.key(f'{what} thread number below the count'),
                         f'{inst.where()}: thread numbers run up to {short(B)}, not shown to be at most the thread count')
                elif t == P(0) and what == 'direct':
                    c.ob('threads', True, self.key('serial build'), '')
                else:
                    self.queue(s, d[0], t, what)

    def ctx(self, B):
        """literals that hold on every way into the loops"""
        out = None
        for s in self.segs:
            if s.start == 0 and s.stop[0] == 'loop':
                out = set(s.lits) if out is None else out & set(s.lits)
        return list(out or [])

    def queue(self, s, inst, t, what):
        """thread numbers come out of a container that holds each unused number once"""
        c = self.c
        Q = None
        a = atom1(t)
        if a is not None:
            for x in atoms_in(a):
                if isinstance(x, tuple) and x and x[0] == 'elem' and x[1][0][0] == 'alloca':
                    Q = x[1]
            if a[0] in ('mphi', 'm') and Q is None:
                pass
        if not c.ob('threads', Q is not None, self.key(f'{what} thread number'), f'{inst.where()}: the thread number is {short(t)}'):
            return
        touch = lambda v, i: i.ops and v.fn.is_ptr(i.ops[0]) and v.loc(i.ops[0]) == Q
        for s in self.segs:
            v = s.v
            ev = []
            for i in v.on_path(('call', 'invoke')):
                n = (i.callee or '').split('::')[-1]
                if touch(v, i):
                    ev.append((n, i))
                elif BODY.search(i.callee or '') or (i.callee or '').startswith('std::async<'):
                    ev.append(('dispatch', i))
                elif n == 'get' and 'future' in i.callee:
                    ev.append(('get', i))
            names = [n for n, _ in ev]
            push = [i for n, i in ev if n in ('push_back', 'emplace_back', 'push', 'emplace', 'push_front')]
            pops = [n for n in names if n.startswith('pop')]
            disp = names.count('dispatch')
            gets = [i for n, i in ev if n == 'get']
            if disp and inst.op == 'call' and any(i is inst or i.id == inst.id for n, i in ev if n == 'dispatch'):
                order = [n for n in names if n in ('front', 'back') or n.startswith('pop') or n == 'dispatch']
                ok = len(pops) == 1 and not push and order[-1] == 'dispatch' and order[0] + pops[0] in ('frontpop_front', 'backpop_back')
                self.available(s, inst, Q)
                c.ob('threads', ok, self.key('a thread number leaves the pool when it is used'),
                     f'{inst.where()}: on one way the pool is left with {len(pops)} numbers taken and {len(push)} added')
            elif pops:
                c.ob('threads', False, self.key('thread numbers are lost'), f'{ev[0][1].where()}: a number is taken without being used')
            elif push:
                val = [aspoly(v.mem(v.loc(i.ops[1]), 4, i)) for i in push]
                if gets:
                    want = [aspoly(v.val(('i', g.id))) for g in gets]
                    c.ob('threads', sorted(map(repr, val)) == sorted(map(repr, want)), self.key('a finished number is returned'),
                         f'{push[0].where()}: the number added is not the one the finished worker used')
                else:
                    # initial filling
                    st = atom1(strip_trunc(val[0]))
                    k = counter(self.main, self.segs, st) if st and st[0] in ('phi', 'mphi') else None
                    ok = len(val) == 1 and k is not None and all(x == P(0) for _, x in k.init) and k.step.get(id(s)) == 1
                    if ok:
                        B = [unfz(p[1]) + atom(k.at[s.start]) + P(1) for p in s.lits if p[0] == 'ge']
                        ok = any(leq(b, self.threads, s.lits) and not state_atoms(b) for b in B)
                    c.ob('threads', ok, self.key('the pool starts with every number once'),
                         f'{push[0].where()}: the pool is not filled with 0 .. thread count - 1')
            elif gets:
                c.ob('threads', False, self.key('a finished number is returned'),
                     f'{gets[0].where()}: the number of a finished worker is not returned to the pool')
        # the worker gives its number back
        for f in self.workers:
            for p in paths(f) or []:
                b = self.body_calls(p.v)
                if len(b) == 1 and p.end.ops:
                    w = self.words(p.v, p.v.loc(b[0].ops[-1]), b[0])
                    c.ob('threads', aspoly(p.ret()) == w[2], self.key('a worker returns its number'),
                         f'{f.where()}: returns {short(aspoly(p.ret()))} instead of its thread number')

    def available(self, s, inst, Q):
        """a worker is only dispatched while the pool cannot be empty"""
        B = []
        for x in self.segs:
            for i in x.v.on_path(('call', 'invoke')):
                if re.search(r'::(push_back|emplace_back|push)(<.*>)?$', i.callee or '') and x.v.loc(i.ops[0]) == Q and x.stop == ('loop', x.start):
                    st = atom1(strip_trunc(aspoly(x.v.mem(x.v.loc(i.ops[1]), 4, i))))
                    if st and st[0] in ('phi', 'mphi'):
                        B += [unfz(p[1]) + atom(st) + P(1) for p in x.lits if p[0] == 'ge' and st in atoms_in(p)]
        conts = {s.v.loc(j.ops[0]) for j in s.v.on_path(('call', 'invoke')) if j.callee and 'future' in (j.cd or '') and
                 re.search(r'::(emplace_back|push_back|emplace|insert)(<.*>)?$', j.callee)}
        ok = False
        for l in s.lits:
            if l[0] == 'ge':
                for b in B:
                    d = strip_trunc(b - unfz(l[1]) - P(1))
                    a = atom1(d)
                    ok |= bool(a and a[0] == 'call' and a[1].endswith('::size') and any(self.mentions(l, C, ('size',)) for C in conts if C))
        throws = any(x.stop == ('throw',) and x.start and any(self.mentions(l, Q, ('size', 'empty')) for l in x.lits)
                     for x in segments(self.main, throws=True) or [])
        self.c.ob('threads', ok or not throws and any(self.mentions(l, Q, ('size', 'empty')) for l in s.lits),
                  self.key('dispatch only while a thread number is free'),
                  f'{inst.where()}: a worker is dispatched without knowing that fewer workers are outstanding than thread numbers exist')

    def policy(self, group):
        for s, d in group:
            i = d[0]
            base = 1 if i.sret else 0
            p = s.v.n(i.ops[base])
            self.c.ob('join', p == P(1), self.key('launch policy'), f'{i.where()}: launched with policy {p}, not asynchronously')

    def join(self):
        """futures are stored and drained"""
        c = self.c
        conts = set()
        for s in self.segs:
            v = s.v
            calls = list(v.on_path(('call', 'invoke')))
            for n, i in enumerate(calls):
                if not (i.callee or '').startswith('std::async<'):
                    continue
                st = [j for j in calls[n + 1:] if (j.callee or '').split('<')[0].split('::')[-1] and
                      re.search(r'::(emplace_back|push_back|emplace_front|push_front|emplace|insert)(<.*>)?$', j.callee or '') and
                      v.loc(j.ops[-1]) == v.loc(i.ops[0])]
                if c.ob('join', len(st) == 1, self.key('future kept'), f'{i.where()}: the future is stored {len(st)} times'):
                    conts.add(v.loc(st[0].ops[0]))
        for C in conts:
            self.drained(C)

    def mentions(self, l, C, names):
        for x in atoms_in(l):
            if isinstance(x, tuple) and x and x[0] == 'call' and x[1].split('::')[-1] in names and \
                    any(y == C or isinstance(y, tuple) and len(y) == 2 and y[0] == C[0] for y in atoms_in(x)):
                return True
        return False

    def exhausted(self, l, C):
        """literal l says that container C is empty, or that an iteration over it reached its end"""
        if l[0] in ('eq', 'uge', 'ge') and l[1] and l[1][0] == 'P':
            p = unfz(l[1])
            for q in (p, P(0) - p) if l[0] == 'eq' else (P(0) - p,):
                a = atom1(strip_trunc(q))
                if a is not None and a[0] == 'call' and a[1].endswith('::size') and self.mentions(l, C, ('size',)):
                    return True
            if l[0] == 'eq' and self.mentions(l, C, ('end', 'cend')):
                return True
            # index >= size
            return l[0] in ('ge', 'uge') and self.mentions(l, C, ('size',)) and p.t.get((), 0) == 0 and \
                any(v == -1 and any(self.mentions(x, C, ('size',)) for x in k) for k, v in p.t.items()) and len(p.t) == 2
        if l[0] == 'bool' and len(l) > 2:
            n = [x[1].split('::')[-1] for x in [atom1(unfz(l[1])) if l[1] and l[1][0] == 'P' else l[1]] if x and x[0] == 'call']
            if n and self.mentions(l, C, ('empty', 'end', 'cend')):
                return n[0] in ('empty', 'operator==') and l[2] or n[0] == 'operator!=' and not l[2]
        return False

    def drained(self, C):
        c, f = self.c, self.main
        store = [s for s in self.segs if any((i.callee or '').startswith('std::async<') for i in s.v.on_path(('call', 'invoke')))]
        after = set()
        for s in store:
            if s.stop[0] == 'loop':
                after |= f.reach([s.stop[1]])
        for s in self.segs:
            if s.stop == ('ret',) and s.start in after and s.start:
                ok = any(self.exhausted(l, C) for l in s.lits)
                c.ob('join', ok, self.key('return only when nothing is outstanding'),
                     f'{s.end.where()}: returns without having established that every worker was waited for')
        n = 0
        for s in self.segs:
            v = s.v
            calls = list(v.on_path(('call', 'invoke')))
            gets = [i for i in calls if re.search(r'future<.*>::get$', i.callee or '')]
            rem = [i for i in calls if i.ops and f.is_ptr(i.ops[1 if i.sret and len(i.ops) > 1 else 0]) and
                   v.loc(i.ops[1 if i.sret and len(i.ops) > 1 else 0]) == C and
                   re.search(r'::(erase|clear|pop_back|pop_front|resize|assign|swap|operator=|remove_if)(<.*>)?$', i.callee or '')]
            for r in rem:
                ok = r.callee.endswith('::erase') and len([g for g in gets if calls.index(g) < calls.index(r)]) == 1
                c.ob('join', ok, self.key('removed after get'), f'{r.where()}: a worker is dropped without its result (or exception) being taken')
            n += len(gets)
            # a loop over the container that does not remove anything takes every result
        erases = any(re.search(r'::erase$', i.callee or '') for i in f.calls() if 'future' in (i.callee or ''))
        c.ob('join', n > 0, self.key('get'), f'{f.where()}: no result is ever taken from the workers')
        if not erases:
            self.visits(C)

    def visits(self, C):
        """the loop whose exit establishes that the end was reached takes a result on every round and moves on by one"""
        c, f = self.c, self.main
        done = 0
        for s in self.segs:
            if s.stop != ('ret',) or not s.start:
                continue
            if not any(self.mentions(l, C, ('end', 'cend', 'size')) for l in s.lits):
                continue
            h = s.start
            back = [x for x in self.segs if x.start == h and x.stop == ('loop', h)]
            c.ob('join', bool(back), self.key('drain loop'), f'{s.end.where()}: the workers are not visited in a loop')
            for b in back:
                gets = [i for i in b.v.on_path(('call', 'invoke')) if re.search(r'future<.*>::get$', i.callee or '')]
                ok = len(gets) == 1
                if ok:
                    l = b.v.loc(gets[0].ops[0])
                    sz = b.v.argsize(gets[0], 0) or 16
                    st = [a for a in state_atoms(atom(('x', l))) if (f.inst[a[1]].block if a[0] == 'phi' else a[1]) == h]
                    ok = len(set(st)) == 1
                    if ok:
                        a = st[0]
                        if a[0] == 'phi':
                            nx = b.next(f.inst[a[1]])
                            one = isinstance(nx, tuple) and nx[0] == 'ptr' and nx[1] == (('deref', fz(atom(a))), sz) or \
                                isinstance(nx, P) and nx - atom(a) == P(1)
                            first = [x.next(f.inst[a[1]]) for x in self.segs if x.stop == ('loop', h) and x.start != h]
                            begin = all(x == ('ptr', (('elem', C, fz(P(0))), 0)) or x == P(0) for x in first)
                        else:
                            nx = b.v.at_end(a[2], 8, b.v.path[-1])
                            one = any(isinstance(y, tuple) and y and y[0] in ('call', 'callv') and y[1].endswith('operator++') for y in atoms_in(nx)) \
                                or (aspoly(nx) - atom(a)) == P(1) or (aspoly(nx) - atom(a)) == num(sz)
                            begin = True
                        c.ob('join', one and begin and bool(gets), self.key('every worker is visited'),
                             f'{gets[0].where()}: the workers visited are not every one from the first to the last')
                        done += 1
                c.ob('join', ok, self.key('result taken from every worker'), f'{f.where()}: {len(gets)} results are taken per round')
        c.ob('join', done > 0, self.key('drain loop found'), f'{f.where()}: no loop takes the result of every worker')

    # --- no lost wake-up: a waiting driver is woken by every worker that ends ---
    def progress(self):
        c, f = self.c, self.main
        C = None
        for s in self.segs:
            for i in s.v.on_path(('call', 'invoke')):
                if re.search(r'condition_variable(_any)?::wait<', i.callee or ''):
                    self.waiting(s, i)

    def waiting(self, s, w):
        c, f, v = self.c, self.main, s.v
        caps = [v.loc(o) for o in w.ops[2:] if f.is_ptr(o)]
        lam = [g for g in self.lambdas if g.qual in (w.callee or '') or self.is_pred(g, w)]
        if len(lam) != 1 or None in caps:
            return
        pred = lam[0]
        L = [l for l in caps if l[0][0] == 'alloca' and self.scalar(l)]
        if len(L) != 1:
            return
        L = L[0]
        c.saw(pred)
        # the wait ends at the latest when no worker is running
        ix = caps.index(L)
        for p in paths(pred) or []:
            for pol, e in p.outcomes():
                if pol:
                    continue
                lits = [sublit(x, lambda t: self.zero_live(t, ix)) for x in p.lits + e]
                c.ob('progress', self.contradicts(lits), self.key('the wait ends when nothing runs'),
                     f'{w.where()}: the driver can go on waiting although no worker is running any more')
        # every access of the shared count is made under the lock
        self.locked(f, lambda vv, l: l == L, self.segs, after_launch=True)
        # each dispatch counts up once
        for x in self.segs:
            d = [i for i in x.v.on_path(('call', 'invoke')) if (i.callee or '').startswith('std::async<')]
            if d:
                st = [i for i in x.v.on_path(('store',)) if x.v.loc(i.ops[1]) == L]
                ok = len(st) == 1 and earlier(x.v, st[0], d[0]) and \
                    aspoly(x.v.val(st[0].ops[0])) - aspoly(x.v.mem(L, self.size_of(L), st[0])) == P(1)
                c.ob('progress', ok, self.key('a dispatched worker is counted'), f'{d[0].where()}: the count of running workers is not raised by one before the worker starts')
        fin = []
        for g in self.lambdas:
            if g is pred:
                continue
            for p in paths(g) or []:
                for i in p.v.on_path(('store',)):
                    l = p.v.loc(i.ops[1])
                    d = aspoly(p.v.val(i.ops[0])) - aspoly(p.v.mem(l, 8, i)) if l else None
                    if d == P(-1) and l[0][0] == 'deref':
                        fin.append((g, p, i))
        names = {g.qual for g, _, _ in fin}
        for g, p, i in fin:
            self.locked(g, lambda vv, l: l == p.v.loc(i.ops[1]), [p])
            calls = list(p.v.on_path(('call', 'invoke')))
            note = [j for j in calls if re.search(r'condition_variable(_any)?::notify_(all|one)$', j.callee or '')]
            c.ob('progress', bool(note) and earlier(p.v, i, note[0]), self.key('a finished worker wakes the driver'),
                 f'{i.where()}: the driver is not notified after the count of running workers drops')
        c.ob('progress', bool(fin), self.key('a finished worker is counted'), f'{f.where()}: no worker lowers the count of running workers')
        for g in self.uworkers:
            for x in segments(g, throws=True) or []:
                b = self.body_calls(x.v)
                if not b:
                    continue
                calls = list(x.v.on_path(('call', 'invoke')))
                c.ob('progress', b[0].op == 'invoke', self.key('a throwing worker is counted'),
                     f'{b[0].where()}: a worker whose body throws ends without lowering the count the driver waits on')
                n = 0
                for j in calls[calls.index(b[0]) + 1:]:
                    n += j.callee in names or bool(re.search(r'^std::function<void \(\)>::operator\(\)$|^std::function::operator\(\)$', j.callee or ''))
                for j in x.v.on_path(('store',)):
                    l = x.v.loc(j.ops[1])
                    n += bool(l and l[0][0] == 'deref' and aspoly(x.v.val(j.ops[0])) - aspoly(x.v.mem(l, 8, j)) == P(-1))
                empty = any(l[0] == 'bool' and 'operator bool' in repr(l) and l[2] is False for l in x.lits)
                c.ob('progress', n == 1 or empty, self.key('every way out of a worker is counted'),
                     f'{b[0].where()}: a worker can end (normally or by an exception) without lowering the count the driver waits on')

    def is_pred(self, g, w):
        m = re.search(r"ambda'?\d*'?\(\)|ambda", w.callee or '')
        return bool(m) and any(r.op == 'ret' and r.ops and (g.get(r.ops[0]) is not None and g.get(r.ops[0]).ty == 'i1' or r.ops[0][0] == 'c' and r.ops[0][2] == 1) for r in g.insts()) and not [1 for i in g.calls() if 'wait' in (i.callee or '')]

    def scalar(self, l):
        i = self.main.inst[l[0][1]]
        return i.op == 'alloca' and (i.asz or 0) in (4, 8)

    def zero_live(self, t, ix):
        m = {}
        for a in atoms_in(t):
            if isinstance(a, tuple) and len(a) == 2 and a[0] == 'm' and isinstance(a[1], tuple) and a[1][0][0] == 'deref':
                x = unfz(a[1][0][1]) if a[1][0][1][0] == 'P' else None
                y = atom1(x) if x is not None else a[1][0][1]
                if y and y[0] == 'm' and y[1] == (('arg', 0), 8 * ix):
                    m[a] = P(0)
        return subst(t, m)

    def contradicts(self, lits):
        """the literals cannot hold for a container that is not empty"""
        for l in lits:
            if l[0] in ('uge', 'ge') and l[1][0] == 'P':
                p = unfz(l[1])
                k = p.const()
                if k is not None and k < 0:
                    return True
                if k is None and p.t.get((), 0) <= 0 and len([x for x in p.t if x]) == 1 and all(v < 0 for x, v in p.t.items() if x):
                    if any(isinstance(x, tuple) and x and x[0] == 'call' and x[1].endswith('size') for x in atoms_in(p)):
                        return True
            if l[0] == 'ne' and l[1][0] == 'P' and unfz(l[1]) == P(0):
                return True
            if l[0] == 'eq' and l[1][0] == 'P' and unfz(l[1]).const() not in (None, 0):
                return True
        return False

    def locked(self, g, same_place, segs, after_launch=False):
        for x in segs:
            held = 0
            if after_launch and x.start == 0:
                continue
            for i in x.v.on_path():
                n = i.callee or '' if i.op in ('call', 'invoke') else ''
                if n.endswith('mutex::lock') or n.endswith('unique_lock::lock') or re.search(r'(unique|scoped)_lock(<.*>)?::(unique|scoped)_lock$', n):
                    held += 1
                elif n.endswith('mutex::unlock') or re.search(r'unique_lock(<.*>)?::(~unique_lock|unlock)$', n):
                    held -= 1
                elif i.op in ('load', 'store') and same_place(x.v, x.v.loc(i.ops[0] if i.op == 'load' else i.ops[1])):
                    self.c.ob('progress', held > 0, self.key('the count is accessed under the lock'),
                              f'{i.where()}: the count the driver waits on is accessed without holding the lock')

    # --- failures ---
    def failure(self):
        c = self.c
        for f in [self.umain] + self.uworkers:
            segs = segments(f, throws=True)
            if segs is None:
                raise sa.Broken(f'{f.short()}: too many ways')
            stores = self.caught(f, segs)
            for X in stores:
                self.rethrown(f, segs, X)
        self.lifetime()

    def caught(self, f, segs, lock=False):
        """places exceptions of the body are stored into; a body whose exception is dropped is a violation"""
        c = self.c
        out = set()
        for s in segs:
            path = s.v.path
            for i in s.v.on_path(('invoke',)):
                if not BODY.search(i.callee or '') and not re.search(r'future<.*>::get$', i.callee or ''):
                    continue
                k = path.index(i.block)
                if k + 1 >= len(path) or path[k + 1] != i.unwind or i.unwind == i.normal:
                    continue
                if s.stop == ('throw',):
                    c.ob('failure', True, self.key('propagates'), '')
                    continue
                X, ev = None, []
                for j in s.v.on_path(('call', 'invoke')):
                    if path.index(j.block) <= k:
                        continue
                    n = j.callee or j.cn or ''
                    if n == 'std::current_exception':
                        ev.append('current')
                    elif re.search(r'exception_ptr::operator=$', n) and 'current' in ev:
                        X = s.v.loc(j.ops[0])
                        ev.append('store')
                    elif n.endswith('mutex::lock') or re.search(r'(unique|scoped)_lock(<.*>)?::(unique|scoped)_lock$', n):
                        ev.append('lock')
                    elif n.endswith('mutex::unlock'):
                        ev.append('unlock')
                    elif n == '__cxa_end_catch':
                        ev.append('end')
                pads = [j for b in path[k + 1:k + 2] for j in f.blocks[b] if j.op == 'landingpad']
                c.ob('failure', bool(pads) and pads[0].catchall is True, self.key('every exception type is caught'),
                     f'{i.where()}: only some exception types are caught')
                already = any(l[0] == 'bool' and l in have for have in [self.isset(s, path[k + 1:])] for l in s.lits)
                c.ob('failure', already or X is not None and ('end' not in ev or ev.index('store') < ev.index('end')),
                     self.key('exception kept'), f'{i.where()}: an exception of the loop body is swallowed')
                if X is not None:
                    out.add(X)
                    if lock:
                        ok = 'lock' in ev and ev.index('lock') < ev.index('store') and \
                            ('unlock' not in ev or ev.index('store') < ev.index('unlock'))
                        c.ob('omp', ok, self.key('stored under the lock'), f'{i.where()}: concurrent bodies store their exception without the lock')
        return out

    def rethrown(self, f, segs, X, gate=None):
        """after the loop the stored exception is tested and thrown"""
        c = self.c
        n = 0
        after = None
        for s in segs:
            if s.stop != ('ret',) or (gate and not gate(s)):
                continue
            if gate is None and not self.from_store(f, segs, s, X):
                continue
            n += 1
            ok = any(l[0] in ('bool', 'eq', 'ne') and self.tests(s, l, X) for l in s.lits)
            c.ob('failure', ok, self.key('stored exception is rethrown'),
                 f'{s.end.where()}: returns normally without having tested the stored exception')
        thr = [s for s in segs if s.stop == ('throw',) and any(
            (i.callee or '') == 'std::rethrow_exception' for i in s.v.on_path(('call', 'invoke')))]
        c.ob('failure', bool(thr) or n == 0, self.key('rethrow'), f'{f.where()}: the stored exception is never thrown')

    def from_store(self, f, segs, s, X):
        """segment s can run after a segment that stored into X"""
        for t in segs:
            if any(re.search(r'exception_ptr::operator=$', j.callee or '') and t.v.loc(j.ops[0]) == X
                   for j in t.v.on_path(('call', 'invoke'))):
                if t is s or t.stop[0] == 'loop' and s.start in f.reach([t.stop[1]]) and s.start:
                    return True
        return False

    def tests(self, s, l, X):
        for i in s.v.on_path(('call', 'invoke')):
            if re.search(r'exception_ptr::operator (bool|!)$|__exception_ptr::operator[!=]=$', i.callee or '') and \
                    any(s.v.fn.is_ptr(o) and s.v.loc(o) == X for o in i.ops):
                t = fz(s.v.val(('i', i.id)))
                pol = not i.callee.endswith(('operator bool', 'operator!='))
                if l == ('bool', t, pol):
                    return True
        return False

    def isset(self, s, blocks):
        """literals (tested in these blocks) saying that an exception pointer already holds something"""
        out = []
        for i in s.v.on_path(('call', 'invoke')):
            if i.block in blocks and re.search(r'exception_ptr::operator bool$|__exception_ptr::operator[!=]=$', i.callee or ''):
                out.append(('bool', fz(s.v.val(('i', i.id))), not i.callee.endswith('operator==')))
        return out

    def lifetime(self):
        """when a worker's exception propagates, the futures go first"""
        c, f = self.c, self.umain
        refs = set()
        cont = None
        segs = segments(f)
        for s in segs or []:
            for i in s.v.on_path(('call', 'invoke')):
                if (i.callee or '').startswith('std::async<'):
                    clo = s.v.loc(i.ops[2 if i.sret else 1])
                    for k in range(0, 96, 8):
                        t = s.v.mem((clo[0], clo[1] + k), 8, i)
                        if isinstance(t, tuple) and t[0] == 'ptr' and t[1][0][0] == 'alloca':
                            refs.add(t[1])
                    for j in s.v.on_path(('call', 'invoke')):
                        if re.search(r'::(emplace_back|push_back)(<.*>)?$', j.callee or '') and s.v.loc(j.ops[-1]) == s.v.loc(i.ops[0]):
                            cont = s.v.loc(j.ops[0])
        if cont is None:
            return
        V = segs[0].v
        kill = {i.block for i in f.calls() if re.search(r'::~\w+$', i.callee or '') and V.loc(i.ops[0]) == cont}
        for i in f.calls(r'::~\w+$'):
            l = V.loc(i.ops[0])
            if l in refs:
                for g in f.calls(r'future<.*>::get$'):
                    for st in ([g.unwind] if g.op == 'invoke' else []) + [g.block]:
                        p = None if i.block in kill and any(
                            j.block == i.block and j.idx < i.idx for j in f.calls(r'::~\w+$') if V.loc(j.ops[0]) == cont) \
                            else f.path_avoiding(st, {i.block}, kill)
                        c.ob('order', p is None, self.key('futures first'),
                             f'{i.where()}: something the workers use is destroyed before they are waited for')

    # --- OpenMP ---
    def omp(self):
        c, f = self.c, self.main
        forks = [i for i in f.calls() if (i.cn or '') == '__kmpc_fork_call']
        for s in self.segs:
            v = s.v
            calls = list(v.on_path(('call', 'invoke')))
            for n, i in enumerate(calls):
                if i.cn != '__kmpc_fork_call':
                    continue
                push = [j for j in calls[:n] if j.cn == '__kmpc_push_num_threads']
                ok = bool(push) and leq(aspoly(v.val(push[-1].ops[2])), self.threads, s.lits)
                c.ob('omp', ok, self.key('team size'), f'{i.where()}: the team is not limited to the thread count')
        if not forks:
            c.count('OpenMP regions absent')
            return
        for g in self.outlined:
            segs = segments(g, throws=True)
            if segs is None:
                raise sa.Broken('outlined region: too many ways')
            share = [i.block for i in g.calls() if re.match(r'__kmpc_(for_static|dispatch)_init', i.cn or '')]
            for i in g.calls():
                if BODY.search(i.callee or ''):
                    ok = any(g.bdom(b, i.block) for b in share)
                    c.ob('omp', ok, self.key('work is shared'), f'{i.where()}: every thread of the team runs the whole loop')
                    c.ob('omp', i.op == 'invoke', self.key('exceptions are contained'),
                         f'{i.where()}: an exception of the body leaves the parallel region')
            pads = self.caught(g, segs, lock=True)
            for s in segs:
                for i in self.body_calls(s.v):
                    t = self.words(s.v, s.v.loc(i.ops[-1]), i)[2]
                    a = atom1(t)
                    ok = a is not None and a[0] in ('callv', 'call', 'icall') and (a[1] == 'omp_get_thread_num')
                    c.ob('threads', ok, self.key('OpenMP thread number'), f'{i.where()}: the thread number is {short(t)}')
            for X in pads:
                if X[0][0] == 'arg':
                    self.outer_rethrow(g, X)

    def outer_rethrow(self, g, X):
        """the driver tests the exception object it passes to the region"""
        c = self.c
        segs = segments(self.umain, throws=True)
        fork = lambda s: [i for i in s.v.on_path(('call', 'invoke')) if i.cn == '__kmpc_fork_call']
        for s in segs:
            for i in fork(s):
                k = X[0][1] - 2 + 3         # outlined(global id, bound id, shared...) <- fork(loc, n, fn, shared...)
                l = s.v.loc(i.ops[k]) if k < len(i.ops) else None
                if l is not None and s.stop == ('ret',):
                    ok = any(y[0] in ('bool', 'eq', 'ne') and self.tests(s, y, l) for y in s.lits)
                    c.ob('failure', ok, self.key('region exception is rethrown'),
                         f'{s.end.where()}: returns normally without testing the exception stored by the region')


def partition(cases, N, rs, re_):
    """consecutive parts t = 0 .. N-1 cover [rs, re) without gap or overlap"""
    S = re_ - rs
    q, r, t = atom(('q',)), atom(('r',)), atom(('t',))
    T = ('t',)

    def norm(p):
        m = {}
        for a in atoms_in(p):
            if isinstance(a, tuple) and len(a) == 3 and a[0] in ('div', 'rem') and a[1] == fz(S) and unfz(a[2]) == N:
                m[a] = q if a[0] == 'div' else r
        return subst(p, m)
    cs = []
    for lits, a, b in cases:
        opts = [(lits, a, b)]
        for _ in range(4):
            nxt = []
            for L, x, y in opts:
                mm = [z for z in atoms_in(x) | atoms_in(y) if isinstance(z, tuple) and z and z[0] in ('smin', 'smax', 'sel') and T in atoms_in(z)]
                if not mm:
                    nxt.append((L, x, y))
                    continue
                z = mm[0]
                if z[0] == 'sel':
                    u, w = unfz(z[2]), unfz(z[3])
                    l1, l2 = cond_lits(z[1]), cond_lits(z[1], False)
                else:
                    u, w = unfz(z[1]), unfz(z[2])
                    lo = ('ge', fz(w - u))
                    l1, l2 = ([lo], [negate(lo)]) if z[0] == 'smin' else ([negate(lo)], [lo])
                nxt.append((L + l1, subst(x, {z: u}), subst(y, {z: u})))
                nxt.append((L + l2, subst(x, {z: w}), subst(y, {z: w})))
            opts = nxt
        cs += opts
    A, B, O, EQ = [], [], [], []
    for L, a, b in cs:
        a, b = norm(a), norm(b)
        ls = [(x[0], fz(norm(unfz(x[1])))) for x in L if x[0] in ('ge', 'eq', 'ne')]
        lt, ge, le = proves(ls, r - t - P(1)), proves(ls, t - r), proves(ls, r - t)
        if lt and ge:
            continue                # cannot happen
        if lt:
            A.append((a, b))
        elif ge and le:
            EQ.append((a, b))
        elif ge:
            B.append((a, b))
        else:
            O.append((a, b))        # split at another place: not understood
    for a, b in EQ:
        if not O and B and (subst(a, {T: r}) != subst(B[0][0], {T: r}) or subst(b, {T: r}) != subst(B[0][1], {T: r})):
            return False, 'the first part after the remainder does not follow the parts before it'
    end = rs + pmul(q, N) + r
    at = lambda p, x: subst(p, {T: x})
    full = lambda p: subst(norm(p), {})
    E = [end, re_]

    def final(p):
        return p in E or p - end == P(0) or subst(p, {('re',): end}) == end

    def nx(p):
        return at(p, t + P(1))
    if O and not A and not B:
        if len(set((fz(a), fz(b)) for a, b in O)) != 1:
            return False, 'the parts are computed in ways that were not understood'
        a, b = O[0]
        # start(t) may divide t*S by N: N*S/N is S, 0/N is 0
        def ev(p, x):
            p = at(p, x)
            m = {}
            for z in atoms_in(p):
                if isinstance(z, tuple) and len(z) == 3 and z[0] == 'div' and unfz(z[2]) == N:
                    n = unfz(z[1])
                    if n == P(0):
                        m[z] = P(0)
                    elif n == pmul(S, N):
                        m[z] = S
            return subst(p, m)
        ok = ev(a, P(0)) == rs and ev(b, N - P(1)) in E and nx(a) == b
        return ok, 'parts overlap or leave a gap'
    if O:
        return False, 'a part is chosen by a test that was not understood'
    if not A or not B or len(set((fz(a), fz(b)) for a, b in A)) != 1 or len(set((fz(a), fz(b)) for a, b in B)) != 1:
        return False, 'the parts before and after the remainder are not both defined'
    (a0, a1), (b0, b1) = A[0], B[0]
    why = []
    if at(a0, P(0)) != rs:
        why.append('the first part does not start at the start')
    if nx(a0) != a1:
        why.append('longer parts overlap or leave a gap')
    if at(a1, r - P(1)) != at(b0, r):
        why.append('the first shorter part does not follow the last longer one')
    if at(at(b0, P(0)), P(0)) != rs and subst(at(b0, P(0)), {('r',): P(0)}) != rs:
        why.append('the first part does not start at the start')
    if nx(b0) != b1:
        why.append('shorter parts overlap or leave a gap')
    if at(b1, N - P(1)) not in E:
        why.append('the last part does not end at the end')
    return not why, '; '.join(why)


def ends_at(lits, D, B):
    """the counter reached the bound"""
    return proves(lits, D - B)


def runs_below(lits, D, B, ordered):
    """the counter is below the bound; != is as good when it starts at or below it and moves by one"""
    if proves(lits, B - D - P(1)):
        return True
    return ordered and any(p[0] == 'ne' and unfz(p[1]) in (D - B, B - D) for p in lits)


def earlier(v, a, b):
    o = [i.id for i in v.on_path()]
    return o.index(a.id) < o.index(b.id)


def aspoly(t):
    return t if isinstance(t, P) else atom(t)


def strip_trunc(t):
    a = atom1(t)
    return unfz(a[2]) if a is not None and a[0] == 'trunc' else t


def same(lits, a, b):
    return a == b or ('eq', fz(a - b)) in lits or ('eq', fz(b - a)) in lits


def sublit(p, f):
    if p[0] in ('any', 'all'):
        return (p[0], tuple(sublit(x, f) for x in p[1]))
    if len(p) > 1 and isinstance(p[1], tuple) and p[1] and p[1][0] == 'P':
        return (p[0], fz(f(unfz(p[1])))) + tuple(p[2:])
    return p


def short(t):
    s = re.sub(r"\('P', |[()',]", ' ', repr(t))
    return re.sub(r'\s+', ' ', s)[:160]


def index_loops(c):
    """the index loops hand their range on unchanged and visit each index of a part"""
    rx = [rf'^{NS}(Static|Dynamic)ParallelForIndexLoop<IndexBody>']
    m = c.work.load('parallel.cpp', roots=rx, inline=INL, keep=[r'ParallelForRangeLoop'])
    n = 0
    for f in m.fns:
        if f.qual.startswith('std::') or 'RangeLoop' in f.qual:
            continue
        which = re.search(r'(Static|Dynamic)ParallelForIndexLoop', f.qual).group(1) + 'ParallelForIndexLoop'
        body = [i for i in f.calls() if BODY.search(i.callee or '')]
        segs = segments(f)
        c.saw(f)
        if re.search(r'IndexLoop<IndexBody>$', f.qual):
            for s in segs:
                if s.stop != ('ret',):
                    continue
                r = [i for i in s.v.on_path(('call', 'invoke')) if 'ParallelForRangeLoop' in (i.callee or '')]
                if body:
                    continue
                ok = len(r) == 1 and which.replace('Index', 'Range') in r[0].callee
                if ok:
                    a = r[0].ops
                    ok = s.v.loc(a[0]) == (('arg', 0), 0) and s.v.n(a[1]) == atom(('arg', 1)) and s.v.n(a[2]) == atom(('arg', 2)) \
                        and s.v.n(a[4]) == atom(('arg', 4))
                c.ob('coverage', ok, f'{which}|forwards its range', f'{f.where()}: the range handed on is not the one given')
                n += 1
        elif body:
            groups = [(s, i) for s in segs for i in s.v.on_path(('call', 'invoke')) if BODY.search(i.callee or '')]
            for s, i in groups:
                thr, ix = s.v.n(i.ops[-2]), s.v.n(i.ops[-1])
                w = next(k for k in range(len(f.params) - 1, -1, -1) if f.params[k]['ty'] == 'ptr')
                lo, hi, th = (atom(('m', (('arg', w), o))) for o in (0, 8, 16))
                a = atom1(ix)
                k = counter(f, segs, a) if a and a[0] in ('phi', 'mphi') else None
                ok = k is not None and all(x == lo for _, x in k.init) and k.step.get(id(s)) == 1 and \
                    all(d == len([1 for t, j in groups if t is x]) for x in segs for d in [k.step.get(id(x))] if d is not None) and \
                    runs_below(s.lits, ix, hi, True) and \
                    all(ends_at(x.lits, atom(k.at[x.start]), hi) for x in segs if x.start in k.at and x.stop == ('ret',))
                c.ob('coverage', ok, f'{which}|indices of a part', f'{i.where()}: the indices of a part are not visited once each')
                c.ob('threads', thr == th, f'{which}|thread number', f'{i.where()}: another thread number is passed on')
            for s in segs:
                if s.start == 0 and s.stop == ('ret',):
                    c.ob('coverage', ends_at(s.lits, atom(('m', (('arg', 1), 0))), atom(('m', (('arg', 1), 8)))), f'{which}|empty part',
                         f'{f.where()}: returns without visiting a part')
            n += 1
    if n < 4:
        c.ob('coverage', n >= 2, 'index loops', f'only {n} index loop parts found')


def split(c):
    """the public range split"""
    m = c.work.load('parallel.cpp', roots=[r'^calc$'], inline=INL)
    for f in m.fns:
        segs = segments(f)
        cs = []
        for s in segs:
            if s.stop != ('ret',):
                continue
            t = s.ret()
            if isinstance(t, tuple) and t[0] == 'agg':
                w = [unfz(v) if v[0] == 'P' else atom(v) for _, v in t[1]]
            else:
                continue
            m2 = {('arg', 3): atom(('t',))}
            cs.append(([sublit(x, lambda y: subst(y, m2)) for x in s.lits], subst(w[0], m2), subst(w[1], m2)))
            N, t = atom(('arg', 2)), atom(('arg', 3))
            ok = proves(s.lits, t) and proves(s.lits, N - t - P(1)) and proves(s.lits, atom(('arg', 1)) - atom(('arg', 0)))
            c.ob('coverage', ok, 'CalcStaticThreadRangeStartAndEnd|arguments are checked', f'{f.where()}: answers for a thread number or range that is not valid')
        ok, why = partition(cs, atom(('arg', 2)), atom(('arg', 0)), atom(('arg', 1)))
        c.ob('coverage', ok, 'CalcStaticThreadRangeStartAndEnd|parts', f'{f.where()}: {why}')
        c.saw('parallelism::CalcStaticThreadRangeStartAndEnd')


def degree(c):
    m = c.work.load('parallel.cpp', roots=[r'^(threads|range)$'], inline=INL)
    for f in m.fns:
        for p in paths(f) or []:
            if f.qual == 'threads':
                c.ob('threads', p.v.n(p.end.ops[0]) == atom(('arg', 0)) and proves(p.lits, atom(('arg', 0)) - P(1)),
                     'DegreeOfParallelism|at least one thread', f'{f.where()}: a thread count below one is accepted, or another one stored')
            elif f.qual == 'range':
                o = len(f.params) - 3
                a, b, t = (atom(('arg', o + k)) for k in range(3))
                c.ob('coverage', proves(p.lits, b - a) and proves(p.lits, t), 'ThreadWorkRange|ordered',
                     f'{f.where()}: a range that ends before it starts, or a negative thread number, is accepted')
