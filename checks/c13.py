"""C13: a callback that may be absent is only invoked where it is known to be present, and its absence changes nothing else."""
import re

from closures import View
from loops import erase
from sa import written_ops
from val import V

CALL = re.compile(r'^std::function<.*>::operator\(\)$|^std::(__)?invoke<')
TEST = re.compile(r'^std::function<.*>::operator bool$')
CMP = re.compile(r'^std::operator([!=])=<')
COPY = re.compile(r'^std::function<.*>::(function|operator=)(<.*>)?$')
DTOR = re.compile(r'^std::function<.*>::~function$')
SWAP = re.compile(r'^std::function<.*>::swap$|^std::swap<std::function')
LOGGER = re.compile(r'^std::function<void ?\(std::(__cxx11::)?(basic_string<char[^()]*>|string) const&\)>::')

# role of each argument that may be absent, by position in the public signature (the result and state slots counted by name)
ENTRY = {
    'RRTPlanMultiPath': {'state_added_callback_fn': 4, 'goal_reached_callback_fn': 6},
    'RRTPlanSinglePath': {'state_added_callback_fn': 4, 'goal_reached_callback_fn': 6},
    'BiRRTPlanMultiPath': {'state_added_callback_fn': 7, 'goal_bridge_callback_fn': 9},
    'BiRRTPlanSinglePath': {'state_added_callback_fn': 7, 'goal_bridge_callback_fn': 9},
    'PlanTaskStateSequence': {'state_heuristic_fn': 3},
    'GetNextPrimitiveToExecute': {'state_heuristic_fn': 3},
    'PerformSingleTaskExecution': {'state_heuristic_fn': 4, 'user_pre_execution_callback_fn': 7, 'user_post_execution_callback_fn': 8,
                                   'user_post_outcome_callback_fn': 9},
    'ClusterWeighted': {'logging_fn': 8},
    'Cluster': {'logging_fn': 7},
    'ClampValueAndLog': {'logging_fn': 3},
    'SpreadValueAndLog': {'logging_fn': 4},
    'CheckAlignment': {'logging_fn': 2},
}
KEEP = ['PlanMultiPath', 'PerformAstarSearch', 'ClusterWeighted', 'PlanTaskStateSequence', 'GetNextPrimitiveToExecute',
        'PerformSingleTaskExecution', 'ExtractSolutionPath']
ROLE = {'goal_reached_callback_fn': 'goal', 'goal_bridge_callback_fn': 'goal'}


def base(q):
    q = q.split('<')[0] if not q.startswith('~') else q
    return q.split('::')[-1]


def run(c):
    c.rule('guarded', 'on every path to an invocation of a callback that may be absent, a test found it present (or it was replaced by one that is)')
    c.rule('rest', 'what depends on a presence test is the invocation alone: no other effect, failure or result is lost when the callback is absent')
    c.rule('used', 'every entry point invokes each optional callback it is given, or hands it on in the same role')
    names = '|'.join(ENTRY)
    found = set()
    for unit, extra in (('rrt.cpp', []), ('callbacks.cpp', [r'::OnScopeExit::', r'::ActionPrimitiveCollection<.*>::\w+$'])):
        m = c.work.load(unit, [rf'::({names})<[^(]*$', rf"::({names})<[^(]*\(.*::operator\(\)(\(|$)"] + extra, keep=KEEP)
        bodies = {}
        for f in m.fns:
            if f.qual.endswith('::operator()'):
                bodies[f.qual[:-12]] = f
        for f in m.fns:
            if f in bodies.values():
                continue
            n = re.sub(r'<.*', '', f.qual).split('::')[-1] if '<' in f.qual and 'ActionPrimitiveCollection' not in f.qual else f.qual.split('::')[-1]
            first = 1 if f.blocks and sret(f) else 0
            opt = {}
            for role, k in ENTRY.get(n, {}).items():
                opt[(('arg', k + first), 0)] = role
            if n in ENTRY:
                found.add(n)
            if 'OnScopeExit' in f.qual:
                if n != '~OnScopeExit':
                    continue
                opt[(('arg', 0), 0)] = 'on_scope_exit_'
            Fn(c, m, f, opt, bodies).run(n in ENTRY)
    c.ob('used', not set(ENTRY) - found, 'entry points', f'entry points not found: {sorted(set(ENTRY) - found)}', readable=False)
    c.need('obligations:guarded', 12)
    c.need('obligations:used', 12)


def sret(f):
    return bool(f.params and f.params[0].get('sret'))


class Fn:
    def __init__(self, c, m, f, opt, bodies, creator=None, closure=None):
        self.c, self.m, self.f, self.opt, self.bodies = c, m, f, dict(opt), bodies
        self.v = V(f)
        self.view = View(f) if creator is None else View(f, creator, closure)
        self.own = creator is None
        self.used = {}

    # ------------------------------------------------ places
    def place(self, ref):
        l = self.v.loc(ref)
        if l is None:
            return None
        t = self.view.T(l)
        if self.own and t is not None and t[0][0] == 'O':
            t = (('arg', t[0][1]), t[1])
        elif not self.own:
            if t[0][0] == 'O':
                t = (('arg', t[0][1]), t[1])
            elif t[0][0] == 'own':
                t = (('own', t[0][1]), t[1])
        return t

    def kind(self, i):
        """('call'|'test'|'cmp'|'copy'|...), place of the object"""
        if i.op not in ('call', 'invoke') or not i.callee:
            return None, None
        q = i.callee
        if CALL.search(q):
            return 'call', self.place(i.ops[1 if i.sret else 0])
        if TEST.search(q):
            return 'test', self.place(i.ops[0])
        if CMP.search(q) and 'nullptr_t' in (i.cd or '') and 'std::function<' in (i.cd or ''):
            return 'cmp', self.place(i.ops[1] if i.ops[0][0] in ('null', 'n') else i.ops[0])
        if COPY.search(q):
            return 'copy', self.place(i.ops[0])
        if DTOR.search(q):
            return 'dtor', self.place(i.ops[0])
        if SWAP.search(q):
            return 'swap', self.place(i.ops[0])
        return None, None

    # ------------------------------------------------ run
    def run(self, entry):
        f = self.f
        self.c.saw(f)
        # logging functions are optional wherever they are kept
        for i in f.insts():
            k, p = self.kind(i)
            if k in ('call', 'test') and p is not None and LOGGER.search(i.callee) and p[0][0] in ('arg', 'own', 'deref'):
                self.opt.setdefault(p, 'logging function')
        self.flow()
        self.regions()
        for i in f.insts():
            self.handed(i)
        if entry:
            for p, role in self.opt.items():
                if p[0][0] == 'arg' and p[1] == 0:
                    self.c.ob('used', p in self.used, f'{base(f.qual)}|{role}', f'{f.where()}: {role} is neither invoked nor handed on')
        return self.used

    # ------------------------------------------------ presence along every path
    def flow(self):
        f = self.f
        IN = {0: {p: 'maybe' for p in self.opt}}
        work = [0]
        while work:
            b = work.pop()
            st = dict(IN[b])
            for i in f.blocks[b]:
                self.step(i, st)
            for s in f.succs[b]:
                n = dict(st)
                self.refine(b, s, n)
                old = IN.get(s)
                if old is None:
                    IN[s] = n
                    work.append(s)
                else:
                    j = {p: (x if n.get(p) == x else 'maybe') for p, x in old.items()}
                    for p, x in n.items():
                        if p not in old:
                            j[p] = 'maybe'
                    if j != old:
                        IN[s] = j
                        work.append(s)
        f_live = [b for b in IN]
        for b in sorted(f_live):
            st = dict(IN[b])
            for i in f.blocks[b]:
                k, p = self.kind(i)
                if k == 'call' and p in st:
                    role = self.opt.get(p, 'a copy of a callback')
                    self.used.setdefault(p, i)
                    ok = st[p] == 'set' or self.known(i, p)
                    self.c.ob('guarded', ok, f'{base(f.qual)}|{role}',
                              f'{i.where()}: {role} may be absent here and is invoked without a test that it is present',
                              readable=not self.murky(p))
                    if ok:
                        self.c.sample(f'{i.where()}: {role} invoked only when present')
                self.step(i, st)

    def step(self, i, st):
        k, p = self.kind(i)
        if k == 'copy' and p is not None:
            params = i.cd[i.cd.rfind('('):] if i.cd else ''
            src = self.place(i.ops[1]) if len(i.ops) > 1 and i.ops[1][0] != 'n' else None
            if len(i.ops) == 1 or 'nullptr_t' in (i.cd or '') or (len(i.ops) > 1 and i.ops[1][0] == 'n'):
                st[p] = 'unset'
            elif src is not None and src in st:
                st[p] = st[src]
                if src in self.opt:
                    st[('same', p)] = src
                if p[0][0] == 'alloca' or p[0][0] == 'local':
                    self.used.setdefault(src, i)
            elif p[0][0] in ('alloca', 'local') or p in st:
                st[p] = 'set'
        elif k in ('dtor',) and p in st and p not in self.opt:
            st.pop(p)
        elif k == 'swap':
            for x in (i.ops[0], i.ops[1]):
                q = self.place(x)
                if q in st:
                    st[q] = 'maybe'

    def literal(self, ref, pol):
        """(place, present?) a condition literal says"""
        i = self.f.get(ref) if ref and ref[0] == 'i' else None
        if i is None:
            return None
        if i.op in ('icmp',) and len(i.ops) == 2 and i.ops[1][0] == 'c' and i.ops[1][1] == 0:
            return self.literal(i.ops[0], pol if i.pred == 'ne' else not pol)
        if i.op in ('trunc', 'zext', 'freeze'):
            return self.literal(i.ops[0], pol)
        k, p = self.kind(i)
        if k == 'test':
            return p, pol
        if k == 'cmp':
            return p, pol == (CMP.search(i.callee).group(1) == '!')
        return None

    def refine(self, b, s, st):
        e = self.f.edge_cond(b, s)
        if e is None:
            return
        lits = []
        self.f._expand(e, lits)
        for ref, pol, _ in lits:
            if isinstance(ref, tuple) and ref and ref[0] == 'sw':
                continue
            r = self.literal(ref, pol)
            if r and r[0] in st:
                st[r[0]] = 'set' if r[1] else 'unset'
                src = st.get(('same', r[0]))
                if src in st:
                    st[src] = st[r[0]]

    def known(self, i, p):
        """a dominating condition says so, and the object is not one that is reassigned here"""
        if p not in self.opt:
            return False
        for ref, pol, _ in self.f.facts(i.block):
            if isinstance(ref, tuple) and ref and ref[0] == 'sw':
                continue
            r = self.literal(ref, pol)
            if r and r == (p, True):
                return True
        return False

    def murky(self, p):
        """the presence of p is tested, but the outcome is stored or merged instead of branched on"""
        f = self.f
        for i in f.insts():
            k, q = self.kind(i)
            if k in ('test', 'cmp') and q == p:
                todo, seen = [i], set()
                while todo:
                    x = todo.pop()
                    for u in f.uses.get(('i', x.id), []):
                        if u.id in seen:
                            continue
                        seen.add(u.id)
                        if u.op in ('xor', 'select', 'and', 'or', 'icmp', 'zext', 'trunc', 'freeze'):
                            todo.append(u)
                        elif u.op in ('phi', 'store', 'ret') or u.op in ('call', 'invoke'):
                            return True
        return False

    # ------------------------------------------------ what depends on presence
    def regions(self):
        f = self.f
        live = {b for b in f.live()}
        exits = set()
        rets = {b for b in live if f.blocks[b][-1].op == 'ret'}
        back = set(rets)
        todo = list(rets)
        while todo:
            b = todo.pop()
            for p in f.preds[b]:
                if p in live and p not in back:
                    back.add(p)
                    todo.append(p)
        pdom = postdom(f, back, rets)
        for b in sorted(live):
            t = f.blocks[b][-1]
            if t.op != 'br' or len(t.ops) != 3 or t.ops[1][1] == t.ops[2][1]:
                continue
            r = None
            for s in (t.ops[2][1], t.ops[1][1]):
                lits = []
                f._expand(f.edge_cond(b, s), lits)
                for ref, pol, _ in lits:
                    q = self.literal(ref, pol)
                    if q and q[0] in self.opt:
                        r = (q[0], s if q[1] else (t.ops[1][1] if s == t.ops[2][1] else t.ops[2][1]))
            if r is None:
                continue
            p, present = r
            absent = t.ops[1][1] if present == t.ops[2][1] else t.ops[2][1]
            J = pdom.get(b)
            role = self.opt[p]
            A, B = self.region(present, J), self.region(absent, J)
            ea, eb = self.effects(A - B, A | B, J), self.effects(B - A, A | B, J)
            if J is not None:
                ea += self.merged(J, b, present, absent, A, B)
            else:
                ea += self.returned(A, B, p)
            key = f'{base(f.qual)}|{role}'
            na, nb = sorted(e[0] for e in ea), sorted(e[0] for e in eb)
            bad = ea + eb
            self.c.ob('rest', not bad, key, f'{t.where()}: this depends on whether {role} was supplied: ' + '; '.join(sorted({e[1] for e in bad}))[:300],
                      readable=not (na and na == nb) and any(e[2] for e in bad))

    def region(self, s, J):
        f, seen, todo = self.f, set(), [s]
        if s == J:
            return seen
        while todo:
            b = todo.pop()
            if b in seen or b == J:
                continue
            seen.add(b)
            todo += f.succs[b]
        return seen

    def local(self, ref, R):
        """place only ever touched inside the region"""
        l = self.v.loc(ref)
        if l is None or l[0][0] != 'alloca':
            return False
        for u in self.f.alloca_uses(l[0][1]):
            i = u[0] if isinstance(u, tuple) else u
            if i.block in R or (i.cn or '').startswith('llvm.') or i.op in ('getelementptr', 'bitcast'):
                continue
            n = re.sub(r'<.*>', '', i.callee or '').split('::')
            if len(n) > 1 and i.ops and self.v.loc(i.ops[0]) == l and (n[-1].startswith('~') or n[-1] == n[-2] and len(i.ops) == 1):
                continue        # created and destroyed outside, never read there
            return False
        return True

    def effects(self, blocks, R, J):
        """[(name, text, readable)] effects in blocks beyond invoking a callback"""
        out = []
        for b in blocks:
            for i in self.f.blocks[b]:
                if i.op == 'store':
                    if not self.local(i.ops[1], R):
                        out.append(('store', f'{i.where()} writes a value', True))
                elif i.op in ('call', 'invoke'):
                    if (i.cn or '').startswith('llvm.') or self.v.noop(i):
                        continue
                    k, p = self.kind(i)
                    if k == 'call' and p in self.opt:
                        continue
                    if k in ('test', 'cmp', 'copy', 'dtor'):
                        continue
                    n = i.callee or ''
                    if re.search(r'__cxa_(throw|rethrow)|^std::__throw', i.cn or '') or i.cn == '__cxa_throw':
                        out.append(('throw', f'{i.where()} fails', True))
                        continue
                    if not n:
                        out.append(('indirect', f'{i.where()} calls an unknown function', False))
                        continue
                    if re.search(r'__cxa_(allocate|free)_exception', i.cn or ''):
                        continue
                    w = [i.ops[k] for k in written_ops(i) if self.f.is_ptr(i.ops[k])]
                    bad = [x for x in w if not self.local(x, R)]
                    if bad:
                        out.append((n[-80:], f'{i.where()} calls {short(n)}', True))
                elif i.op == 'resume':
                    pass
                elif i.op == 'ret' and J is None:
                    pass
        return out

    def merged(self, J, b, present, absent, A, B):
        """values that differ after the join"""
        out = []
        for i in self.f.blocks[J]:
            if i.op != 'phi':
                break
            a = {repr(x) for x, p in i.inc if p in A or (p == b and present == J)}
            z = {repr(x) for x, p in i.inc if p in B or (p == b and absent == J)}
            if a and z and a != z:
                vals = [x for x, p in i.inc if p in A or p == b]
                if any(self.from_call(x) for x in vals):
                    continue
                out.append(('value', f'{self.f.blocks[b][-1].where()} decides a value used afterwards', True))
        return out

    def returned(self, A, B, p):
        return []

    def from_call(self, ref):
        i = self.f.get(ref) if ref[0] == 'i' else None
        return i is not None and self.kind(i)[0] == 'call'

    # ------------------------------------------------ handing on
    def handed(self, i):
        if i.op not in ('call', 'invoke') or not i.callee or self.kind(i)[0] not in (None, 'copy'):
            return
        f = self.f
        # a closure made into a function object, or handed to a library function
        for k, o in enumerate(i.ops):
            l = self.v.loc(o)
            if l is None or l[0][0] != 'alloca' or not self.own:
                continue
            for q, body in self.bodies.items():
                if any(q + x in i.callee for x in (',', '>', '&', ' const')) or i.callee == q + '::operator()' and k == (1 if i.sret else 0):
                    if not any(x[0] == erase(l)[0] for x in self.view.slots) and not any(
                            self.kind(j)[0] == 'copy' and (self.v.loc(j.ops[0]) or (0,))[0] == l[0] for j in f.insts()):
                        continue
                    opt = dict(self.opt)
                    for j in f.insts():         # callbacks captured by copy
                        if self.kind(j)[0] == 'copy' and len(j.ops) > 1:
                            d, src = self.v.loc(j.ops[0]), self.place(j.ops[1])
                            if d is not None and d[0] == l[0] and src in self.opt:
                                opt[(('own', 0), d[1] - l[1])] = self.opt[src]
                    sub = Fn(self.c, self.m, body, opt, {}, self.view, erase(l))
                    for p in sub.run(False):
                        if p in self.opt:
                            self.used.setdefault(p, i)
        g = re.sub(r'<.*', '', i.callee).split('::')[-1]
        if g not in ENTRY:
            return
        first = 1 if i.sret else 0
        for k, o in enumerate(i.ops):
            p = self.place(o)
            if p not in self.opt:
                continue
            role = next((r for r, n in ENTRY[g].items() if n + first == k), None)
            mine = self.opt[p]
            self.c.ob('used', role is not None and ROLE.get(role, role) == ROLE.get(mine, mine), f'{base(f.qual)}|{mine} to {g}',
                      f'{i.where()}: {mine} is handed to {g} as ' + (role or 'an argument that may not be absent'))
            self.used.setdefault(p, i)


def short(n):
    n = re.sub(r'common_robotics_utilities::(v\d+::)?', '', n)
    n = re.sub(r'<.*>', '<>', n)
    return n[-80:]


def postdom(f, nodes, rets):
    """immediate postdominators over the blocks that can return; None = the exit"""
    END = -1
    order, seen = [], set()
    succ = {b: [s for s in f.succs[b] if s in nodes] + ([END] if b in rets else []) for b in nodes}
    pd = {b: None for b in nodes}
    full = set(nodes) | {END}
    S = {b: set(full) for b in nodes}
    S[END] = {END}
    ch = True
    while ch:
        ch = False
        for b in nodes:
            n = set.intersection(*[S[s] for s in succ[b]]) | {b} if succ[b] else {b}
            if n != S[b]:
                S[b] = n
                ch = True
    out = {}
    for b in nodes:
        strict = S[b] - {b}
        # the immediate one is postdominated by all others
        for x in strict:
            if strict <= S[x]:
                out[b] = None if x == END else x
                break
    return out
