"""C07: optional-like values are read only when present; presence and stored value change together."""
import re

import sa
from codec import P, atom
from flow import proves
from loops import erase
from paths import negate, paths, segments
from val import V, fz, subst, tsize, unfz

UNIT = 'maybe.cpp'
ROOTS = r'^(Ops|Mutable|Truth|Resets)<|^(own|ownconst|ref|refconst|grid|cells|read)_\w+(\(|$)'
A0, A1 = ('arg', 0), ('arg', 1)
VALUE = {'own_copy_value': 'own', 'own_move_value': 'own', 'ownconst_copy_value': 'ownconst', 'ref_value': 'ref', 'refconst_value': 'refconst',
         'grid_success': 'grid', 'cells_chunk': 'cells', 'cells_cell': 'cells', 'read_make': 'read'}
EMPTY = {'grid_outside': 'grid', 'grid_prohibited': 'grid', 'grid_unknown': 'grid', 'cells_none': 'cells', 'cells_prohibited': 'cells'}
STATUS = {'grid_status': 'grid', 'cells_status': 'cells'}
NAMES = {'OwningMaybe<State>': 'own', 'OwningMaybe<State const>': 'ownconst', 'OwningMaybe<const State>': 'ownconst',
         'ReferencingMaybe<State>': 'ref', 'ReferencingMaybe<State const>': 'refconst', 'ReferencingMaybe<const State>': 'refconst',
         'GridQuery<State>': 'grid', 'DynamicSpatialHashedGridQuery<State>': 'cells', 'Deserialized<State>': 'read'}
CTOR = re.compile(r'^State::State$')
DTOR = re.compile(r'^State::~State$')
ASSIGN = re.compile(r'^State::operator=$')


def run(c):
    c.rule('access', 'an accessor returns the stored value on paths where the presence test succeeded, and throws on all others')
    c.rule('test', 'every way of asking for presence gives the same answer')
    c.rule('lifetime', 'the stored value is constructed only when there is none, destroyed and assigned only when there is one, on every path '
                       'and for both operands')
    c.rule('presence', 'after each operation the flag says present exactly when a value is alive, and agrees with the source (copies, moves) '
                       'or the operation (emptied, given a value)')
    c.rule('source', 'the value copied or moved in is the one of the source')
    c.rule('throws', 'when an operation on the value type throws half way, the flag still agrees with what is alive')
    c.rule('status', 'a query carries a success status exactly when it carries a value')
    m = c.work.load(UNIT, ROOTS, unwind=True)
    types, ops = {}, []
    for f in m.fns:
        n = f.short().split('(')[0]
        x = re.match(r'(Ops|Mutable|Truth|Resets)<(.*)>::(\w+)$', n)
        if x:
            t = NAMES.get(re.sub(r'^.*::', '', x.group(2)).strip())
            if t is None:
                t = next((v for k, v in NAMES.items() if x.group(2).replace(' ', '').endswith(k.replace(' ', ''))), None)
            if t is None:
                raise sa.Broken(f'unknown type {n}')
            ops.append((t, x.group(3), f))
        elif n in VALUE or n in EMPTY or n in STATUS or n in ('read_count', 'read_write'):
            t = VALUE.get(n) or EMPTY.get(n) or STATUS.get(n) or 'read'
            ops.append((t, 'write' if n == 'read_write' else n, f))
    for t, n, f in ops:
        if n == 'has':
            c.saw(f)
            T = types[t] = Type(t)
            T.learn(c, f)
    if set(types) != set(NAMES.values()):
        raise sa.Broken('missing types: ' + str(set(NAMES.values()) - set(types)))
    for t, n, f in ops:
        if n in ('read', 'empty_construct', *STATUS):
            types[t].layout(f, n)
    for t, n, f in ops:
        c.saw(f)
        T = types[t]
        if T.lit is None:
            c.unsure('presence', f'{t}|{n}', f'{f.where()}: the presence test is not a single comparison')
            continue
        if n in ('read', 'write', 'read_count'):
            access(c, T, f, n)
        elif n == 'truth':
            r = test(f)
            c.ob('test', r == T.lit, f'{t}|bool', f'{f.where()}: the conversion to bool disagrees with HasValue', readable=r is not None)
        elif n not in ('has', *STATUS):
            Op(c, T, n, f).check()
    for T in types.values():
        for k, vs in T.statuses.items():
            c.ob('status', len({p for p, _ in vs}) == 1, f'{T.name}|{k}', 'the same status stands for present and absent: ' + ', '.join(n for _, n in vs))
    c.count('operations', len(ops))
    c.need('operations', 70)


def test(f):
    """the literal a boolean function on one object answers with, or None"""
    ps = [s for s in segments(f) or [] if s.stop == ('ret',)]
    if len(ps) == 1:
        o = ps[0].outcomes()
        for pol, extra in o:
            if pol and len(extra) == 1:
                return erase(extra[0])
        return None
    yes = [s for s in ps if isinstance(s.ret(), P) and s.ret().const() not in (None, 0)]
    no = [s for s in ps if isinstance(s.ret(), P) and s.ret().const() == 0]
    if len(yes) == 1 and len(no) == 1 and len(ps) == 2 and len(yes[0].lits) == 1 and [negate(x) for x in no[0].lits] == list(yes[0].lits):
        return erase(yes[0].lits[0])
    return None


class Type:
    def __init__(self, name):
        self.name, self.lit, self.voff, self.kind, self.status, self.statuses = name, None, None, None, None, {}
        self.fields = {}

    def learn(self, c, f):
        self.lit = test(f)
        if self.lit and self.lit[0] not in ('eq', 'ne', 'ge', 'uge'):
            self.lit = None
        for i in f.insts():
            if i.op == 'load':
                l = V(f).loc(i.ops[0])
                if l and l[0] == A0:
                    self.fields[l] = tsize(i.ty) or 8
        c.count('types')

    def layout(self, f, n):
        ss = segments(f) or []
        if n == 'read':
            for s in ss:
                if s.stop != ('ret',):
                    continue
                r = s.ret()
                if isinstance(r, tuple) and r[0] == 'ptr' and r[1][0] == A0:
                    self.voff = r[1][1]
                    self.kind = self.kind or 'owned'
                else:
                    self.kind = 'ref'
        elif n == 'empty_construct':
            if any(CTOR.match(i.callee or '') and s.v.loc(i.ops[0]) and s.v.loc(i.ops[0])[0] == A0 for s in ss for i in s.v.on_path(('call', 'invoke'))):
                self.kind = 'always'
        else:
            for i in f.insts():
                if i.op == 'load':
                    l = V(f).loc(i.ops[0])
                    if l and l[0] == A0:
                        self.status = (l, tsize(i.ty) or 1)

    def before(self, k):
        """presence literal of argument k"""
        return rename(self.lit, k)

    def after(self, s, k=0):
        """presence literal of argument k in terms of the state before, or True / False"""
        table = {}
        for l, n in self.fields.items():
            l = (('arg', k), l[1])
            v = s.v.at_end(l, n, s.v.path[-1])
            table[('m', l)] = v
        return put(rename(self.lit, k), table)


def rename(t, k):
    if isinstance(t, tuple):
        if t == A0:
            return ('arg', k)
        if t and t[0] == 'P':
            return fz(unfz(('P', tuple((tuple(rename(a, k) for a in key), v) for key, v in t[1]))))
        return tuple(rename(x, k) for x in t)
    return t


def put(lit, table):
    """literal with memory contents filled in; True / False when that decides it"""
    p = unfz(lit[1])
    for a, v in table.items():
        v = erase(v) if isinstance(v, tuple) else v
        if isinstance(v, tuple) and v[0] == 'ptr':
            if lit[0] in ('eq', 'ne') and a in [k[0] for k in p.t if k]:
                return lit[0] == 'ne'
            return None
        if isinstance(v, tuple):
            v = atom(v)
        if v is None:
            return None
        v = unfz(erase(fz(v)))
        if not isinstance(v, P):
            return None
        p = subst(p, {a: v})
    k = p.const()
    if k is not None:
        return {'eq': k == 0, 'ne': k != 0, 'ge': k >= 0, 'uge': k >= 0}.get(lit[0])
    return (lit[0], fz(p))


def decided(lits, lit):
    if lit is None or isinstance(lit, bool):
        return lit
    lits = [erase(x) for x in lits]
    if lit in lits:
        return True
    if negate(lit) in lits:
        return False
    if lit[0] in ('eq', 'ne'):
        p = unfz(lit[1])
        for x in lits:
            if x[0] == 'eq' and x[1][0] == 'P':
                for g in (1, -1):
                    d = (p - unfz(x[1]) * P(g)).const()
                    if d is not None:
                        return (d == 0) == (lit[0] == 'eq')
            if x[0] == 'ne' and x[1][0] == 'P' and fz(P(0) - unfz(x[1])) == lit[1]:
                return lit[0] == 'ne'
    if lit[0] in ('ge', 'uge'):
        p = unfz(lit[1])
        for x in lits:
            if x[0] in ('ne', 'eq') and x[1][0] == 'P' and lit[0] == 'uge':
                # x - 1 >= 0 (unsigned) is x != 0
                for g in (1, -1):
                    if (p + P(1) - unfz(x[1]) * P(g)).const() == 0:
                        return x[0] == 'ne'
    return None


def thrown(s):
    return s.stop == ('throw',)


def infeasible(s):
    """the path takes a local object for an argument"""
    for x in s.lits:
        if x[0] == 'eq' and x[1][0] == 'P':
            t = str(x[1])
            if "'alloca'" in t and "('arg'," in t and "'ptr'" in t and "('m'" not in t:
                return True
    return False


def access(c, T, f, n):
    rets = 0
    for s in segments(f, throws=True) or []:
        here = decided(s.lits, T.before(0))
        if thrown(s):
            c.ob('access', here is not True, f'{T.name}|{n}|refused', f'{f.where()}: throws although a value is present')
            continue
        if s.stop != ('ret',):
            c.unsure('access', f'{T.name}|{n}', f'{f.where()}: loops')
            continue
        rets += 1
        c.ob('access', here is True, f'{T.name}|{n}|unguarded', f'{f.where()}: reads the value on a path where it was not tested to be present')
        r = s.ret()
        if n == 'read_count':
            ok = isinstance(r, P) and any(erase(r) == atom(('m', l)) for l in T.fields)
        elif T.kind == 'ref':
            ok = isinstance(r, (P, tuple)) and any(erase(r) in (atom(('m', l)), ('m', l)) for l in T.fields)
        else:
            ok = isinstance(r, tuple) and r[0] == 'ptr' and r[1] == (A0, T.voff)
        c.ob('access', ok, f'{T.name}|{n}|what', f'{f.where()}: does not return the stored value')
    c.ob('access', rets > 0, f'{T.name}|{n}|never', f'{f.where()}: never returns')


class Op:
    """one wrapped operation: what happens to the values and flags of the target (arg 0) and the source (arg 1)"""
    def __init__(self, c, T, n, f):
        self.c, self.T, self.n, self.f = c, T, n, f
        self.name = f'{T.name}|{n}'
        self.raw = n.endswith('construct') or n in VALUE or n in EMPTY
        self.two = n.startswith(('copy_', 'move_'))

    def check(self):
        c, T, f = self.c, self.T, self.f
        ss = segments(f, throws=True)
        if ss is None:
            return c.unsure('presence', self.name, f'{f.where()}: too many paths')
        for s in ss:
            if infeasible(s):
                continue
            if s.stop[0] == 'loop' or s.start:
                c.unsure('presence', self.name, f'{f.where()}: loops')
                continue
            self.path(s)

    def path(self, s):
        c, T, f, n = self.c, self.T, self.f, self.n
        same = self.aliased(s)
        objs = [0, 1] if self.two else [0]
        owned = T.kind == 'owned'
        alive = {}
        for k in objs:
            alive[k] = decided(s.lits, T.before(k)) if owned else True
        if self.raw:
            alive[0] = False
        if same is True and self.two:
            alive[1] = alive[0]
        start = dict(alive)
        content = {(A0, T.voff): 'self', (A1, T.voff): 'other'} if not (n in VALUE) else {(A1, 0): 'given'}
        flags = {}
        if T.kind != 'ref':
            for i in s.v.on_path(('call', 'invoke', 'store')):
                if i.op == 'store':
                    l = s.v.loc(i.ops[1])
                    if l and (A0, l[1]) in T.fields and l[0] in (A0, A1):
                        flags.setdefault(l, s.v.val(i.ops[0]))
                        flags[l] = s.v.val(i.ops[0])
                    continue
                cal = i.callee or ''
                kind = 'ctor' if CTOR.match(cal) else 'dtor' if DTOR.match(cal) else 'assign' if ASSIGN.match(cal) else None
                if kind != 'dtor' and not self.raw and owned and i.op == 'call' and not (i.cn or '').startswith(('llvm.', '__cxa')):
                    for k in objs:
                        p = self.current(T, s, k, flags)
                        c.ob('throws', not (alive[k] is False and p is True), f'{self.name}|{"target" if k == 0 else "source"}',
                             f'{i.where()}: when this throws, the object says it holds a value that was destroyed or never made')
                if not kind:
                    continue
                l = s.v.loc(i.ops[0])
                src = s.v.loc(i.ops[-1]) if len(i.ops) > 1 else None
                if l is None:
                    c.unsure('lifetime', self.name, f'{i.where()}: object not recognised')
                    continue
                k = 0 if l == (A0, T.voff) else 1 if l == (A1, T.voff) and self.two else None
                if k is not None:
                    if owned or self.raw and k == 0:
                        want = kind != 'ctor'
                        if alive[k] is None and self.tested(s, k):
                            c.unsure('lifetime', f'{self.name}|{kind}', f'{i.where()}: not known whether there is a value here')
                        else:
                            c.ob('lifetime', alive[k] == want, f'{self.name}|{kind}',
                                 f'{i.where()}: the value is ' + {'ctor': 'constructed over a living one', 'dtor': 'destroyed although there is none',
                                                                 'assign': 'assigned to although there is none'}[kind])
                    alive[k] = kind != 'dtor'
                    if kind == 'dtor' and self.two and same is None and k == 0:
                        if not self.raw:
                            c.ob('lifetime', False, f'{self.name}|self', f'{i.where()}: assigning an object to itself destroys the value before it is read')
                if kind != 'dtor' and src is not None:
                    content[l] = content.get(src)
                elif kind == 'ctor':
                    content[l] = 'fresh'
        if thrown(s):
            for k in objs:
                if owned and not (k == 0 and self.raw):
                    p = self.current(T, s, k, flags)
                    c.ob('throws', p is None or alive[k] is None or p == alive[k] or not flags and alive[k] == start[k], f'{self.name}|left',
                         f'{f.where()}: leaves by an exception with a flag that disagrees with what is alive')
            return
        after = T.after(s)
        now = decided(s.lits, after)
        if n == 'destroy':
            if owned:
                c.ob('lifetime', alive[0] is False, f'{self.name}|leak', f'{f.where()}: the value is not destroyed', readable=alive[0] is not None or not self.tested(s, 0))
            return
        if owned:
            for k in objs:
                p = decided(s.lits, T.after(s, k))
                if alive[k] is None and start[k] is None and T.after(s, k) == T.before(k):
                    c.ob('presence', True, f'{self.name}|untouched', '')
                elif alive[k] is None and p is not None and not self.tested(s, k):
                    c.ob('presence', False, f'{self.name}|{"target" if k == 0 else "source"}', f'{f.where()}: the flag is set to {"present" if p else "absent"} without looking whether a value is alive')
                elif p is None or alive[k] is None:
                    c.unsure('presence', f'{self.name}|{k}', f'{f.where()}: presence afterwards not known')
                else:
                    c.ob('presence', p == alive[k], f'{self.name}|{"target" if k == 0 else "source"}',
                         f'{f.where()}: afterwards the flag says {"present" if p else "absent"}, but the value is {"alive" if alive[k] else "gone"}')
        # agreement with the source or the operation
        if self.two:
            if same is True:
                self.unchanged(s, alive, start, after, now)
                return
            b = T.before(1)
            was = decided(s.lits, b)
            ok = after == b or after is not None and now is not None and now == was
            c.ob('presence', ok, f'{self.name}|as source', f'{f.where()}: afterwards the target is not present exactly when the source was',
                 readable=after is not None and (now is not None or not isinstance(after, bool)))
            if T.kind == 'always' or owned and was is True:
                got = content.get((A0, T.voff))
                c.ob('source', got == 'other', f'{self.name}|value', f'{f.where()}: the value does not come from the source ({got})')
            if T.status:
                l, w = T.status
                v = s.v.at_end(l, w, s.v.path[-1])
                c.ob('status', isinstance(v, P) and erase(v) == atom(('m', (A1, l[1]))) or v == ('m', (A1, l[1])), f'{self.name}|status',
                     f'{f.where()}: the status is not the one of the source')
            return
        want = n in VALUE
        c.ob('presence', now is want, f'{self.name}|result', f'{f.where()}: afterwards the object is {"present" if now else "absent" if now is False else "?"}, '
             f'it should be {"present" if want else "absent"}', readable=now is not None or after == T.before(0))
        if want and T.kind in ('owned', 'always'):
            got = content.get((A0, T.voff))
            c.ob('source', got == 'given', f'{self.name}|value', f'{f.where()}: the value stored is not the one given ({got})')
        if want and T.kind == 'ref':
            vs = [s.v.at_end(l, w, s.v.path[-1]) for l, w in T.fields.items()]
            c.ob('source', ('ptr', (A1, 0)) in vs, f'{self.name}|value', f'{f.where()}: the reference stored is not to the value given')
        if T.status:
            l, w = T.status
            v = s.v.at_end(l, w, s.v.path[-1])
            k = v.const() if isinstance(v, P) else None
            if k is None and (v == ('m', l) or isinstance(v, P) and erase(v) == atom(('m', l))):
                c.ob('status', False, f'{self.name}|status', f'{f.where()}: the status is left as it was')
            elif k is None or now is None:
                c.unsure('status', self.name, f'{f.where()}: status not a constant')
            else:
                T.statuses.setdefault(k, []).append((now, n))

    def tested(self, s, k):
        """the path looks at the flag of argument k"""
        return any(str((('arg', k), l[1]))[1:-1] in str(x) for x in s.lits for l in self.T.fields)

    def unchanged(self, s, alive, start, after, now):
        c, T, f = self.c, self.T, self.f
        b = T.before(0)
        if T.kind == 'owned':
            c.ob('presence', alive[0] == start[0], f'{self.name}|self', f'{f.where()}: assigning an object to itself loses its value')
        c.ob('presence', after == b or now is not None and now == decided(s.lits, b) or after == T.before(1), f'{self.name}|self flag', f'{f.where()}: assigning an object to itself changes its presence')

    def aliased(self, s):
        """True / False: the path has established that target and source are (not) the same object"""
        if not self.two:
            return False
        for x in s.lits:
            if x[0] in ('eq', 'ne') and x[1][0] == 'P' and "('arg', 0), 0" in str(x[1]) and "('arg', 1), 0" in str(x[1]) and "'ptr'" in str(x[1]) and "'m'" not in str(x[1]):
                return x[0] == 'eq'
        return False if self.raw else None

    def current(self, T, s, k, flags):
        """presence of argument k as its flag stands now"""
        table = {('m', (('arg', k), l[1])): flags[(('arg', k), l[1])] for l in T.fields if (('arg', k), l[1]) in flags}
        return decided(s.lits, put(T.before(k), table) if table else T.before(k))
