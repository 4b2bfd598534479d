"""C17: best-first searches take the cheapest entry, expand a node once per improvement, keep predecessor and cost together, and report
paths and costs from that record."""
import re

from codec import P, atom
from flow import atom1, atoms_in
from lists import method
from loops import Loops, calls_in, callname, erase
from paths import negate, paths, segments
from val import V, fz, unfz

PRE = r'^(\w+::)*'
ELEM, BPC, SWC = r'AstarPQueueElement<[^(]*>', r'BackPointerAndCostToCome<[^(]*>', r'StateWithCost<[^(]*>'
KEEP = [rf'{PRE}{x}::[~\w= ]+$' for x in (ELEM, BPC, SWC, r'AstarResult<[^(]*>', r'OwningMaybe<[^(]*>')] + \
    [rf'{PRE}ExtractAstarResult<[^(]*$', rf'{PRE}PerformAstarSearch<[^(]*$', rf'{PRE}PerformLazyAstarSearch<[^(]*$']
ACC = {'State', 'Cost', 'CostToCome', 'Value', 'BackPointer', 'RawBackPointer', 'HasBackPointer', 'Index', 'Distance', 'GetToIndex', 'GetFromIndex',
       'GetWeight', 'Path', 'PathCost'}
CLASS = re.compile(r'(AstarPQueueElement|BackPointerAndCostToCome|StateWithCost|OwningMaybe|AstarResult)<.*>::\w+$|(^|::)Edge::\w+$')
MAP = re.compile(r'unordered_map<|(^|::)map<')


def is_map(q):
    return bool(re.match(r'^std::(unordered_)?map<', q))


def params(cd):
    """parameter list of a demangled signature"""
    cd = re.sub(r' const$', '', cd or '')
    if not cd.endswith(')'):
        return []
    n, k = 0, len(cd)
    for k in range(len(cd) - 1, -1, -1):
        n += cd[k] == ')'
        n -= cd[k] == '('
        if n == 0:
            break
    out, depth, cur = [], 0, ''
    for ch in cd[k + 1:-1]:
        depth += ch in '<(['
        depth -= ch in '>)]'
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + [cur.strip()] if cur.strip() else out


class Ev:
    def __init__(self, kind, i, n, **kw):
        self.kind, self.i, self.n = kind, i, n
        self.__dict__.update(kw)

    def __repr__(self):
        return f'{self.kind}@{self.i.id}' + str({k: v for k, v in self.__dict__.items() if k not in ('kind', 'i', 'n')})[:300]


def whole_range(v, i):
    """False when a pair of iterators leaves out elements of the container it comes from"""
    a, b = v.loc(i.ops[0]), v.loc(i.ops[1])
    if a and a[0][0] == 'elem' and (a[1] != 0 or unfz(a[0][2]).t):
        return False
    if b and b[0][0] == 'deref' and "vector::end'" in repr(b[0])[:120]:
        return b[1] == 0
    if b and b[0][0] == 'elem':
        return False
    return None


def one(t):
    """tuple form of a term consisting of a single atom"""
    if isinstance(t, P):
        t = fz(t)
    if isinstance(t, tuple) and len(t) == 2 and t[0] == 'P' and len(t[1]) == 1:
        (k, v), = t[1]
        if v == 1 and len(k) == 1:
            return k[0]
    return t


def copies(f, v):
    """calls that make a local object, never assigned to, a copy of a state"""
    if hasattr(f, '_copies'):
        return f._copies
    made, other = {}, set()
    for b in f.blocks:
        for i in b:
            if i.op not in ('call', 'invoke') or not i.callee or not i.ops or not f.is_ptr(i.ops[0]):
                continue
            l = v.loc(i.ops[0])
            if l is None or l[0][0] != 'alloca' or l[1] != 0:
                continue
            m, ps = method(i.callee), params(i.cd)
            if re.search(r'^(.*::)?(\w+)::\2$', i.callee) and len(i.ops) == 2 and len(ps) == 1 and m in ps[0]:
                made.setdefault(l, []).append(i.id)
            elif not m.startswith('~') and (i.sret or m.startswith('operator=') or re.search(r'^(.*::)?(\w+)::\2$', i.callee)):
                other.add(l)
    f._copies = {x[0] for l, x in made.items() if len(x) == 1 and l not in other}
    return f._copies


class Seg:
    """a segment with its calls to the search's parts in the vocabulary of the rules"""
    def __init__(self, f, s):
        self.f, self.s = f, s
        self.start, self.stop = s.start, s.stop
        self.ren, self.ren2, self.memo = {}, {}, {}
        self.at_i = {}
        self.evs = []
        self.alias = {}
        self.tokens()
        self.events()
        self.lits = [self.lit(l) for l in s.lits]

    # ------------------------------------------------ tokens
    def tokens(self):
        f, s = self.f, self.s
        n = 0
        epoch = {}
        copied = copies(f, s.v.base)
        for b in range(len(f.blocks)):
            v = s.v if b in s.v.path else s.v.base
            for i in f.blocks[b]:
                n += 1
                if i.op not in ('call', 'invoke') or not i.callee:
                    continue
                q, m = i.callee, method(i.callee)
                tok = None
                if i.id in copied:
                    l = v.loc(i.ops[0])
                    self.alias[l] = self.key(v, i, i.ops[1])
                    self.memo.clear()
                first = 1 if i.sret else 0
                if len(i.ops) <= first:
                    continue
                try:
                    if m in ACC and CLASS.search(q):
                        tok = ('T', m) + self.place(v.loc(i.ops[first]))
                    elif is_map(q) and m in ('find', 'end', 'cend', 'count'):
                        mp = self.place(v.loc(i.ops[0]))
                        if m in ('end', 'cend'):
                            tok = ('END', mp)
                        else:
                            tok = (m.upper(), mp, self.key(v, i, i.ops[1]), epoch.get(mp, 0))
                    elif is_map(q) and m in ('operator[]', 'insert_or_assign', 'erase', 'emplace', 'insert', 'try_emplace', 'clear'):
                        if b in s.v.path:
                            mp = self.place(v.loc(i.ops[0]))
                            epoch[mp] = epoch.get(mp, 0) + 1
                    elif re.match(r'^std::(unordered_)?set<', q) and m in ('find', 'contains', 'end', 'cend'):
                        mp = self.place(v.loc(i.ops[0]))
                        tok = ('SETEND', mp) if m in ('end', 'cend') else \
                            ('SETFIND' if m == 'find' else 'MEMBER', mp, self.key(v, i, i.ops[1]), epoch.get('set', 0))
                    elif re.match(r'^std::(unordered_)?set<', q) and m == 'count':
                        tok = ('MEMBER', self.place(v.loc(i.ops[0])), self.key(v, i, i.ops[1]), epoch.get('set', 0))
                    elif re.match(r'^std::(unordered_)?set<', q) and m in ('insert', 'emplace'):
                        if b in s.v.path:
                            epoch['set'] = epoch.get('set', 0) + 1
                    elif q.startswith('std::priority_queue<') and m == 'top':
                        tok = ('TOP',) + self.place(v.loc(i.ops[0]))
                    elif q.startswith('std::priority_queue<') and m in ('size', 'empty'):
                        tok = (m.upper(),) + self.place(v.loc(i.ops[0]))
                    elif re.search(r'OwningMaybe<.*>::(operator bool|HasValue)$', q):
                        tok = ('HAS', i.id) + self.place(v.loc(i.ops[first]))
                    elif q.startswith('std::function<') and m == 'operator()':
                        tok = ('FN', self.place(v.loc(i.ops[first])), tuple(self.key(v, i, o) for o in i.ops[first + 1:]))
                        self.at_i[i.id] = tok
                    elif m == 'operator()' or m in ('GetNodeImmutable', 'GetOutEdgesImmutable', 'GetInEdgesImmutable', 'GetValueImmutable',
                                                    'GetNodeMutable', 'IndexInRange'):
                        tok = ('M', m, self.place(v.loc(i.ops[first])), tuple(self.key(v, i, o) for o in i.ops[first + 1:]))
                    if tok is not None:
                        t = one(v.val(('i', i.id)))
                        if isinstance(t, tuple) and t[0] in ('call', 'callv'):
                            self.ren.setdefault(t, tok)
                            self.ren2.setdefault(erase(t), tok)
                            self.memo.clear()
                except RecursionError:
                    raise

    def T(self, t):
        """term with tokens, memory versions removed"""
        if t is None:
            return None
        if isinstance(t, P):
            return unfz(self.rep(fz(t)))
        return self.rep(t)

    def rep(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        r = self.ren.get(t)
        if r is None and t[0] in ('call', 'callv'):
            r = self.ren2.get(erase(t))
        if r is None:
            if t[0] == 'mphi' and len(t) == 3:
                r = self.state(('m', self.rep(t[2])))
            elif t[0] == 'P' and len(t) == 2:
                r = ('P', tuple(sorted(((tuple(sorted((self.rep(a) for a in k), key=str)), v) for k, v in t[1]), key=str)))
            else:
                r = self.state(tuple(self.rep(x) for x in t))
        self.memo[t] = r
        return r

    def state(self, t):
        """content of a referenced state"""
        if t[0] == 'm' and len(t) == 2 and isinstance(t[1], tuple) and len(t[1]) == 2:
            k = self.named(t[1])
            if k is not None:
                return k
        return t

    def named(self, l):
        """('state', place) of the place a State() accessor refers to; likewise for the other references"""
        r, off = l
        if off == 0 and isinstance(r, tuple) and len(r) == 2 and r[0] == 'deref':
            x = one(r[1])
            if isinstance(x, tuple) and x and x[0] == 'T':
                n = {'State': 'state', 'BackPointer': 'backpointer', 'RawBackPointer': 'rawbackpointer', 'Value': 'value'}.get(x[1])
                if n:
                    return (n,) + x[2:]
        return None

    def place(self, l):
        if l is None:
            return (('?',), 0)
        l = self.rep(l)
        r = l[0]
        if isinstance(r, tuple) and len(r) == 2 and r[0] == 'deref':
            x = one(r[1])
            if isinstance(x, tuple) and x and x[0] == 'ptr' and len(x) >= 2 and isinstance(x[1], tuple):
                return (x[1][0], x[1][1] + l[1])
        return l

    def key(self, v, i, o):
        """what an operand passed by value or reference denotes"""
        if not self.f.is_ptr(o):
            return one(self.rep(fz(v.val(o))))
        l = self.place(v.loc(o))
        k = self.named(l)
        if k is not None:
            return k
        if l in self.alias:
            return self.alias[l]
        if l[0][0] == 'alloca':
            a = self.f.inst.get(l[0][1])
            if a is not None and a.asz == 8 and l[1] == 0:
                try:
                    x = one(self.rep(fz(v.mem(v.loc(o), 8, i))))
                except Exception:
                    return ('place',) + l
                if isinstance(x, tuple) and x and (x[0] not in ('m', 'out', 'callv') or x[0] == 'm' and x[1] != l):
                    return x
                if isinstance(x, int):
                    return x
        return ('place',) + l

    def lit(self, l):
        if l[0] in ('any', 'all'):
            return (l[0], tuple(self.lit(x) for x in l[1]))
        return tuple(self.rep(x) if isinstance(x, tuple) else x for x in l)

    # ------------------------------------------------ events
    def events(self):
        f, v = self.f, self.s.v
        n = 0
        for i in v.on_path(('call', 'invoke', 'store')):
            n += 1
            E = lambda kind, **kw: self.evs.append(Ev(kind, i, n, **kw))
            if i.op == 'store':
                l = self.place(v.loc(i.ops[1]))
                if l[0][0] == 'elem':
                    E('set', map=l[0][1], key=one(l[0][2]), value=one(self.rep(fz(v.val(i.ops[0])))), off=l[1])
                continue
            q = i.callee
            if not q:
                continue
            m, ps = method(q), params(i.cd)
            first = 1 if i.sret else 0
            L = lambda k: self.place(v.loc(i.ops[k])) if k < len(i.ops) and f.is_ptr(i.ops[k]) else None
            K = lambda k: self.key(v, i, i.ops[k])
            X = lambda k: one(self.rep(fz(v.val(i.ops[k]))))
            if re.search(rf'::{ELEM}::AstarPQueueElement$', q):
                if len(ps) == 1:
                    E('copy', dst=L(0), src=L(1))
                elif len(ps) == 4:
                    E('elem', dst=L(0), state=K(1), bp=K(2), cost=X(3), value=X(4))
                elif len(ps) == 3:
                    E('elem', dst=L(0), state=K(1), bp=None, cost=X(2), value=X(3))
            elif re.search(rf'::{ELEM}::operator=$', q):
                E('copy', dst=L(0), src=L(1))
            elif re.search(rf'::{BPC}::BackPointerAndCostToCome$', q):
                if len(ps) == 1:
                    E('bp', dst=L(0), src=L(1), copy='BackPointer' in ps[0].split('<')[0])
                else:
                    E('bp', dst=L(0), src=None, copy=False)
            elif re.search(rf'::{BPC}::operator=$', q):
                l = L(0)
                if l and l[0][0] == 'elem':
                    E('set', map=l[0][1], key=one(l[0][2]), value=('place',) + (L(1) or ()), off=l[1])
                else:
                    E('bp', dst=l, src=L(1), copy=True)
            elif re.search(r'OwningMaybe<.*>::OwningMaybe$', q):
                if not ps:
                    E('maybe', dst=L(0), value=None)
                elif 'OwningMaybe<' in ps[0]:
                    E('maybecopy', dst=L(0), src=L(1))
                else:
                    E('maybe', dst=L(0), value=K(1))
            elif re.search(r'OwningMaybe<.*>::operator=$', q):
                E('maybecopy', dst=L(0), src=L(1))
            elif re.search(r'OwningMaybe<.*>::(Reset|reset)$', q):
                E('maybe', dst=L(0), value=None)
            elif re.search(r'OwningMaybe<.*>::(operator bool|HasValue|Value)$', q):
                E('maybeuse', dst=L(0), name=m)
            elif re.search(r'::AstarResult<.*>::AstarResult$', q):
                if len(ps) == 2:
                    E('result', dst=L(0), path=L(1), cost=X(2))
                else:
                    E('result', dst=L(0), path=None, cost=None, src=L(1) if ps else None)
            elif re.search(r'::ExtractAstarResult<', q):
                E('extract', dst=L(0), map=L(1), key=K(2))
            elif q.startswith('std::priority_queue<'):
                if m in ('top', 'pop'):
                    E(m, queue=L(0))
                elif m == 'push':
                    E('push', queue=L(0), src=L(1))
                elif m == 'emplace':
                    n5 = len(i.ops)
                    if n5 == 5:
                        E('elem', dst=('emplaced', i.id), state=K(1), bp=K(2), cost=self.num(i, 3), value=self.num(i, 4))
                        E('push', queue=L(0), src=('emplaced', i.id))
                    elif n5 == 4:
                        E('elem', dst=('emplaced', i.id), state=K(1), bp=None, cost=self.num(i, 2), value=self.num(i, 3))
                        E('push', queue=L(0), src=('emplaced', i.id))
                    else:
                        E('push', queue=L(0), src=None)
            elif is_map(q):
                if m == 'insert_or_assign':
                    E('set', map=L(first), key=K(first + 1), value=K(first + 2), off=0)
                elif m in ('emplace', 'try_emplace', 'insert'):
                    E('add', map=L(first), key=K(first + 1) if m != 'insert' else None)
                elif m in ('erase', 'clear'):
                    E('erase', map=L(first), key=K(first + 1) if m == 'erase' else None)
            elif q.startswith('std::function<') and m == 'operator()':
                t = self.at_i.get(i.id)
                E('fn', fn=t[1], args=t[2], dst=L(0) if i.sret else None)
            elif re.search(rf'::{SWC}::StateWithCost$', q):
                if ps and 'StateWithCost<' not in ps[0]:
                    E('weighted', dst=L(0), state=K(1), cost=X(2) if len(ps) > 1 else 0)
            elif re.search(r'::(push_back|emplace_back|push_front|insert)(<.*>)?$', q) and not q.startswith('std::unordered_set'):
                E('list', dst=L(0), name=m, item=K(len(i.ops) - 1))
            elif re.match(r'^std::(unordered_)?set<', q):
                if m in ('insert', 'emplace'):
                    E('mark', set=L(first), key=K(first + 1))
                elif m in ('erase', 'clear'):
                    E('unmark', set=L(first))
            elif re.match(r'^std::reverse(<|$)', q):
                E('reverse', of=L(0), whole=whole_range(self.s.v, i))
            elif re.match(r'^std::vector<.*>::vector(<.*>)?$', q):
                E('vector', dst=L(0), args=[(K(k) if k < 3 else None) for k in range(1, len(i.ops))], rev='reverse_iterator' in (i.cd or ''))

    def num(self, i, k):
        """double passed by reference"""
        v, o = self.s.v, i.ops[k]
        if not self.f.is_ptr(o):
            return one(self.rep(fz(v.val(o))))
        l = v.loc(o)
        return one(self.rep(fz(v.mem(l, 8, i)))) if l else None

    def ev(self, *kinds):
        return [e for e in self.evs if e.kind in kinds]

    def weighted(self, e):
        """(state, cost) of the weighted state a list event appends"""
        i = e.i
        for w in self.ev('weighted'):
            if w.dst == self.place(self.s.v.loc(i.ops[1])) and w.n < e.n:
                return w.state, w.cost
        if e.name != 'emplace_back':
            return None, None
        return self.key(self.s.v, i, i.ops[1]), self.num(i, 2) if len(i.ops) > 2 else 0

    # ------------------------------------------------ predicates
    def found(self, mp, key, lits=None):
        """True/False when the literals say whether key was in the map (before this segment changed it)"""
        for l in self.lits if lits is None else lits:
            if l[0] == 'bool':
                t = one(l[1])
                if callname(t) in ('operator!=', 'operator=='):
                    a = atoms_in(t)
                    if any(x == ('END', mp) for x in a) and any(x == ('FIND', mp, key, 0) for x in a):
                        return l[2] == (callname(t) == 'operator!=')
            if l[0] in ('eq', 'ne', 'uge', 'ge') and ('COUNT', mp, key, 0) in atoms_in(l[1]):
                p = unfz(l[1])
                k = p.t.get((('COUNT', mp, key, 0),), 0)
                c = p.t.get((), 0)
                if len(p.t) <= 2 and abs(k) == 1:
                    if l[0] in ('eq', 'ne') and c == 0:
                        return l[0] == 'ne'
                    if l[0] in ('eq', 'ne') and c == -k:
                        return l[0] == 'eq'
                    if l[0] in ('uge', 'ge') and k == 1 and c == -1:
                        return True
                    if l[0] in ('uge', 'ge') and k == -1 and c == 0:
                        return False
            # iterators compared as pointers
            if l[0] in ('eq', 'ne') and l[1] and l[1][0] == 'P':
                a = atoms_in(l[1])
                if any(x == ('END', mp) for x in a) and any(x == ('FIND', mp, key, 0) for x in a):
                    return l[0] == 'ne'
        return None

    def stored(self, a, mp, key):
        """atom a is the cost recorded for key in the map"""
        if not isinstance(a, tuple) or not a:
            return False
        if a[0] == 'T' and a[1] == 'CostToCome':
            l = a[2:]
        elif a[0] == 'm':
            l = a[1]
        else:
            return False
        if not isinstance(l, tuple) or len(l) != 2:
            return False
        r = l[0]
        if r[:1] == ('elem',) and len(r) == 3 and r[1] == mp and one(r[2]) == key:
            return True
        return r[:1] == ('at',) and ('FIND', mp, key, 0) in atoms_in(r)

    def compare(self, cost, mp, key, lits=None):
        """what the literals say about cost against the recorded one: set of '>=', '>', '<', '<='"""
        out = set()
        for l in self.lits if lits is None else lits:
            if l[0] not in ('foge', 'fogt', 'fuge', 'fugt') or not l[1] or l[1][0] != 'P':
                continue
            p = unfz(l[1])
            for sgn in (1, -1):
                d = P(sgn) * p - (unfz(cost) if isinstance(cost, tuple) and cost[:1] == ('P',) else atom(cost) if isinstance(cost, tuple) else P(cost))
                x = one(P(-1) * d)
                if x == ('cf', 'inf') and (sgn, l[0][2:]) == (1, 'ge'):
                    out.add('infinite')
                if self.stored(x, mp, key):
                    g = l[0][2:]
                    out.add({(1, 'ge'): '>=', (1, 'gt'): '>', (-1, 'ge'): '<=', (-1, 'gt'): '<'}[sgn, g])
        return out

    def better(self, cost, mp, key, lits=None):
        """'yes': recorded with a cost not above; 'no': not recorded, or at a higher cost; 'strict': recorded and strictly below;
        'weak': not recorded below, possibly equal; None"""
        ls = self.lits if lits is None else lits
        ls = [y for l in ls for y in (l[1] if l[0] == 'all' else (l,))]
        fd, cp = self.found(mp, key, ls), self.compare(cost, mp, key, ls)
        if fd is False and 'infinite' in cp:
            return 'yes'
        if fd is False or '<' in cp:
            return 'no'
        if fd and '>=' in cp:
            return 'yes'
        if fd and '>' in cp:
            return 'strict'
        if '<=' in cp:
            return 'weak'
        r = set()
        for l in ls:
            if l[0] == 'any':
                rest = [x for x in ls if x != l]
                r = {self.better(cost, mp, key, rest + [y]) for y in l[1]}
                if len(r) == 1 and None not in r:
                    return r.pop()
                if None not in r and r <= {'yes', 'strict'}:
                    return 'strict'
                if None not in r and r <= {'no', 'weak'}:
                    return 'weak'
        return None

    def said(self, tok):
        """truth value of a boolean callback result"""
        for l in self.lits:
            if l[0] == 'bool' and one(l[1]) == tok:
                return l[2]
        return None



def minus(a, b):
    """a - b for two frozen or single-atom terms"""
    def p(x):
        if isinstance(x, P):
            return x
        if isinstance(x, tuple) and x[:1] == ('P',):
            return unfz(x)
        return atom(x) if isinstance(x, tuple) else P(x)
    return p(a) - p(b)


class Search:
    """one of the best-first searches; roles of its arguments by position"""
    def __init__(self, c, f, name, starts, goal, heur, limit, children=None, valid=None, dist=None, graph=None):
        self.c, self.f, self.name = c, f, name
        self.starts, self.goal, self.heur, self.limit = starts, goal, heur, limit
        self.children, self.valid, self.dist, self.graph = children, valid, dist, graph
        self.a = lambda k: (('arg', k), 0)

    def ob(self, kind, ok, key, text, readable=True):
        return self.c.ob(kind, ok, f'{self.name}|{key}', f'{self.f.where()}: {text}', readable=readable)

    def run(self):
        c, f = self.c, self.f
        c.saw(f)
        ss = segments(f)
        if ss is None:
            c.unsure('expand', self.name, f'{f.where()}: too many paths')
            return
        self.raw = ss
        self.segs = [Seg(f, s) for s in ss]
        self.loops = f.loops()
        pops = {e.i.block for q in self.segs for e in q.ev('pop')}
        H = [h for h, body in self.loops.items() if pops and pops <= set(body) and any(q.start == h and q.ev('pop') for q in self.segs)]
        if len(H) != 1:
            c.unsure('expand', self.name, f'{f.where()}: the loop that empties the queue was not found')
            return
        self.H = H[0]
        body = self.loops[self.H]
        self.inner = [h for h in self.loops if h != self.H and h in body]
        self.before = [h for h in self.loops if h not in body]
        self.explored = self.queued = self.queue = None
        for q in self.segs:
            for e in q.evs:
                if e.kind in ('top', 'pop', 'push'):
                    self.queue = self.queue or e.queue
            for b in q.evs:
                if b.kind == 'set' and isinstance(b.value, tuple) and b.value[:1] == ('place',) and is_bp(f, b):
                    self.explored = b.map
                elif b.kind == 'add' and is_bp(f, b):
                    self.explored = b.map
        for q in self.segs:
            for b in q.evs:
                if b.kind in ('set', 'add', 'erase') and b.map != self.explored and b.map[0][0] == 'alloca':
                    self.queued = b.map
        if self.explored is None:
            c.unsure('record', self.name, f'{f.where()}: the record of explored states was not found')
            return
        c.count('searches')
        self.goalplaces()
        self.segs = [q for q in self.segs if self.possible(q)]
        for q in self.segs:
            self.queue_use(q)
            stale(self, q)
            self.maps(q)
        for k, q in enumerate(x for x in self.segs if x.start == self.H):
            self.main(k, q)
        for h in self.inner:
            self.child_loop(h)
        self.start_loop()
        self.early()

    # ------------------------------------------------ the found goal
    def goalplaces(self):
        """what optional values hold at each header, when they are only given one on the way out"""
        self.stays = {}
        for q in self.segs:
            for e in q.ev('maybe', 'maybecopy'):
                empty = e.kind == 'maybe' and e.value is None
                if not empty and q.stop[0] != 'ret' and any(x.kind == 'maybeuse' and x.dst == e.dst for y in self.segs for x in y.evs):
                    self.stays[e.dst] = False
        for q in self.segs:
            for e in q.ev('maybe'):
                if e.value is None and q.start not in self.loops.get(self.H, ()):
                    self.stays.setdefault(e.dst, True)

    def held(self, q, place, before):
        """value an optional holds just before event number n: ('empty',), ('has', v) or None"""
        st = {}
        for e in q.evs:
            if e.n >= before:
                break
            if e.kind == 'maybe':
                st[e.dst] = ('empty',) if e.value is None else ('has', e.value)
            elif e.kind == 'maybecopy':
                st[e.dst] = st.get(e.src)
        if place in st:
            return st[place]
        return ('empty',) if self.stays.get(place) else None

    def possible(self, q):
        for e in q.evs:
            if e.kind == 'maybeuse' and e.name in ('operator bool', 'HasValue'):
                h = self.held(q, e.dst, e.n)
                for l in q.lits:
                    t = one(l[1]) if l[0] == 'bool' else None
                    if isinstance(t, tuple) and t[:2] == ('HAS', e.i.id) and h and l[2] != (h[0] == 'has'):
                        return False
        return True

    # ------------------------------------------------ queue discipline
    def queue_use(self, q):
        """no use of the top entry in place after it was removed, one removal per entry read"""
        pop = None
        tops = 0
        for e in q.evs:
            if e.kind == 'top':
                tops += 1
            if e.kind == 'pop':
                self.ob('queue', e.queue == self.queue and (tops > 0 or q.start != self.H), f'pop {q.start}',
                        'an entry is removed from the queue without having been read')
                self.ob('queue', pop is None, f'one pop {q.start}', 'two entries are removed for one that is expanded')
                pop = e

    def top(self, q):
        """place of the entry being expanded on a segment of the main loop"""
        for e in q.evs:
            if e.kind == 'copy' and e.src and ('TOP',) + self.queue in places(e.src):
                return e.dst
            if e.kind == 'pop':
                break
        return None

    # ------------------------------------------------ the records
    def maps(self, q):
        for e in q.evs:
            if e.kind == 'erase' and e.map == self.explored:
                self.ob('record', False, 'forgotten', 'a recorded state is forgotten during the search')
            if e.kind in ('set', 'add') and e.map == self.explored:
                self.ob('record', q.start == self.H, 'elsewhere', 'a state is recorded as explored other than when its entry is expanded')
            if e.kind == 'set' and e.map == self.queued:
                ps = [p for p in q.ev('push') if self.pushed(q, p) is not None]
                r = [self.pushed(q, p) for p in ps]
                ok = any(same(x.state, e.key) and minus(x.cost, e.value) == P(0) for x in r)
                self.ob('duplicates', ok, f'noted {q.start}', 'a state is noted as queued at a cost it is not queued with', readable=bool(r) or not q.ev('push'))

    def pushed(self, q, p):
        r = None
        for e in q.evs:
            if e.n > p.n:
                break
            if e.kind == 'elem' and e.dst == p.src:
                r = e
        return r

    # ------------------------------------------------ taking an entry
    def main(self, k, q):
        c = self.c
        rets = q.stop[0] == 'ret'
        if not q.ev('pop'):
            if rets:
                res = q.ev('result')
                ext = q.ev('extract')
                self.ob('outcome', bool(res) and not ext and all(e.path is None and e.src is None for e in res), 'exhausted',
                        'an exhausted search does not report that there is no path', readable=bool(res or ext))
                self.ob('outcome', queue_empty(q, self.queue) is True, 'all entries', 'the search gives up although entries are still queued', readable=queue_empty(q, self.queue) is not None)
            else:
                self.ob('queue', False, f'not removed {q.start}', 'the search goes on without removing an entry from the queue')
            return
        top = self.top(q)
        if top is None:
            c.unsure('expand', f'{self.name}|top', f'{self.f.where()}: copy of the queue\'s top entry not found')
            return
        state, cost = ('state',) + top, ('T', 'CostToCome') + top
        sets = [e for e in q.evs if e.kind in ('set', 'add') and e.map == self.explored]
        b = q.better(cost, self.explored, state)
        if not sets:
            # skipped
            ok = q.stop == ('loop', self.H) and not q.ev('push', 'fn')
            self.ob('expand', ok, 'unrecorded', 'a state is expanded, or checked for being a goal, without being recorded as explored')
            self.ob('expand', b in ('yes', 'strict'), 'skipped', 'an entry is dropped although its state is not recorded at its cost or below')
            return
        self.ob('expand', b == 'no', 'expanded', 'an entry is expanded although its state is already recorded at the same cost or below')
        for e in sets:
            self.ob('record', same(e.key, state), 'key', 'the record is kept under a different state than the entry expanded')
            if e.kind == 'add':
                self.ob('record', q.found(self.explored, state) is False, 'replaced',
                        'an earlier record of the state is not replaced when it is reached at a lower cost')
                continue
            src = [x for x in q.evs if x.kind == 'bp' and ('place',) + (x.dst or ()) == e.value and x.n < e.n]
            self.ob('record', bool(src) and src[-1].src == top and not src[-1].copy, 'entry',
                    'predecessor and cost recorded are not those of the entry expanded', readable=bool(src))
        last = max(e.n for e in sets)
        goals = [e for e in q.ev('fn') if e.fn == self.a(self.goal)]
        for e in goals:
            self.ob('goal', same(e.args[-1], state), 'state', 'the goal check is not asked about the state of the entry taken')
        said = [q.said(('FN', e.fn, e.args)) for e in goals if same(e.args[-1], state)]
        if rets:
            ext = q.ev('extract')
            self.ob('goal', True in said, 'success', 'a search ends successfully without the goal check accepting the state')
            self.ob('outcome', len(ext) == 1, 'result', 'a path that was found is not reported')
            for e in ext:
                key = e.key
                if key[0] == 'value':
                    h = self.held(q, key[1:], e.n)
                    key = h[1] if h and h[0] == 'has' else None
                self.ob('outcome', key is not None and same(key, state) and e.map == self.explored, 'goal state',
                        'the path reported does not end at the state the goal check accepted', readable=key is not None)
                self.ob('outcome', e.n > last and e.dst == self.a(0), 'recorded', 'the path is extracted before the goal is recorded', readable=e.n < last or e.dst is not None)
            return
        self.ob('goal', False in said and True not in said, 'tested', 'a state is expanded although the goal check accepted it, or without asking it')
        if q.stop[0] == 'loop' and q.stop[1] in self.inner:
            self.generated(q, state)
        else:
            self.ob('children', False, 'none', 'an explored state that is not a goal is left without generating its children',
                    readable=bool(self.inner))
        c.count('expansions')

    def generated(self, q, state):
        if self.children is not None:
            e = [e for e in q.ev('fn') if e.fn == self.a(self.children)]
            self.ob('children', len(e) == 1 and same(e[0].args[-1], state), 'of', 'the children generated are not those of the entry expanded',
                    readable=len(e) == 1)
            if len(e) == 1:
                self.kids = e[0].dst

    # ------------------------------------------------ children
    def child_loop(self, h):
        c, f = self.c, self.f
        qs = [q for q in self.segs if q.start == h]
        lp = Loops(f, self.raw)
        it = lp.iters.get(h)
        if it is None:
            if h in lp.off:
                self.ob('children', False, 'all', 'the loop over the children leaves some out')
            else:
                c.unsure('children', f'{self.name}|all', f'{f.where()}: the loop over the children is not one over a container')
            return
        self.ob('children', not lp.early(it), 'all', 'the loop over the children ends before the last one')
        tops = {self.top(q) for q in self.segs if q.start == self.H and q.ev('pop')} - {None}
        if len(tops) != 1:
            return
        top = tops.pop()
        state, cost = ('state',) + top, ('T', 'CostToCome') + top
        for q in qs:
            inloop = q.stop == ('loop', h)
            if not inloop:
                continue
            item = q.place(it.place())
            if self.graph is None:
                K = q.place(it.K)
                self.ob('children', K == getattr(self, 'kids', None), 'which', 'the states queued are not the children generated', readable=hasattr(self, 'kids'))
                child, edge, valid = ('state',) + item, ('T', 'Cost') + item, True
            else:
                K = q.place(it.K)
                ok = self.out_edges(q, K, state)
                self.ob('children', ok is True, 'which', 'the edges followed are not the outgoing edges of the entry expanded', readable=ok is not None)
                child = ('T', 'GetToIndex') + item
                me = (('place',) + (('arg', self.graph), 0), ('place',) + item)
                edge = ('FN', self.a(self.dist), me)
                valid = q.said(('FN', self.a(self.valid), me))
                for e in q.ev('fn'):
                    if e.fn in (self.a(self.valid), self.a(self.dist)):
                        self.ob('children', e.args == me, f'edge {e.fn[0][1]}', 'validity or cost is asked about another edge than the one followed')
            cc = atom(edge) + atom(cost)
            pushes = q.ev('push')
            if not pushes:
                why = q.better(fz(cc), self.explored, child) in ('yes', 'strict')
                if self.queued is not None and self.limited(q) is True:
                    why = why or q.better(fz(cc), self.queued, child) in ('yes', 'strict')
                if not why:
                    why = self.anyskip(q, fz(cc), child)
                self.ob('children', why or valid is False, 'dropped',
                        'a valid child is not queued although it is neither explored nor queued at its cost or below')
                continue
            if self.graph is not None:
                self.ob('children', valid is True, 'valid', 'a child is queued over an edge that was not found valid')
            self.ob('children', len(pushes) == 1, 'once', 'a child is queued twice')
            for p in pushes:
                e = self.pushed(q, p)
                if e is None:
                    c.unsure('children', f'{self.name}|entry', f'{f.where()}: entry queued for a child not readable')
                    continue
                self.ob('children', p.queue == self.queue and same(e.state, child), 'state', 'the entry queued for a child names another state')
                self.ob('children', e.bp is not None and same(e.bp, state), 'predecessor', 'the predecessor of a child is not the entry it was generated from')
                self.ob('children', minus(e.cost, cc) == P(0), 'cost', 'the cost of a child is not the cost of its predecessor plus that of the edge')
                d = minus(e.value, e.cost)
                t = one(d)
                ok = isinstance(t, tuple) and t[0] == 'FN' and t[1] == self.a(self.heur) and same(t[2][-1], child)
                self.ob('order', ok, 'child', 'a child is not ordered by its cost plus its own heuristic value')

    def anyskip(self, q, cc, child):
        """every alternative of a disjunction gives a reason to drop the child"""
        for l in q.lits:
            if l[0] != 'any':
                continue
            rest = [x for x in q.lits if x != l]
            ok = True
            for y in l[1]:
                ls = rest + [y]
                ok &= q.better(cc, self.explored, child, ls) in ('yes', 'strict') or self.queued is not None and self.limited(q, ls) is True and \
                    q.better(cc, self.queued, child, ls) in ('yes', 'strict')
            if ok:
                return True
        return False

    def limited(self, q, lits=None):
        for l in q.lits if lits is None else lits:
            for y in l[1] if l[0] == 'all' else (l,):
                if y[0] == 'bool' and one(y[1]) == ('arg', self.limit):
                    return y[2]
        return None

    def out_edges(self, q, K, state):
        e = accessor(K)
        if e is None or e[0] not in ('GetOutEdgesImmutable', 'GetInEdgesImmutable'):
            return None
        n = accessor(e[1])
        if n is None or n[0] != 'GetNodeImmutable':
            return None
        return e[0] == 'GetOutEdgesImmutable' and n[1] == self.a(self.graph) and same(n[2][-1], state)

    # ------------------------------------------------ starts
    def start_loop(self):
        c, f = self.c, self.f
        lp = Loops(f, self.raw)
        hs = [h for h in self.before if any(q.start == h and q.ev('push') for q in self.segs)]
        if len(hs) != 1:
            c.unsure('starts', self.name, f'{f.where()}: the loop that queues the starts was not found')
            return
        h = hs[0]
        it = lp.iters.get(h)
        if it is None:
            if h in lp.off:
                self.ob('starts', False, 'all', 'the loop over the starts leaves some out')
            else:
                c.unsure('starts', f'{self.name}|all', f'{f.where()}: the loop over the starts is not one over a container')
            return
        self.ob('starts', not lp.early(it) and erase(it.K) == self.a(self.starts), 'all', 'not every start is queued')
        for q in self.segs:
            if q.start != h or q.stop != ('loop', h):
                continue
            item = q.place(it.place())
            state, cost = ('state',) + item, ('T', 'Cost') + item
            ps = q.ev('push')
            if not ps:
                ok = self.queued is not None and self.limited(q) is True and q.better(cost, self.queued, state) in ('yes', 'strict')
                self.ob('starts', ok, 'dropped', 'a start is not queued although it is not queued at its cost or below')
            for p in ps:
                e = self.pushed(q, p)
                if e is None:
                    c.unsure('starts', f'{self.name}|entry', f'{f.where()}: entry queued for a start not readable')
                    continue
                self.ob('starts', p.queue == self.queue and same(e.state, state) and e.bp is None and minus(e.cost, cost) == P(0), 'entry',
                        'the entry queued for a start is not that state at its own cost, without predecessor')
                v = [minus(e.value, x) for x in (P(0), cost)]
                ok = False
                for x in v:
                    t = one(x)
                    ok |= isinstance(t, tuple) and t[0] == 'FN' and t[1] == self.a(self.heur) and same(t[2][-1], state)
                self.ob('order', ok, 'start', 'a start is not ordered by its heuristic value')

    def early(self):
        """a start that is itself a goal is reported with its own cost"""
        c, f = self.c, self.f
        lp = Loops(f, self.raw)
        body = self.loops[self.H]
        hs = [h for h in self.before if any(q.start == h and any(e.fn == self.a(self.goal) for e in q.ev('fn')) for q in self.segs)]
        for q in self.segs:
            if q.stop[0] != 'ret' or q.start in body or q.start in self.inner:
                continue
            rs = [e for e in q.ev('result')]
            if not rs:
                c.unsure('outcome', f'{self.name}|early', f'{f.where()}: result returned before the search not readable')
                continue
            for e in rs:
                if e.path is None:
                    c.unsure('outcome', f'{self.name}|early', f'{f.where()}: result returned before the search not readable')
                    continue
                self.early_result(q, e, hs, lp)

    def early_result(self, q, r, hs, lp):
        c, f = self.c, self.f
        items = [e.item for e in q.ev('list') if e.dst == r.path]
        if not items and len(hs) == 1:
            items = self.initializer(q, r)
        asked = [e for x in self.segs if x.start not in self.loops[self.H] for e in x.ev('fn') if e.fn == self.a(self.goal)]
        if not asked and len(items) == 1:
            self.ob('outcome', False, 'start accepted', 'a start is reported as a goal without the goal check being asked')
            return
        if len(hs) == 1 and hs[0] in lp.off and erase(lp.off[hs[0]].K) == self.a(self.starts):
            self.ob('outcome', False, 'start goals', 'not every start is checked for being a goal')
            return
        if len(hs) != 1 or lp.iters.get(hs[0]) is None or len(items) != 1:
            c.unsure('outcome', f'{self.name}|early', f'{f.where()}: choice of a start that meets the goal not readable')
            return
        h = hs[0]
        it = lp.iters[h]
        self.ob('outcome', not lp.early(it) and erase(it.K) == self.a(self.starts), 'start goals', 'not every start is checked for being a goal')
        backs = [x for x in self.segs if x.start in it.body and x.stop == ('loop', h)]
        phis = [i for i in f.blocks[h] if i.op == 'phi' and ('phi', i.id) != it.atom]
        item, cost = items[0], r.cost
        used = {a[1] for t in (item, cost) for a in atoms_in(t) if isinstance(a, tuple) and a[:1] == ('phi',) and len(a) == 2}
        if isinstance(item, tuple) and item[:1] == ('phi',):
            used.add(item[1])
        if isinstance(cost, tuple) and cost[:1] == ('phi',):
            used.add(cost[1])
        if not used or not used <= {i.id for i in phis}:
            c.unsure('outcome', f'{self.name}|early', f'{f.where()}: choice of a start that meets the goal not readable')
            return
        for b in backs:
            nxt = {i.id: one(b.rep(fz(b.s.next(i)))) for i in phis}
            me = b.place(it.place())
            keep = all(nxt[k] == ('phi', k) for k in used)
            st, co = subst_one(item, nxt), subst_one(cost, nxt)
            mine = same_start(st, ('state',) + me, it, self.starts) and same_start(co, ('T', 'Cost') + me, it, self.starts)
            said = [b.said(('FN', e.fn, e.args)) for e in b.ev('fn') if e.fn == self.a(self.goal) and same(e.args[-1], ('state',) + me)]
            cp = self.start_compare(b, ('T', 'Cost') + me, phis)
            if cp:
                rel, k = cp
                if mine and not keep:
                    self.ob('outcome', rel in ('<', '<='), 'cheapest start', 'a start that is a goal is replaced by one that costs more')
                    self.ob('outcome', same_start(one(b.rep(fz(b.s.next(k)))), ('T', 'Cost') + me, it, self.starts), 'cheapest cost', 'the least cost of the starts that are goals is not kept up')
                elif keep and True in said:
                    self.ob('outcome', rel in ('>', '>='), 'cheapest start', 'a start that is a goal and costs less is passed over')
            elif mine and not keep and any(l[0][:1] == 'f' and ('cf', 'inf') in atoms_in(l) and ('T', 'Cost') + me in atoms_in(l) for l in b.lits):
                self.ob('outcome', False, 'cheapest start', 'a start that is a goal is not compared with the one found before')
            elif mine and not keep:
                c.unsure('outcome', f'{self.name}|cheapest', f'{f.where()}: choice among the starts that are goals not readable')
            self.ob('outcome', keep or mine, 'start pair', 'the start reported as a goal and the cost reported belong to different starts')
            if mine and not keep:
                self.ob('outcome', True in said, 'start accepted', 'a start is reported as a goal without the goal check accepting it')
        c.count('early results')

    def start_compare(self, b, cost, phis):
        """(relation, accumulator) of the comparison of a start's cost with the least one so far"""
        for l in b.lits:
            if l[0] in ('foge', 'fogt', 'fuge', 'fugt') and l[1] and l[1][0] == 'P':
                p = unfz(l[1])
                for k in phis:
                    d = p - atom(('phi', k.id))
                    if d + atom(cost) == P(0):
                        return ('<=' if l[0].endswith('ge') else '<'), k
                    d = p + atom(('phi', k.id))
                    if d - atom(cost) == P(0):
                        return ('>=' if l[0].endswith('ge') else '>'), k
        return None

    def initializer(self, q, r):
        """item of a one-element braced list the result's path is made from"""
        v = q.s.v
        for i in v.on_path(('call', 'invoke')):
            if i.callee and re.search(r'^std::vector<.*>::vector$', i.callee) and len(i.ops) >= 3 and q.place(v.loc(i.ops[0])) == r.path:
                if i.ops[2][0] == 'c' and i.ops[2][1] == 1:
                    l = v.loc(i.ops[1])
                    return [one(q.rep(fz(v.mem(l, 8, i))))] if l else []
        return []


def accessor(l):
    """(method, object place, arguments) when l is what a graph or node accessor returned a reference to"""
    x = one(l[0][1]) if l[1] == 0 and isinstance(l[0], tuple) and l[0][0] == 'deref' else None
    if not isinstance(x, tuple):
        return None
    if x[0] == 'M':
        return x[1], x[2], x[3]
    if x[0] == 'call' and len(x) > 2:
        o = one(x[2])
        if o[0] == 'obj':
            return callname(x), o[1], tuple(one(y) for y in x[3:])
        if o[0] == 'm':
            return callname(x), o[1], tuple(one(y) for y in x[3:])
    return None


def is_bp(f, e):
    return 'BackPointerAndCostToCome' in (e.i.callee or '')


def same(a, b):
    return a == b


def places(t):
    return atoms_in(t) | {x for a in atoms_in(t) if isinstance(a, tuple) for x in a if isinstance(x, tuple)} if isinstance(t, tuple) else set()


def subst_one(t, nxt):
    if isinstance(t, tuple):
        if t[:1] == ('phi',) and len(t) == 2 and t[1] in nxt:
            return nxt[t[1]]
        if t[:1] == ('P',) and len(t) == 2:
            r = P(0)
            for k, v in t[1]:
                y = P(v)
                for a in k:
                    z = subst_one(a, nxt)
                    y = y * (unfz(z) if isinstance(z, tuple) and z[:1] == ('P',) else atom(z) if isinstance(z, tuple) else P(z))
                r = r + y
            return fz(r)
        return tuple(subst_one(x, nxt) for x in t)
    return t


def same_start(t, mine, it, starts):
    """t names the same part of the start the loop is at"""
    return one(t) == mine



# ---------------------------------------------------------------- Dijkstra
class Dijkstra:
    def __init__(self, c, f, off):
        self.index, self.distance = off.get(('IndexAndDistance', 'Index'), 0), off.get(('IndexAndDistance', 'Distance'), 8)
        self.c, self.f, self.name = c, f, 'PerformDijkstrasAlgorithm'

    ob = Search.ob

    def run(self):
        c, f = self.c, self.f
        c.saw(f)
        self.raw = segments(f)
        if self.raw is None:
            c.unsure('expand', self.name, f'{f.where()}: too many paths')
            return
        self.loops = f.loops()
        Q = self.segs = [Seg(f, s) for s in self.raw]
        graph, start = (('arg', 1), 0), ('arg', 2)
        mains = {q.start for q in Q if q.ev('pop')}
        if len(mains) != 1:
            c.unsure('expand', self.name, f'{f.where()}: the loop that empties the queue was not found')
            return
        H = mains.pop()
        inner = [h for h in self.loops if h != H and h in self.loops[H]]
        if len(inner) != 1:
            c.unsure('expand', self.name, f'{f.where()}: the loop over the neighbours was not found')
            return
        N = inner[0]
        prev = dist = None
        for q in Q:
            if q.start != 0 or q.stop != ('loop', H):
                continue
            for e in q.ev('set'):
                if e.key == start and e.value == start:
                    prev = e.map
                elif e.key == start and e.value == ('P', ()):
                    dist = e.map
        if prev is None or dist is None:
            n = [e for q in Q if q.start == 0 for e in q.ev('set')]
            self.ob('starts', False, 'entry', 'the start is not its own predecessor at distance 0', readable=len(n) >= 1)
            return
        c.count('searches')
        top = lambda off: ('m', (('deref', fz(atom(('TOP',) + self.queue))), off))
        self.queue = next(e.queue for q in Q for e in q.ev('pop'))
        ti, td = top(self.index), top(self.distance)
        # starting values
        for q in Q:
            if q.start == 0 and q.stop == ('loop', H):
                ps = [self.content(q, e) for e in q.ev('push')]
                self.ob('starts', ps == [(start, ('P', ()))], 'queued', 'the start is not queued at distance 0')
                for e in q.ev('vector'):
                    if e.dst in (prev, dist) and len(e.args) >= 2:
                        want = ('cf', 'inf') if e.dst == dist else -1
                        x = e.args[1]
                        x = unfz(x).const() if isinstance(x, tuple) and x[:1] == ('P',) else x
                        self.ob('outcome', x == want, f'unreached {e.dst == dist}',
                                'a node that is never reached is not left without predecessor at infinite distance', readable=x is not None and not (isinstance(x, tuple) and x[:1] == ('place',)))
        for q in Q:
            Search.queue_use(self, q) if q.ev('pop') else None
            stale(self, q)
            if q.start == H:
                self.main(q, H, N, graph, ti)
            if q.start == N:
                self.relax(q, N, graph, prev, dist, ti, td)
            for e in q.ev('unmark'):
                self.ob('expand', False, 'forgotten', 'a node is no longer known as expanded')
        for q in Q:
            if q.stop[0] == 'ret':
                self.ob('outcome', q.start == H and not q.ev('pop') and queue_empty(q, self.queue) is True, 'exhausted', 'the search ends while entries are queued', readable=q.start != H or bool(q.ev('pop')) or queue_empty(q, self.queue) is not None)

    def content(self, q, e):
        """(index, distance) of the entry pushed"""
        if not isinstance(e.src, tuple) or e.src[0][0] != 'alloca':
            return None
        v = q.s.v
        l = v.loc(e.i.ops[1])
        return tuple(one(q.rep(fz(v.mem((l[0], l[1] + o), 8, e.i)))) for o in (self.index, self.distance))

    def member(self, q, key):
        """whether the literals say key was among the expanded nodes"""
        for l in q.lits:
            as_ = atoms_in(l)
            at = [a for a in as_ if isinstance(a, tuple) and a[:1] == ('SETFIND',) and a[2] == key]
            if len(at) == 1 and ('SETEND', at[0][1]) in as_:
                n = callname(one(l[1])) if l[0] == 'bool' else None
                if n in ('operator!=', 'operator=='):
                    return l[2] == (n == 'operator!='), at[0][3]
                if l[0] in ('eq', 'ne'):
                    return l[0] == 'ne', at[0][3]
            for a in atoms_in(l):
                if isinstance(a, tuple) and a[:1] == ('MEMBER',) and a[2] == key and l[0] in ('eq', 'ne', 'uge', 'ge'):
                    p = unfz(l[1])
                    k, c0 = p.t.get((a,), 0), p.t.get((), 0)
                    if len(p.t) > 2:
                        continue
                    if l[0] in ('eq', 'ne') and c0 == 0:
                        return l[0] == 'ne', a[3]
                    if l[0] in ('eq', 'ne') and c0 == -k:
                        return l[0] == 'eq', a[3]
                    if k == 1 and c0 == -1:
                        return True, a[3]
                    if k == -1 and c0 == 0:
                        return False, a[3]
                if isinstance(a, tuple) and a[:1] == ('MEMBER',) and a[2] == key and l[0] == 'bool' and one(l[1]) == a:
                    return l[2], a[3]
        return None, None

    def main(self, q, H, N, graph, ti):
        if not q.ev('pop'):
            return
        marks = q.ev('mark')
        known, epoch = self.member(q, ti)
        if q.stop == ('loop', H):
            self.ob('expand', known is True and epoch == 0 and not q.ev('set', 'push'), 'skipped', 'an entry is dropped although its node was not expanded yet', readable=True)
        elif q.stop == ('loop', N):
            self.ob('expand', known is False and epoch == 0, 'expanded', 'a node is expanded a second time')
            self.ob('record', any(e.key == ti for e in marks), 'marked', 'a node is expanded without being marked as expanded')
            self.c.count('expansions')
        for e in marks:
            self.ob('record', e.key == ti, 'key', 'another node than the one taken is marked as expanded')

    def relax(self, q, N, graph, prev, dist, ti, td):
        c, f = self.c, self.f
        lp = Loops(f, self.raw)
        it = lp.iters.get(N)
        if it is None:
            if N in lp.off:
                self.ob('children', False, 'all', 'the loop over the neighbours leaves some out')
            else:
                c.unsure('children', f'{self.name}|all', f'{f.where()}: the loop over the neighbours is not one over a container')
            return
        self.ob('children', not lp.early(it), 'all', 'the loop over the neighbours ends before the last one')
        e = accessor(q.place(it.K))
        n = accessor(e[1]) if e else None
        okk = n is not None and e[0] == 'GetInEdgesImmutable' and n[1] == graph and n[2][-1] == ti
        self.ob('children', okk, 'which', 'the edges followed are not the incoming edges of the node expanded', readable=n is not None)
        if q.stop != ('loop', N):
            return
        item = q.place(it.place())
        nb, w = ('T', 'GetFromIndex') + item, ('T', 'GetWeight') + item
        new = atom(td) + atom(w)
        old = ('m', (('elem', dist, fz(atom(nb))), 0))
        better = None
        for l in q.lits:
            if l[0] in ('fogt', 'fugt', 'foge', 'fuge'):
                d = unfz(l[1])
                if d == atom(old) - new:
                    better = '<' if l[0][2:] == 'gt' else '<='
                elif d == new - atom(old):
                    better = '>=' if l[0][2:] == 'ge' else '>'
        sets = {}
        for e in q.ev('set'):
            if e.map in (prev, dist):
                sets[e.map] = e
        if not sets:
            self.ob('children', better in ('>=', '>'), 'dropped', 'a shorter way to a neighbour is ignored')
            self.ob('children', not q.ev('push'), 'queued', 'a neighbour is queued without a shorter way to it')
            return
        self.ob('children', better == '<', 'improved', 'distance and predecessor of a neighbour are replaced by a way that is not shorter')
        self.ob('record', set(sets) == {prev, dist}, 'pair', 'only one of distance and predecessor is updated')
        for m, e in sets.items():
            self.ob('record', e.key == nb, 'neighbour', 'the record of another node than the neighbour is updated')
            want = atom(ti) if m == prev else new
            self.ob('record', minus(e.value, want) == P(0), 'value', 'the predecessor recorded is not the node expanded, or the distance not the one over it')
        known, _ = self.member(q, nb)
        ps = [self.content(q, e) for e in q.ev('push')]
        if ps:
            self.ob('children', all(x is not None and x[0] == nb and minus(x[1], new) == P(0) for x in ps), 'entry', 'the entry queued is not the neighbour at its new distance',
                    readable=None not in ps)
        else:
            self.ob('children', known is True, 'not queued', 'a neighbour with a shorter way is not queued although it was not expanded yet')


def queue_empty(q, queue):
    """True: the queue is known to be empty, False: it is only known to be short, None: not known"""
    out = None
    for l in q.lits:
        a = atoms_in(l)
        size = ('SIZE',) + queue
        if size in a and l[0] in ('uge', 'ge', 'ugt', 'gt', 'eq'):
            t = unfz(l[1]).t
            n = t.get((size,), 0)
            if set(t) <= {(size,), ()} and n in (1, -1):
                k = t.get((), 0) * (1 if n == -1 else -1) if l[0] == 'eq' else t.get((), 0)
                if l[0] != 'eq' and n != -1:
                    continue
                k -= l[0] in ('ugt', 'gt')
                if k <= 0:
                    return True
                out = False
        if ('EMPTY',) + queue in a and l[0] == 'bool' and l[2]:
            return True
    return out


def stale(self, q):
    """the queue's top entry is not read in place once it was removed"""
    v, gone = q.s.v, not q.ev('pop') and q.start in self.inner_heads()
    root = ('deref', fz(atom(('TOP',) + self.queue)))
    for i in v.on_path(('load', 'call', 'invoke')):
        if i.op != 'load' and i.callee and i.callee.startswith('std::priority_queue<') and method(i.callee) == 'pop':
            gone = True
            continue
        for o in (i.ops if i.op != 'load' else i.ops[:1]):
            if q.f.is_ptr(o):
                l = v.loc(o)
                if l is not None and q.place(l)[0] == root and gone:
                    self.ob('queue', False, 'stale', 'the queue\'s top entry is read in place after it was removed')
                    return
    self.ob('queue', True, 'stale', '')


def inner_heads(self):
    pops = {e.i.block for q in self.segs for e in q.ev('pop')}
    out = set()
    for h, body in self.loops.items():
        if pops <= set(body):
            out |= {x for x in self.loops if x != h and x in body}
    return out


Search.inner_heads = Dijkstra.inner_heads = inner_heads


# ---------------------------------------------------------------- the path out of the record
def extraction(c, f):
    c.saw(f)
    name = 'ExtractAstarResult'
    ss = segments(f)
    if ss is None:
        c.unsure('extract', name, f'{f.where()}: too many paths')
        return

    def ob(ok, key, text, readable=True):
        return c.ob('extract', ok, f'{name}|{key}', f'{f.where()}: {text}', readable=readable)
    Q = [Seg(f, s) for s in ss]
    ex = (('arg', 1), 0)
    goal = next((a[2] for q in Q for l in q.lits for a in atoms_in(l) if isinstance(a, tuple) and a[:1] == ('FIND',)), None)
    entry = ('at', fz(atom(('FIND', ex, goal, 0))))
    if goal is None or not (goal == ('place', ('arg', 2), 0) or goal == ('m', (('arg', 2), 0))):
        c.unsure('extract', f'{name}|goal', f'{f.where()}: look-up of the goal state not readable')
        return
    heads = f.loops()
    if len(heads) != 1:
        c.unsure('extract', f'{name}|loop', f'{f.where()}: the walk along the predecessors was not found')
        return
    H = next(iter(heads))
    lists = {e.dst for q in Q for e in q.ev('list')}
    curs = {e.dst for q in Q for e in q.ev('maybecopy')} | {e.dst for q in Q for e in q.ev('maybeuse') if e.name != 'Value'}
    c.count('extractions')
    for q in Q:
        found = q.found(ex, goal)
        res = q.ev('result')
        if q.start not in heads and q.stop[0] == 'ret':
            ob(found is False and all(e.path is None for e in res) and bool(res), 'unknown', 'no path is reported although the goal was recorded, or one although it was not')
            continue
        if q.start not in heads:
            ob(found is True, 'found', 'the path is followed without the goal having been recorded')
            ls = q.ev('list')
            ok = len(ls) == 1 and (ls[0].item in (goal, ('place', ('arg', 2), 0)) or ls[0].item == ('place', entry, 0))
            ob(ok, 'goal', 'the path does not start out from the goal state')
            cp = q.ev('maybecopy')
            ok = len(cp) == 1 and from_record(q, cp[0].src, entry)
            ob(ok, 'first', 'the walk does not start with the predecessor recorded for the goal', readable=len(cp) == 1 and readable(q, cp[0].src))
            continue
        has = None
        for l in q.lits:
            t = one(l[1]) if l[0] == 'bool' else None
            if isinstance(t, tuple) and t[:1] == ('HAS',) and t[2:] in curs:
                has, cur = l[2], t[2:]
        if has is None:
            c.unsure('extract', f'{name}|end', f'{f.where()}: the end of the walk along the predecessors is not readable')
            continue
        me = ('value',) + cur
        if q.stop[0] == 'ret':
            ob(has is False, 'complete', 'the path ends before a state without predecessor')
            ok = len(res) == 1 and res[0].path in lists
            rev = q.ev('reverse')
            vec = [e for e in q.ev('vector') if res and e.dst == res[0].path and e.rev]
            back = all(e.name in ('push_back', 'emplace_back') for x in Q for e in x.ev('list'))
            if ok and back:
                ob(len(rev) == 1, 'reversed', 'the path is reported from goal to start')
                ob(all(e.whole is not False for e in rev), 'reversed whole', 'a part of the path only is reversed')
            elif not (vec and back and not rev):
                c.unsure('extract', f'{name}|reversed', f'{f.where()}: order of the reported path not readable')
            if len(res) == 1:
                ob(q.stored(res[0].cost, ex, goal), 'cost', 'the cost reported is not the one recorded for the goal', readable=isinstance(res[0].cost, tuple))
                ob(res[0].dst == (('arg', 0), 0), 'reported', '', readable=False)
        else:
            ob(has is True, 'continues', 'the walk goes on from a state without predecessor')
            ls, cp = q.ev('list'), q.ev('maybecopy')
            item = ls[0].item if len(ls) == 1 else None
            ob(len(ls) == 1 and (item == me or entry_key(item, ex, me)), 'each', 'a predecessor on the way is left out or listed twice', readable=len(ls) != 1 or isinstance(item, tuple))
            ok = len(cp) == 1 and cp[0].dst == cur and (from_record(q, cp[0].src, ('elem', ex, fz(atom(me)))) or
                                                        from_record(q, cp[0].src, ('at', fz(atom(('FIND', ex, me, 0))))))
            ob(ok, 'next', 'the walk does not go on with the predecessor recorded for the state just listed', readable=len(cp) == 1 and readable(q, cp[0].src))
            if ls and cp and item == me and q.place(q.s.v.loc(ls[0].i.ops[-1])) not in q.alias:
                ob(ls[0].n < cp[0].n, 'stale', 'the predecessor is replaced before it is listed')


def entry_key(item, ex, me):
    return isinstance(item, tuple) and item[:1] == ('place',) and len(item) == 3 and item[2] == 0 and item[1] == ('at', fz(atom(('FIND', ex, me, 0))))


def readable(q, src):
    x = one(src[0][1]) if isinstance(src, tuple) and isinstance(src[0], tuple) and src[0][0] == 'deref' else None
    return isinstance(x, tuple) and x[:2] == ('T', 'RawBackPointer')


def from_record(q, src, root):
    """src is the predecessor kept in the map entry with the given root"""
    x = one(src[0][1]) if isinstance(src, tuple) and src[1] == 0 and isinstance(src[0], tuple) and src[0][0] == 'deref' else None
    if not (isinstance(x, tuple) and x[:2] == ('T', 'RawBackPointer')):
        return False
    r = x[2]
    return r == root or r[0] == root[0] == 'elem' and r[1] == root[1] and one(r[2]) == one(root[2])


# ---------------------------------------------------------------- overloads that prepare a search
class Wrapper:
    def __init__(self, c, m, f, inner):
        self.c, self.m, self.f = c, m, f
        self.inner = inner

    def ob(self, kind, ok, key, text, readable=True):
        return self.c.ob(kind, ok, f'{self.name}|{key}', f'{self.f.where()}: {text}', readable=readable)

    def call(self, name):
        """the inner search call with its operands as places or values; closures resolved to (body, captures)"""
        c, f = self.c, self.f
        self.name = name
        c.saw(f)
        self.raw = segments(f)
        self.segs = [Seg(f, s) for s in self.raw or []]
        out = []
        for q in self.segs:
            if q.stop[0] != 'ret':
                continue
            v = q.s.v
            for i in v.on_path(('call', 'invoke')):
                if i.callee and re.search(rf'^{PRE[1:]}Perform(Lazy)?AstarSearch<[^(]*$', i.callee):
                    out.append((q, i, [q.place(v.loc(o)) if f.is_ptr(o) else one(q.rep(fz(v.val(o)))) for o in i.ops]))
        if len(out) != 1:
            c.unsure('roles', name, f'{f.where()}: the search this overload starts was not found')
            return None
        self.q, self.i, self.ops = out[0]
        self.fns = {}
        v = self.q.s.v
        for i in v.on_path(('call', 'invoke')):
            x = re.match(r'^std::function<.*>::function<(.*?)(?: const)?&?(?:, void)?>$', i.callee or '')
            if x and len(i.ops) >= 2:
                body = next((g for g in self.m.fns if g.qual.endswith('::operator()') and g.qual[:-12] == x.group(1).replace(' const&', '').strip()), None) or \
                    next((g for g in self.m.fns if g.qual.endswith('::operator()') and (i.callee or '').find(g.qual[:-12]) >= 0 and
                          (i.callee or '')[(i.callee or '').find(g.qual[:-12]) + len(g.qual[:-12]):][:1] in (' ', ',', '>', '&')), None)
                self.fns[self.q.place(v.loc(i.ops[0]))] = (body, self.captured(v.loc(i.ops[1])))
        return self.ops

    def captured(self, l):
        """offset in the closure -> place of the creator it refers to (or value)"""
        out = {}
        v = self.q.s.v
        if l is None or l[0][0] != 'alloca':
            return out
        for i in self.f.insts():
            if i.op == 'store':
                d = v.loc(i.ops[1])
                if d and d[0] == l[0]:
                    x = v.val(i.ops[0])
                    x = atom1(x) if isinstance(x, P) else x
                    if isinstance(x, tuple) and x[0] == 'ptr':
                        out[d[1] - l[1]] = self.q.place(x[1])
                    elif isinstance(x, tuple) and x[0] == 'arg':
                        out[d[1] - l[1]] = x
        return out

    def fn(self, place):
        return self.fns.get(place, (None, None))


class Body:
    """a lambda's segments with captured places in the creator's terms"""
    def __init__(self, f, caps):
        self.f, self.caps = f, caps
        self.first = 1 if sret(f) else 0
        self.raw = segments(f) or []
        self.segs = [Seg(f, s) for s in self.raw]

    def R(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        if len(t) == 2 and isinstance(t[1], int) and isinstance(t[0], tuple):
            r = self.ref(t[0])
            if r is not None:
                return (r[0], r[1] + t[1])
        if t[0] == 'place' and len(t) == 3:
            return ('place',) + self.R((t[1], t[2]))
        if t[0] == 'arg' and len(t) == 2:
            return ('own', t[1] - self.first)
        if t[0] == 'm' and len(t) == 2 and t[1][0] == ('arg', self.first) and t[1][1] in self.caps and self.caps[t[1][1]][0] == 'arg':
            return ('O', self.caps[t[1][1]][1])
        if t[0] == 'P' and len(t) == 2:
            return ('P', tuple(sorted(((tuple(sorted((self.R(a) for a in k), key=str)), v) for k, v in t[1]), key=str)))
        return tuple(self.R(x) for x in t)

    def ref(self, root):
        if isinstance(root, tuple) and len(root) == 2 and root[0] == 'deref':
            x = one(root[1])
            if isinstance(x, tuple) and x and x[0] == 'm' and isinstance(x[1], tuple) and x[1][0] == ('arg', self.first):
                p = self.caps.get(x[1][1])
                if p is not None:
                    return (('O', p[0][1]), p[1]) if p[0][0] == 'arg' else ((('L',) + p[0][1:]), p[1])
        return None

    def value(self):
        """returned term of a body without branches"""
        rs = [q for q in self.segs if q.stop[0] == 'ret']
        if len(self.segs) != 1 or not rs or not rs[0].s.end.ops:
            return None
        t = rs[0].s.ret()
        return self.R(one(rs[0].rep(fz(t) if isinstance(t, P) else t)))


def own(k):
    return ('place', ('own', k), 0)


def other(k):
    return ('place', ('O', k), 0)


def node_value(g, index):
    n = ('M', 'GetNodeImmutable', g, (index,))
    v = ('M', 'GetValueImmutable', (('deref', fz(atom(n))), 0), ())
    return ('place', ('deref', fz(atom(v))), 0)


def wrappers(c, m, fs):
    for f in fs:
        at = f.argtypes
        W = Wrapper(c, m, f, None)
        if 'simple_astar_search' in f.qual and any('StateWithCost' in a for a in at):
            checked(c, W)
        elif 'simple_astar_search' in f.qual:
            between(c, W)
        elif 'PerformLazyAstarSearch' in f.qual and 'State' not in f.qual.split('AstarSearch<')[1]:
            indices(c, W)
        elif 'PerformLazyAstarSearch' in f.qual:
            values(c, W, lazy=True)
        else:
            values(c, W, lazy=False)


def passed(W, k, ops, want, what):
    W.ob('roles', ops[k] == want, what, f'the {what} handed to the search is not the one given')


def arg(k):
    return (('arg', k), 0)


def body_value(W, place, role, expect, text):
    """the closure in that role returns one of the expected terms"""
    g, caps = W.fn(place)
    if g is None:
        if place[0][0] == 'arg':
            W.ob('roles', False, role, text)
        else:
            W.c.unsure('roles', f'{W.name}|{role}', f'{W.f.where()}: function given to the search as its {role} not found')
        return
    W.c.saw(g)
    b = Body(g, caps)
    t = b.value()
    flatg = [x for x in expect]
    W.ob('roles', t in flatg, role, text, readable=isinstance(t, tuple) and (t[0] in ('FN', 'M', 'T', 'cond', 'cf') or t[0] == 'P' and unfz(t).const() is not None))


def unlooped(g):
    """the function neither loops nor hands its work to something that might"""
    return not g.loops() and all(i.callee is None or re.match(r'^(std::vector<|__gnu_cxx::(__normal_iterator<|operator)|llvm\.)', i.callee)
                                 for b in g.blocks for i in b if i.op in ('call', 'invoke'))


def checked(c, W):
    ops = W.call('PerformAstarSearch(checked)')
    if ops is None:
        return
    if len(ops) != 8:
        c.unsure('roles', W.name, f'{W.f.where()}: the search this overload starts takes other arguments')
        return
    for k, want, what in ((1, 1, 'start states'), (2, 2, 'goal check'), (4, 6, 'heuristic'), (6, 8, 'hash'), (7, 9, 'equality')):
        passed(W, k, ops, arg(want), what)
    W.ob('roles', ops[5] == ('arg', 7), 'limit', 'the choice to limit duplicates is not handed on')
    g, caps = W.fn(ops[3])
    if g is None:
        c.unsure('roles', f'{W.name}|children', f'{W.f.where()}: generator of children not found')
        return
    c.saw(g)
    b = Body(g, caps)
    lp = Loops(g, b.raw)
    hs = [h for h in g.loops()]
    if len(hs) != 1 or hs[0] not in lp.iters:
        if len(hs) == 1 and hs[0] in lp.off:
            W.ob('children', False, 'candidates', 'not every candidate child is considered')
        else:
            c.unsure('children', f'{W.name}|candidates', f'{W.f.where()}: loop over the candidate children not readable')
        return
    it = lp.iters[hs[0]]
    W.ob('children', not lp.early(it), 'candidates', 'the loop over the candidate children ends before the last one')
    gen = [e for q in b.segs for e in q.ev('fn') if e.dst is not None]
    ok = len(gen) == 1 and b.R(gen[0].fn) == (('O', 3), 0) and b.R(gen[0].args) == (own(1),)
    W.ob('children', ok, 'generated', 'the candidates are not the children generated for the state asked about', readable=len(gen) == 1)
    if len(gen) == 1:
        W.ob('children', b.segs[0].place(it.K) == gen[0].dst, 'which', 'the states considered are not the candidates generated')
    for q in b.segs:
        if q.start != it.h or q.stop != ('loop', it.h):
            continue
        me = q.place(it.place())
        pair = (own(1), ('place',) + b.R(me))
        said = None
        for l in q.lits:
            t = b.R(one(l[1])) if l[0] == 'bool' else None
            if isinstance(t, tuple) and t[0] == 'FN' and t[1] == (('O', 4), 0):
                W.ob('children', t[2] == pair, 'asked', 'validity is not asked for the way from the state to its child')
                said = l[2]
        ls = q.ev('list')
        asks = any(b.R(e.fn) == (('O', 4), 0) for x in b.segs for e in x.ev('fn'))
        W.ob('children', said is not None and (len(ls) == 1 if said else not ls), 'valid', 'the children returned are not exactly those the edge check accepted', readable=said is not None or not asks)
        for e in ls:
            first, cost = (b.R(x) for x in q.weighted(e))
            W.ob('children', cost == ('FN', (('O', 5), 0), pair), 'cost', 'the cost of a child is not the distance from the state to it', readable=isinstance(cost, tuple) and cost[0] == 'FN')
            W.ob('children', first == pair[1], 'child', 'a child is returned as another state', readable=isinstance(first, tuple) and first[0] == 'place')


def between(c, W):
    ops = W.call('PerformAstarSearch(start, goal)')
    if ops is None:
        return
    if len(ops) != 10:
        c.unsure('roles', W.name, f'{W.f.where()}: the search this overload starts takes other arguments')
        return
    for k, want, what in ((3, 3, 'generator of children'), (4, 4, 'edge check'), (5, 5, 'distance'), (8, 8, 'hash'), (9, 9, 'equality')):
        passed(W, k, ops, arg(want), what)
    W.ob('roles', ops[7] == ('arg', 7), 'limit', 'the choice to limit duplicates is not handed on')
    items = [W.q.weighted(e) for e in W.q.ev('list') if e.dst == ops[1]]
    W.ob('roles', len(items) == 1 and items[0][0] == ('place', ('arg', 1), 0), 'start', 'the search does not begin at the given start alone', readable=len(items) == 1 and items[0][0] is not None)
    for _, cost in items:
        W.ob('roles', cost in (0, ('P', ())), 'start cost', 'the search does not begin at cost zero', readable=cost is not None)
    eq = (('O', 9), 0)
    body_value(W, ops[2], 'goal check', [('M', 'operator()', eq, (own(1), other(2))), ('M', 'operator()', eq, (other(2), own(1)))],
               'the goal check does not compare the state with the given goal')
    body_value(W, ops[6], 'heuristic', [('FN', (('O', 6), 0), (own(1), other(2)))], 'the heuristic is not asked from the state to the given goal')


def untouched(W, k):
    """no call of the overload itself is handed the argument"""
    return not any(i.callee and W.f.is_ptr(o) and q.place(q.s.v.loc(o)) == arg(k) for q in W.segs for i in q.s.v.on_path(('call', 'invoke')) for o in i.ops)


def indices(c, W):
    ops = W.call('PerformLazyAstarSearch(indices)')
    if ops is None:
        return
    for k, want, what in ((1, 1, 'graph'), (4, 4, 'edge check'), (5, 5, 'distance')):
        passed(W, k, ops, arg(want), what)
    W.ob('roles', ops[7] == ('arg', 7), 'limit', 'the choice to limit duplicates is not handed on')
    lp = Loops(W.f, W.raw)
    for k, what in ((2, 'starts'), (3, 'goals')):
        ok = False
        for h, it in lp.iters.items():
            if erase(it.K) != arg(k) or lp.early(it):
                continue
            back = [q for q in W.segs if q.start in it.body and q.stop == ('loop', h)]
            ok |= bool(back) and all(said_in_range(q, arg(1), it) for q in back)
        W.ob('range', ok, what, f'indices of the {what} outside the graph are not refused before the search', readable=any(erase(i.K) == arg(k) for i in lp.iters.values()) or
             any(erase(i.K) == arg(k) for i in lp.off.values()) or untouched(W, k))
    # starts at cost zero
    ok = rd = False
    for h, it in lp.iters.items():
        for q in W.segs:
            if q.start == h and q.stop == ('loop', h):
                ls = [e for e in q.ev('list') if e.dst == ops[2]]
                if ls:
                    rd = True
                    first, cost = q.weighted(ls[0])
                    me = q.place(it.place())
                    zero = cost in (('P', ()), 0)
                    rd = first is not None
                    ok = len(ls) == 1 and erase(it.K) == arg(2) and not lp.early(it) and zero and first in (('place',) + me, ('m', me))
    W.ob('roles', ok, 'starts', 'the search does not begin at all given starts at cost zero', readable=rd)
    goal_body(c, W, ops[3])
    heur_body(c, W, ops[6])


def said_in_range(q, graph, it):
    me = q.place(it.place())
    for l in q.lits:
        t = one(l[1]) if l[0] == 'bool' else None
        if isinstance(t, tuple) and t[:2] == ('M', 'IndexInRange') and t[2] == graph and t[3] in ((('m', me),), (('place',) + me,)) and l[2]:
            return True
    return False


def goal_body(c, W, place):
    g, caps = W.fn(place)
    if g is None:
        c.unsure('roles', f'{W.name}|goal check', f'{W.f.where()}: goal check not found')
        return
    c.saw(g)
    b = Body(g, caps)
    lp = Loops(g, b.raw)
    hs = list(g.loops())
    it = lp.iters.get(hs[0]) if len(hs) == 1 else None
    if it is None or b.R(b.segs[0].place(it.K)) != (('O', 3), 0):
        W.ob('goal', False, 'any', 'not every goal is compared', readable=unlooped(g) or len(hs) == 1 and (hs[0] in lp.off or it is not None))
        return
    for q in b.segs:
        if q.start != it.h:
            continue
        me = ('m', q.place(it.place()))
        equal = None
        for l in q.lits:
            if l[0] in ('eq', 'ne') and l[1] and l[1][0] == 'P' and unfz(l[1]) in (atom(('arg', 2)) - atom(me), atom(me) - atom(('arg', 2))):
                equal = l[0] == 'eq'
        if q.stop == ('loop', it.h):
            W.ob('goal', equal is False, 'each', 'an index is not accepted as a goal although it is one of them')
        elif q.stop[0] == 'ret':
            r = q.s.ret()
            r = atom1(r) or r
            r = decide(q, fz(q.s.ret()), (equal, lp.over(q.s, it)), it, me)
            W.ob('goal', r == (equal is True) if r is not None else False, 'answer', 'the goal check answers wrongly about the indices given as goals', readable=r is not None)


def decide(q, t, known, it, me):
    """constant boolean returned"""
    equal, over = known
    t = one(q.rep(t))
    if isinstance(t, tuple) and t[0] == 'P':
        k = unfz(t).const()
        return None if k is None else bool(k)
    if isinstance(t, int):
        return bool(t)
    if isinstance(t, tuple) and t[0] == 'sel':
        cnd = t[1][1]
        if cnd[0] in ('eq', 'ne') and equal is not None:
            return decide(q, t[2] if (cnd[0] == 'eq') == equal else t[3], known, it, me)
    if isinstance(t, tuple) and t[0] == 'phi' and equal is None:
        return False
    return None


def heur_body(c, W, place):
    g, caps = W.fn(place)
    if g is None:
        c.unsure('roles', f'{W.name}|heuristic', f'{W.f.where()}: heuristic not found')
        return
    c.saw(g)
    b = Body(g, caps)
    lp = Loops(g, b.raw)
    hs = list(g.loops())
    it = lp.iters.get(hs[0]) if len(hs) == 1 else None
    if it is None or b.R(b.segs[0].place(it.K)) != (('O', 3), 0):
        W.ob('order', False, 'goals', 'the heuristic does not consider every goal', readable=unlooped(g) or len(hs) == 1 and (hs[0] in lp.off or it is not None))
        return
    W.ob('order', not lp.early(it), 'goals', 'the heuristic does not consider every goal')
    rets = [q for q in b.segs if q.stop[0] == 'ret']
    acc = {one(fz(q.s.ret())) for q in rets}
    if len(acc) != 1 or next(iter(acc))[:1] != ('phi',):
        c.unsure('order', f'{W.name}|least', f'{W.f.where()}: value of the heuristic not readable')
        return
    a = acc.pop()
    phi = next((i for i in g.blocks[it.h] if i.op == 'phi' and i.id == a[1]), None)
    for q in b.segs:
        if q.stop != ('loop', it.h) or phi is None:
            continue
        x = one(q.rep(fz(q.s.next(phi))))
        if q.start != it.h:
            W.ob('order', x == ('cf', 'inf'), 'initial', 'the least heuristic value does not start out infinite', readable=True)
            continue
        me = ('m', q.place(it.place()))
        want = None
        for e in q.ev('fn'):
            if b.R(e.fn) == (('O', 6), 0):
                want = ('FN', e.fn, e.args)
                W.ob('order', e.args[1:] == (('arg', 2), me), 'asked', 'the heuristic is not asked from the index to the goal')
        if want is None:
            c.unsure('order', f'{W.name}|asked', f'{W.f.where()}: use of the heuristic not readable')
            continue
        less = None
        for l in q.lits:
            if l[0] in ('fogt', 'fugt', 'foge', 'fuge'):
                d = unfz(l[1])
                if d == atom(a) - atom(want):
                    less = True
                elif d == atom(want) - atom(a):
                    less = False
        if x == a:
            W.ob('order', less is False, 'kept', 'a smaller heuristic value is ignored', readable=less is not None)
        elif x == want:
            W.ob('order', less is True, 'least', 'the heuristic is not the least over the goals', readable=less is not None)
        else:
            c.unsure('order', f'{W.name}|least', f'{W.f.where()}: value of the heuristic not readable')


def values(c, W, lazy):
    ops = W.call('PerformLazyAstarSearch(values)' if lazy else 'PerformAstarSearch(graph)')
    if ops is None:
        return
    if len(ops) != 8:
        c.unsure('roles', W.name, f'{W.f.where()}: the search this overload starts takes other arguments')
        return
    for k, what in ((1, 'graph'), (2, 'starts'), (3, 'goals')):
        passed(W, k, ops, arg(k), what)
    W.ob('roles', ops[7] == ('arg', 7 if lazy else 5), 'limit', 'the choice to limit duplicates is not handed on')
    edge = [('T', n, ('own', 2), 0) for n in ('GetFromIndex', 'GetToIndex')]
    graphs = [(('own', 1), 0), (('O', 1), 0)]
    ends = [tuple(node_value(g, e) for e in edge) for g in graphs]
    if lazy:
        body_value(W, ops[4], 'edge check', [('FN', (('O', 4), 0), p) for p in ends], 'the edge check is not asked from the edge\'s origin to its target')
        body_value(W, ops[5], 'distance', [('FN', (('O', 5), 0), p) for p in ends], 'the distance is not asked from the edge\'s origin to its target')
    else:
        w = ('T', 'GetWeight', ('own', 2), 0)
        d = fz(atom(('cf', 'inf')) - atom(w))
        body_value(W, ops[4], 'edge check', [('cond', ('fogt', d)), ('cond', ('fugt', d)), ('cond', ('fone', d))], 'an edge is not followed exactly when its weight is finite')
        body_value(W, ops[5], 'distance', [w], 'the cost of an edge is not its weight')
    h = 6 if lazy else 4
    pairs = [tuple(node_value(g, x) for x in (('own', 2), ('own', 3))) for g in graphs]
    body_value(W, ops[6], 'heuristic', [('FN', (('O', h), 0), p) for p in pairs], 'the heuristic is not asked from the node to the goal')


# ---------------------------------------------------------------- value classes and comparators
def classes(c):
    m = c.work.load('search.cpp', [r'^(\w+::)*AstarPQueueElement<long>::\w+$', r'^(\w+::)*BackPointerAndCostToCome<long>::\w+$', r'^(\w+::)*StateWithCost<State>::\w+$',
                                   r'^(\w+::)*IndexAndDistance::\w+$', r'^(\w+::)*DijkstrasResult::(DijkstrasResult|GetPreviousIndex|GetNodeDistance)$',
                                   r'^(\w+::)*AstarResult<State, [^(]*>::(AstarResult|PathCost|Path)$', r'^cheaper(_index)?$'],
                    keep=[r'^(\w+::)*OwningMaybe<[^(]*>::[~\w= ]+$', r'^State::', r'^std::vector<'])
    acc, ctor, compare = {}, [], []
    for f in m.fns:
        if f.qual.startswith('cheaper'):
            compare.append(f)
            continue
        n = method(f.qual)
        cls = re.sub(r'<.*', '', re.sub(r'^(\w+::)*(?=\w+(<.*>)?::\w+$)', '', f.qual)).split('::')[0]
        if n == cls:
            ctor.append((cls, f))
        else:
            ps = paths(f) or []
            if len(ps) == 1 and ps[0].ret() is not None:
                acc[cls, n] = (f, where_from(ps[0], f))
    off = {}
    for (cls, n), (f, l) in acc.items():
        c.saw(f)
        if l is None or l[0] != ('arg', 0):
            if n not in ('HasBackPointer', 'BackPointer'):
                c.unsure('entries', f'{cls}::{n}', f'{f.where()}: what {n} returns is not readable')
            continue
        off[cls, n] = l[1]
    back = {'BackPointer', 'HasBackPointer', 'RawBackPointer'}
    for (cls, a), o in list(off.items()):
        for (cls2, b), o2 in off.items():
            if cls == cls2 and a < b and not {a, b} <= back:
                c.ob('entries', o != o2, f'{cls}|{a}|{b}', f'{a} and {b} of {cls} return the same member')
    roles = {('AstarPQueueElement', 4): {'State': 1, 'RawBackPointer': 2, 'CostToCome': 3, 'Value': 4},
             ('AstarPQueueElement', 3): {'State': 1, 'CostToCome': 2, 'Value': 3},
             ('StateWithCost', 2): {'State': 1, 'Cost': 2}, ('StateWithCost', 1): {'State': 1},
             ('IndexAndDistance', 2): {'Index': 1, 'Distance': 2},
             ('DijkstrasResult', 2): {'GetPreviousIndex': 1, 'GetNodeDistance': 2},
             ('AstarResult', 2): {'Path': 1, 'PathCost': 2}}
    for cls, f in ctor:
        n = len(f.params) - 1
        if cls == 'BackPointerAndCostToCome' and n == 1 and 'AstarPQueueElement' in f.argtypes[2]:
            entry_record(c, f, off)
            continue
        want = roles.get((cls, n))
        if want is None or n == 1 and cls in f.argtypes[2].split('<')[0]:
            continue
        c.saw(f)
        for p in paths(f) or []:
            for role, k in want.items():
                o = off.get((cls, role))
                if o is None:
                    c.unsure('entries', f'{cls}|{role}', f'{f.where()}: member behind {role} not found')
                    continue
                got = stored_at(p, f, o)
                c.ob('entries', got == ('arg', k), f'{cls}|{n}|{role}', f'{f.where()}: {role} of {cls} is not what it was created with', readable=got is not None)
    # the result of a search that found nothing
    for cls, f in ctor:
        if cls == 'AstarResult' and len(f.params) == 1:
            for p in paths(f) or []:
                got = one(fz(p.v.mem((('arg', 0), off.get((cls, 'PathCost'), 24)), 8, p.end)))
                c.ob('outcome', got == ('cf', 'inf'), 'AstarResult|default', f'{f.where()}: a result without path does not cost infinity')
    for f in compare:
        comparator(c, f, off.get(('IndexAndDistance', 'Distance') if f.qual.split('(')[0] == 'cheaper' else ('AstarPQueueElement', 'Value')))
    c.need('obligations:entries', 6)
    return off


def where_from(p, f):
    """place whose address or content a one-line accessor returns"""
    t = p.ret()
    if isinstance(t, tuple) and t[0] == 'ptr':
        return t[1]
    a = atom1(t) if isinstance(t, P) else t if isinstance(t, tuple) else None
    if a and a[0] == 'm' and a[1][0][0] == 'elem':
        # an element of a member vector, at the index asked for
        _, vec, index = a[1][0][:3]
        return vec if one(index) == ('arg', 1) and a[1][1] == 0 else None
    if a and a[0] == 'm':
        return a[1]
    if a and a[0] == 'ptr':
        return a[1]
    if a and a == ('arg', 0):
        return (('arg', 0), 0)
    return None


def stored_at(p, f, o):
    """argument whose value (or copy) ends up at offset o"""
    v = p.v
    for i in reversed(list(v.on_path(("call", "invoke", "store")))):
        if i.op == 'store':
            l = v.loc(i.ops[1])
            if l == (('arg', 0), o):
                t = fz(v.val(i.ops[0]))
                if isinstance(t, tuple) and t[0] == 'P' and (len(t[1]) != 1 or not t[1]) and all(origin(k) for ks, _ in t[1] for k in ks):
                    return ('other',)
                x = one(t)
                return ('other',) if isinstance(x, tuple) and x[:1] == ('cf',) else origin(x)
        elif i.callee and len(i.ops) >= 2 and f.is_ptr(i.ops[0]) and v.loc(i.ops[0]) == (('arg', 0), o) and method(i.callee) in ('State', 'OwningMaybe', 'vector', 'operator='):
            l = v.loc(i.ops[1])
            if l is None:
                return None
            if l[0][0] == 'arg' and l[1] == 0:
                return l[0]
            if l[0][0] == 'alloca':
                for j in v.on_path(('call', 'invoke', 'store')):
                    if j.op == 'store' and v.loc(j.ops[1]) == l:
                        return origin(one(fz(v.val(j.ops[0]))))
                    if j.op != 'store' and j.callee and len(j.ops) >= 2 and v.loc(j.ops[0]) == l and j is not i:
                        x = v.loc(j.ops[1])
                        return x[0] if x and x[0][0] == 'arg' and x[1] == 0 else None
            return None
    return None


def origin(x):
    if isinstance(x, tuple) and x[:1] == ('arg',):
        return x
    if isinstance(x, tuple) and x[:1] == ('m',) and x[1][0][0] == 'arg' and x[1][1] == 0:
        return x[1][0]
    return None


def entry_record(c, f, off):
    """a record made from a queue entry takes over its cost and its predecessor"""
    c.saw(f)
    for p in paths(f) or []:
        v = p.v
        oc, ob_ = off.get(('BackPointerAndCostToCome', 'CostToCome')), off.get(('BackPointerAndCostToCome', 'RawBackPointer'))
        sc, sb = off.get(('AstarPQueueElement', 'CostToCome')), off.get(('AstarPQueueElement', 'RawBackPointer'))
        if None in (oc, ob_, sc, sb):
            c.unsure('entries', 'record', f'{f.where()}: members of the record not found')
            continue
        got = one(fz(v.mem((('arg', 0), oc), 8, p.end)))
        c.ob('entries', got == ('m', (('arg', 1), sc)), 'record cost', f'{f.where()}: the record does not take over the entry\'s cost')
        back = [v.loc(i.ops[1]) for i in v.on_path(('call', 'invoke')) if i.callee and 'OwningMaybe' in i.callee and len(i.ops) == 2 and v.loc(i.ops[0]) == (('arg', 0), ob_)]
        c.ob('entries', back == [(('arg', 1), sb)], 'record predecessor', f'{f.where()}: the record does not take over the entry\'s predecessor', readable=len(back) == 1)


def comparator(c, f, off):
    """the entry that orders first is the one with the smaller value"""
    c.saw(f)
    n = re.sub(r'\(.*', '', f.qual)
    text = f'{f.where()}: the queue does not put the entry with the smallest value first'
    for p in paths(f) or []:
        t = p.ret()
        t = one(fz(t) if isinstance(t, P) else t)
        if off is not None and isinstance(t, tuple) and t[0] == 'cond' and t[1][0] in ('fogt', 'fugt') and t[1][1][0] == 'P':
            ms = {k[0][1][0]: (v, k[0][1][1]) for k, v in t[1][1][1] if len(k) == 1 and isinstance(k[0], tuple) and k[0][0] == 'm'}
            ok = len(ms) == 2 and ms.get(('arg', 0), (0, 0))[0] == 1 and ms.get(('arg', 1), (0, 0))[0] == -1 and ms[('arg', 0)][1] == ms[('arg', 1)][1] == off
            c.ob('order', ok, f'{n}|least first', text)
        elif isinstance(t, tuple) and t[0] == 'cond':
            c.ob('order', False, f'{n}|least first', text, readable=off is not None and t[1][0] in ('foge', 'fuge', 'eq', 'ne', 'ge'))
        else:
            c.unsure('order', f'{n}|least first', f'{f.where()}: comparison of queue entries not readable')


def run(c):
    c.rule('queue', 'entries are read before they are removed, one at a time, and not used in place afterwards')
    c.rule('order', 'the queue puts the smallest value first, which is cost plus heuristic (least over the goals) of the same state')
    c.rule('expand', 'an entry is dropped when its state is recorded at its cost or below and expanded otherwise')
    c.rule('record', 'expanding an entry records predecessor and cost of that very entry under its state, replacing what was recorded')
    c.rule('goal', 'the goal check is asked about each state expanded, and decides success')
    c.rule('children', 'every child over a valid edge is queued with its predecessor and the predecessor\'s cost plus the edge\'s, unless known at that cost or below')
    c.rule('duplicates', 'what is noted as queued is what was queued')
    c.rule('starts', 'every start is queued at its own cost without predecessor')
    c.rule('outcome', 'success reports the path of the accepted state from the record, failure reports no path')
    c.rule('extract', 'a path is the goal and the recorded predecessors up to one without, reversed, with the cost recorded for the goal')
    c.rule('roles', 'overloads hand every argument to the search in its role, asking about pairs of states in the direction of travel')
    c.rule('range', 'start and goal indices outside the graph are refused')
    c.rule('entries', 'queue entries, records and results return what they were created with')
    c.assume('callbacks supplied by the caller do not touch the search\'s own state')
    c.assume('copying a state preserves its value; hash and equality are consistent')
    off = classes(c)
    m = c.work.load('search.cpp', [r'^(\w+::)*Perform(Lazy)?AstarSearch<[^(]*$', r'^(\w+::)*Perform(Lazy)?AstarSearch<[^(]*\(.*::operator\(\)(\(|$)',
                                   r'^(\w+::)*PerformDijkstrasAlgorithm<[^(]*$', r'^(\w+::)*ExtractAstarResult<[^(]*$'], keep=KEEP)
    rest = []
    for f in m.fns:
        if f.qual.endswith('::operator()'):
            continue
        at = [re.sub(r'std::allocator<[^<>]*>|common_robotics_utilities::v\d+::', '', a) for a in f.argtypes]
        if 'PerformDijkstras' in f.qual:
            Dijkstra(c, f, off).run()
        elif 'ExtractAstarResult' in f.qual:
            extraction(c, f)
        elif 'simple_astar_search' in f.qual and any('StateWithCost' in a for a in at[1:]) and len(at) == 8:
            Search(c, f, 'PerformAstarSearch', 1, 2, 4, 5, children=3).run()
        elif 'PerformLazyAstarSearch' in f.qual and any('StateWithCost' in a for a in at[1:]):
            Search(c, f, 'PerformLazyAstarSearch', 2, 3, 6, 7, valid=4, dist=5, graph=1).run()
        else:
            rest.append(f)
    wrappers(c, m, rest)
    c.need('searches', 1)
    c.need('expansions', 1)
    c.need('obligations:roles', 3)


def sret(f):
    return bool(f.params and f.params[0].get('sret'))
