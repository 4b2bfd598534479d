"""C06: compression helpers never misreport a failure; base64 helpers stay within their tables and invert each other."""
import re

import sa
from codec import P, atom
from flow import atom1, atoms_in, proves
from loops import erase
from paths import segments, paths, feasible
from val import fz, unfz, num, subst

from c06_text import base64

APPEND = re.compile(r'^std::.*::(insert|append|assign)(<.*>)?$')
NS = r'common_robotics_utilities::v1::'
STREAM = re.compile(r'^(inflate|deflate)(Init_|Init2_|End|Reset|)$')


def run(c):
    c.rule('status', 'the status of every compression library call is tested: the stream goes on only after Z_OK, the function returns '
                     'only after Z_STREAM_END, everything else throws')
    c.rule('released', 'a stream that was set up is ended exactly once on every path, before returning or throwing; its allocation '
                       'members are set before it is set up')
    c.rule('whole', 'the stream reads the whole input; every byte it writes is appended to the result exactly once; it is never given '
                    'more room than its buffer has')
    c.rule('file', 'after the last read, or after the write and its flush, the file stream\'s state is tested and a failure throws; all '
                   'bytes of the file, or of the compressed data, are transferred')
    c.rule('table', 'every table look-up is below the size of the table for every possible character or byte')
    c.rule('block', 'Encode and Decode walk their input block by block, and decoding the characters of a block yields its bytes')
    c.assume('zlib and the stream library report their failures in their status; failed allocations inside the standard library '
             '(std::bad_alloc while appending) are not followed')
    m = c.work.load('text.cpp', NS + r'zlib_helpers::|^stream_[a-z_]+$', keep=[r'zlib_helpers::(Dec|C)ompressBytes$'])
    lay = {}
    for f in m.fns:
        n = f.qual.split('(')[0]
        if n.startswith('stream_'):
            r = paths(f)[0].ret()
            t = atom1(r) if isinstance(r, P) else r
            lay[n[7:]] = t[1][1] if t[0] == 'ptr' else 0
    n = 0
    for f in m.fns:
        if any(STREAM.match(i.cn or '') for i in f.insts() if i.op in ('call', 'invoke')):
            for a in sorted({base(f, i) for i in f.insts() if i.op in ('call', 'invoke') and STREAM.match(i.cn or '')}, key=str):
                Zlib(c, f, lay, a).check()
                n += 1
        if any('fstream' in (i.callee or '') for i in f.insts() if i.op in ('call', 'invoke')):
            files(c, f)
    if n < 2:
        raise sa.Broken('compression streams not found')
    base64(c)
    c.need('obligations:status', 4)
    c.need('obligations:table', 6)


def base(f, i):
    b = f.ptr(i.ops[0])[0]
    return b


def is_null(t):
    return t == P(0) or isinstance(t, tuple) and t and t[0] == 'null' or isinstance(t, P) and atom1(t) == ('null',) or t == ('null',)


def equals(lits, a, v):
    """literals say that term a is v"""
    d = a - P(v)
    return any(l[0] == 'eq' and unfz(l[1]) in (d, P(0) - d) for l in lits) or proves(lits, d) and proves(lits, P(0) - d)


class State:
    def __init__(self, **k):
        self.up = 0             # 0 not set up, 1 set up, 2 released
        self.status = None      # term of the latest status, 'ok' or 'end'
        self.pending = False    # bytes in the buffer that have not been appended
        self.taken = False      # appended, but the buffer has not been reset
        self.known = ()         # ((phi atom, constant), ...)
        self.room = frozenset()     # which of next_out and avail_out were set since the stream wrote last
        self.input = frozenset()    # which of next_in and avail_in were set
        self.state0 = False     # the stream's state was initialised before it was set up
        self.failed = False     # setting it up may have failed
        self.__dict__.update(k)

    def key(self):
        return (self.up, repr(fz(self.status)) if isinstance(self.status, P) else self.status, self.pending, self.taken, self.known, self.room, self.input,
                self.state0, self.failed)

    def copy(self):
        return State(**self.__dict__)


class Zlib:
    def __init__(self, c, f, lay, b):
        self.c, self.f, self.lay, self.b = c, f, lay, b
        self.ss = segments(f, throws=True)
        self.name = f.short().split('(')[0]
        self.results = {}
        self.into = None
        self.returning = []

    def ob(self, kind, ok, what, i, text):
        k = (kind, what)
        old = self.results.get(k)
        if old is None or old[0] and not ok:
            self.results[k] = (ok, f'{i.where() if i is not None else self.f.where()}: {text}')

    def check(self):
        c, f = self.c, self.f
        c.saw(f)
        if self.ss is None or self.b[0] != 'i':
            c.unsure('status', self.name, 'too many paths, or the stream is not a local')
            return
        self.root = ('alloca', f.get(self.b).id) if f.get(self.b) is not None and f.get(self.b).op == 'alloca' else None
        if self.root is None:
            c.unsure('status', self.name, 'the stream is not a local')
            return
        for s in self.ss:
            for i in s.v.on_path(('call', 'invoke')):
                z = STREAM.match(i.cn or '')
                if z and z.group(2) == '' and self.within(s.v.loc(i.ops[0])):
                    self.room(s, i, s.v.mem(self.member('avail_out'), 4, i), s.v.mem(self.member('next_out'), 8, i))
        for s in self.ss:
            for i in s.v.on_path(('call', 'invoke')):
                if APPEND.search(i.callee or '') and self.buf is not None:
                    ls = [s.v.loc(o) if f.is_ptr(o) else None for o in i.ops]
                    if self.hits(ls):
                        self.into = ls[1 if i.sret else 0]
        seen, todo = set(), [(0, State())]
        while todo:
            h, st = todo.pop()
            if (h, st.key()) in seen or len(seen) > 400:
                continue
            seen.add((h, st.key()))
            for s in self.ss:
                if s.start == h and self.possible(s, st):
                    e = self.step(s, st.copy())
                    if e is not None:
                        todo.append((s.stop[1], e))
        if self.into is None:
            if self.buf is None or self.mentioned():
                self.results = {k: v for k, v in self.results.items() if k[0] != 'whole' or v[0]}
                c.unsure('whole', self.name, f'{f.where()}: what becomes of the bytes the stream writes is not followed')
            else:
                self.ob('whole', False, 'result', None, 'the bytes the stream writes are not appended to anything')
        else:
            for s in self.returning:
                self.result(s)
        for (kind, what), (ok, text) in self.results.items():
            c.ob(kind, ok, f'{self.name}|{what}', text)

    def possible(self, s, st):
        m = {a: P(v) for a, v in st.known}
        if st.status in ('ok', 'end') or not m:
            lits = s.lits
        lits = [lit(l, m) for l in s.lits]
        return feasible(lits)

    def within(self, l):
        return l is not None and l[0] == self.root

    def member(self, n):
        return (self.root, self.lay[n])

    def settle(self, s, st):
        """what the literals say about the latest status"""
        if isinstance(st.status, P):
            if equals(s.lits, st.status, 0):
                return 'ok'
            if equals(s.lits, st.status, 1):
                return 'end'
        return st.status

    def step(self, s, st):
        v = s.v
        thrown = False
        for i in v.on_path(('call', 'invoke', 'store')):
            if i.op == 'store':
                l = v.loc(i.ops[1])
                for k in ('next_in', 'avail_in'):
                    if l == self.member(k):
                        st.input |= {k}
                        self.given(s, i, k, v.val(i.ops[0]))
                for k in ('next_out', 'avail_out'):
                    if l == self.member(k):
                        st.room = (st.room & {'next_out', 'avail_out'}) | {k}
                if l == self.member('next_out'):
                    self.ob('whole', not st.pending, 'output kept', i, 'the output buffer is used again before its content was appended')
                    st.taken = False
                continue
            z = STREAM.match(i.cn or '')
            if z and self.within(v.loc(i.ops[0])):
                self.zcall(s, st, i, z.group(2))
                continue
            n = i.callee or ''
            if APPEND.search(n):
                self.append(s, st, i)
            elif re.search(r'::(push_back|emplace_back)(<.*>)?$', n) and 'vector<unsigned char' in n:
                st.pending = None
            elif i.cn == '__cxa_throw':
                thrown = True
                self.ob('released', st.up != 1, 'throw', i, 'throws without ending the stream')
        st.status = self.settle(s, st)
        if s.stop == ('ret',):
            i = s.end
            self.ob('status', st.up != 0, 'runs', i, 'returns without having run the stream')
            if st.up:
                self.ob('status', st.status == 'end', 'end of stream', i, 'returns although the stream has not reported its end')
                self.ob('released', st.up == 2, 'return', i, 'returns without ending the stream')
                self.ob('whole', not st.pending, 'output returned', i, 'returns without the last bytes the stream has written')
                self.returning.append(s)
            return None
        if s.stop[0] != 'loop':
            return None
        st.known = self.constants(s, st)
        if isinstance(st.status, P):
            st.status = self.carried(s, st.status)
        return st

    def constants(self, s, st):
        out = []
        for i in self.f.blocks[s.stop[1]]:
            if i.op == 'phi' and i.ty != 'ptr':
                t = s.next(i)
                k = t.const() if isinstance(t, P) else None
                if k is not None:
                    out.append((('phi', i.id), int(k)))
                elif isinstance(t, P) and atom1(t) is not None:
                    k = dict(st.known).get(atom1(t))
                    if k is not None:
                        out.append((('phi', i.id), k))
                    elif st.status in ('ok', 'end') and self.last == t:
                        out.append((('phi', i.id), 0 if st.status == 'ok' else 1))
        return tuple(sorted(out, key=str))

    last = None

    def carried(self, s, a):
        for i in self.f.blocks[s.stop[1]]:
            if i.op == 'phi' and s.next(i) == a:
                return atom(('phi', i.id))
        for x in atoms_in(a):
            if isinstance(x, tuple) and x and x[0] == 'callv' and x[2] in self.f.inst and self.f.inst[x[2]].block != s.stop[1] and \
                    self.f.bdom(self.f.inst[x[2]].block, s.stop[1]):
                return a
            if isinstance(x, tuple) and x and x[0] == 'phi' and x[1] in self.f.inst and self.f.inst[x[1]].block != s.stop[1] and \
                    self.f.bdom(self.f.inst[x[1]].block, s.stop[1]):
                return a
        return 'lost'

    def zcall(self, s, st, i, what):
        v = s.v
        name = i.cn
        if what.startswith('Init'):
            for n in ('zalloc', 'zfree'):
                self.ob('released', is_null(v.mem(self.member(n), 8, i)), f'{n} set', i, f'{name} is called with {n} not set')
            st.state0 = is_null(v.mem(self.member('state'), 8, i))
            st.up, st.status, st.failed = 1, v.val(('i', i.id)), True
            return
        if what == 'End':
            self.ob('released', st.up == 1, 'once', i, 'the stream is ended twice' if st.up == 2 else 'a stream that is not set up is ended')
            if st.failed and self.settle(s, st) != 'ok':
                self.ob('released', st.state0, 'failed set-up', i, f'{name} reads the state of a stream that was never initialised')
            st.up = 2
            return
        if what == 'Reset':
            st.status = v.val(('i', i.id))
            return
        self.ob('status', st.up == 1, 'set up', i, f'{name} is called on a stream that is not set up')
        was = self.settle(s, st)
        self.ob('status', was == 'ok', 'tested', i, f'{name} is called although the status before was not tested to be Z_OK')
        self.ob('whole', not st.taken, 'output appended once', i, f'{name} writes behind bytes that were appended already')
        st.failed = False
        self.ob('whole', len(st.input) == 2, 'input set', i, f'{name} runs without having been given the input')
        self.ob('whole', len(st.room) != 1, 'room', i, f'next_out and avail_out are not set together, only {"".join(st.room)}')
        self.ob('whole', 'out' in st.room or len(st.room) == 2, 'room given', i, f'{name} is not given room for its output')
        st.room = frozenset(('a', 'b', 'out'))
        st.status = v.val(('i', i.id))
        self.last = st.status
        st.pending = not self.nothing(s, i)

    def nothing(self, s, i):
        """the path shows that this call wrote nothing: the room is all left, or the result has all the bytes there ever were"""
        j = next(x for x in self.f.blocks[i.block] if x.id > i.id)
        left, total = (s.v.mem(self.member(n), k, j) for n, k in (('avail_out', 4), ('total_out', 8)))
        out = [a for t in (left, total) for a in atoms_in(t) if isinstance(a, tuple) and a and a[0] == 'out' and a[1] == ('callv', i.cn, i.id)]
        if not out:
            return False
        if self.size is not None and (equals(s.lits, left, self.size) or any(
                l[0] in ('uge', 'ge') and unfz(l[1]) == left - P(self.size) for l in s.lits)):
            return True
        for l in s.lits:
            if l[0] in ('uge', 'ge', 'eq') and len(l) > 1:
                for t in (unfz(l[1]), P(0) - unfz(l[1])) if l[0] == 'eq' else (unfz(l[1]),):
                    a = atom1(t + total)
                    if a and a[0] in ('call', 'callv') and a[1] == 'std::vector::size' and self.into and \
                            any(x == self.into for x in walk(a)):
                        return True
        return False

    def room(self, s, i, room, at):
        k = room.const() if isinstance(room, P) else None
        t = atom1(at) if isinstance(at, P) else at
        if k is not None and isinstance(t, tuple) and t[0] == 'ptr':
            r, o = t[1]
            have = None
            if r[0] == 'alloca':
                have = self.f.inst[r[1]].asz
            elif r[0] == 'elem' and r[2] == fz(P(0)):
                have = self.vector_size(r[1])
            ok = have is not None and o + k <= have
            if have is None:
                self.buf = None
                self.results.setdefault(('whole', 'room'), (True, ''))
                return
            self.ob('whole', ok, 'room', i, f'the stream may write {k} bytes into a buffer of {have - o}')
            self.buf, self.size = t[1], k
        elif k is not None or isinstance(t, tuple) and t[0] == 'ptr':
            self.ob('whole', False, 'room', i, 'next_out and avail_out are not set together')

    buf = size = None

    def vector_size(self, V):
        n = set()
        for s in self.ss:
            for i in s.v.on_path(('call', 'invoke')):
                q = sa.strip_targs(i.callee or '').split('::')[-1]
                if i.ops and self.f.is_ptr(i.ops[0]) and s.v.loc(i.ops[0]) == V and q in (
                        'vector', 'resize', 'assign', 'push_back', 'insert', 'clear', 'swap', 'operator=', 'shrink_to_fit'):
                    a = s.v.val(i.ops[1]) if len(i.ops) > 1 and not self.f.is_ptr(i.ops[1]) else None
                    n.add(a.const() if isinstance(a, P) else None)
        return n.pop() if len(n) == 1 else None

    def mentioned(self):
        """something other than the stream gets at the buffer"""
        for s in self.ss:
            for i in s.v.on_path(('call', 'invoke', 'load')):
                if (i.cn or '').startswith('llvm.lifetime'):
                    continue
                for o in i.ops:
                    if self.f.is_ptr(o) and self.span(s.v.loc(o)) is not None:
                        return True
        return False

    def span(self, l):
        """position of place l behind the start of the buffer, in bytes"""
        b = self.buf
        if l is None:
            return None
        if l[0] == b[0]:
            return P(l[1] - b[1])
        if l[0][0] == 'idx' and l[0][1] == b:
            return unfz(l[0][2]) + P(l[1])
        if l[0][0] == 'elem' and b[0][0] == 'elem' and l[0][1] == b[0][1]:
            return unfz(l[0][2]) + P(l[1])
        if l[0] == ('end', b[0][1]) and self.size is not None:
            return P(self.size)
        return None

    def given(self, s, i, what, t):
        """the stream is given the whole input from its first byte"""
        if what == 'next_in':
            t = atom1(t) if isinstance(t, P) else t
            if isinstance(t, tuple) and t[0] == 'ptr':
                r, o = t[1]
                if r[0] == 'elem':
                    self.ob('whole', r[2] == fz(P(0)) and o == 0 and r[1] == (('arg', self.src), 0), 'input', i,
                            'the stream does not start at the first byte of the input')
                    return
            self.c.unsure('whole', f'{self.name}|input', f'{i.where()}: input position not followed')
            return
        a = atom1(t) if isinstance(t, P) else None
        if a and a[0] == 'trunc':
            t = unfz(a[2])
            a = atom1(t)
        if a is not None and a[0] in ('call', 'callv') and a[1].endswith('::size') and any(x == (('arg', self.src), 0) for x in walk(a)):
            lim = P(0xffffffff) - t
            ok = any(l[0] in ('ge', 'uge') and (unfz(l[1]) - lim).const() is not None and (unfz(l[1]) - lim).const() <= 0 for l in s.lits)
            self.ob('whole', ok, 'input length', i, 'the input length is narrowed to 32 bits without being limited to them')
        elif isinstance(t, P) and (t.const() is not None or any(isinstance(x, tuple) and x and x[0] in ('call', 'callv') and
                                                                str(x[1]).endswith('::size') for x in atoms_in(t))):
            self.ob('whole', False, 'input length', i, f'the stream is given {str(t)[:80]} bytes of the input')
        else:
            self.c.unsure('whole', f'{self.name}|input length', f'{i.where()}: input length not followed')

    @property
    def src(self):
        return 1 if self.f.params and self.f.params[0].get('sret') else 0

    def hits(self, ls):
        return [k for k, l in enumerate(ls) if self.span(l) is not None]

    def append(self, s, st, i):
        v = s.v
        if self.buf is None:
            return
        ls = [v.loc(o) if self.f.is_ptr(o) else None for o in i.ops]
        hit = self.hits(ls)
        if not hit:
            return
        if len(hit) == 2:
            first, n = self.span(ls[hit[0]]), self.span(ls[hit[1]])
            left = v.mem(self.member('avail_out'), 4, i)
            full = P(self.size) if self.size is not None else None
            ok = first == P(0) and n is not None and full is not None and (
                n == full - left or n == full and equals(s.lits, left, 0))
            self.ob('whole', ok, 'appended bytes', i, f'appends {str(n)[:80]} bytes of the buffer, the stream has left {str(left)[:60]} of {self.size} free')
            self.ob('whole', not st.taken or st.pending, 'appended once', i, 'appends the same bytes twice')
            pos = v.val(i.ops[hit[0] - 1])
            t = [x for x in atoms_in(pos) if isinstance(x, tuple) and x and x[0] in ('call', 'callv')]
            at_end = any(str(x[1]).endswith(('::end', '::cend')) for x in t)
            if 'insert' in (i.callee or '').split('::')[-1]:
                self.ob('whole', at_end, 'order', i, 'inserts the bytes elsewhere than at the end of the result')
        st.pending, st.taken = False, True

    def result(self, s):
        """the vector that received the bytes is what is returned"""
        ok = self.into[0] == ('arg', 0)
        other = False
        for i in s.v.on_path(('call', 'invoke')):
            n = i.callee or ''
            if not ok and i.ops and s.v.loc(i.ops[0]) == (('arg', 0), 0) and re.search(r'::(vector|operator=|swap|assign)(<.*>)?$', n) and len(i.ops) > 1:
                ls = [s.v.loc(o) if self.f.is_ptr(o) else None for o in i.ops[1:]]
                vals = [x for o in i.ops[1:] for x in walk(fz(s.v.val(o)))]
                if self.into in ls or any(l is not None and self.into in walk(l) for l in ls):
                    ok = True
                elif self.into in vals or any(isinstance(x, tuple) and x and x[0] in ('words', 'obj') and self.into in walk(x) for x in vals):
                    ok = True
                elif any(l is not None and l[0][0] in ('alloca', 'arg') and l[1] == 0 for l in ls):
                    other = True
        if ok or other:
            self.ob('whole', ok, 'result', s.end, 'returns something other than the bytes the stream has written')
        else:
            self.c.unsure('whole', f'{self.name}|result', f'{s.end.where()}: what is returned is not followed')


def walk(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from walk(x)


def lit(l, m):
    if not m or len(l) < 2 or not (isinstance(l[1], tuple) and l[1] and l[1][0] == 'P'):
        return l
    return (l[0], fz(subst(unfz(l[1]), m))) + tuple(l[2:])


# ---------------------------------------------------------------- files
CHK = re.compile(r'basic_ios<.*>::(operator!|operator bool|fail|good)$')


def files(c, f):
    c.saw(f)
    name = f.short().split('(')[0]
    for s in segments(f, throws=True) or ():
        if s.stop != ('ret',):
            continue
        seq = list(s.v.on_path(('call', 'invoke')))
        cls = lambda i: (i.callee or '').split('::')[-1]
        ios = lambda i: re.search(r'std::(basic_)?(istream|ostream|ofstream|ifstream|fstream|ios)', i.callee or '')
        reads = [k for k, i in enumerate(seq) if ios(i) and cls(i) in ('read', 'get', 'readsome')]
        writes = [k for k, i in enumerate(seq) if ios(i) and cls(i) in ('write', 'put') or 'ostream' in (i.callee or '') and 'operator<<' in (i.callee or '')]
        flush = [k for k, i in enumerate(seq) if ios(i) and cls(i) in ('close', 'flush')]
        throws = any(ios(i) and cls(i) == 'exceptions' and len(i.ops) > 1 for i in seq)
        checks = []
        for k, i in enumerate(seq):
            if CHK.search(i.callee or ''):
                t = s.v.val(('i', i.id))
                good = cls(i) in ('operator bool', 'good')
                for l in s.lits:
                    if l[0] == 'bool' and l[1] in (fz(t), atom1(t) if isinstance(t, P) else t) and l[2] == good:
                        checks.append(k)
                    elif l[0] in ('eq', 'ne') and isinstance(t, P) and unfz(l[1]) in (t, P(0) - t) and (l[0] == 'ne') == good:
                        checks.append(k)
            elif (i.callee or '').endswith('::gcount'):
                t = s.v.val(('i', i.id))
                checks += [k for l in s.lits if l[0] == 'eq' and set(unfz(t) .t if isinstance(t, tuple) else t.t) <= set(unfz(l[1]).t)]
        opened = [i for i in seq if re.search(r'fstream<.*>::basic_[io]?fstream$', i.callee or '')]
        if writes:
            last = max(writes)
            done = [k for k in flush if k > last]
            ok = throws or any(k > d for d in done for k in checks)
            c.ob('file', ok, f'{name}|write tested', f'{f.where()}: returns normally although writing the file may have failed')
            for k in writes:
                transferred(c, f, s, seq[k], name)
        elif reads:
            c.ob('file', throws or any(k > max(reads) for k in checks), f'{name}|read tested',
                 f'{f.where()}: goes on although reading the file may have failed')
            for k in reads:
                transferred(c, f, s, seq[k], name)
        else:
            c.unsure('file', f'{name}|transfer', f'{f.where()}: reads or writes the file in a way the rule does not know')


def transferred(c, f, s, i, name):
    """data() and size() of one vector"""
    l = s.v.loc(i.ops[1])
    n = s.v.val(i.ops[2])
    if not (l and l[0][0] == 'elem' and l[0][2] == fz(P(0)) and l[1] == 0):
        c.unsure('file', f'{name}|bytes', f'{i.where()}: transfers bytes the rule cannot follow')
        return
    V = l[0][1]
    ok, have = False, None
    for j in s.v.on_path(('call', 'invoke')):
        q = j.callee or ''
        if j is i:
            break
        if q.endswith('::size') and s.v.loc(j.ops[0]) == V and s.v.val(('i', j.id)) == n:
            ok = True
        if re.search(r'^std::vector<.*::(vector|resize)$', q) and s.v.loc(j.ops[0]) == V and len(j.ops) > 1:
            have = s.v.val(j.ops[1])
            ok = ok or have == n
    c.ob('file', ok, f'{name}|bytes', f'{i.where()}: transfers {str(n)[:60]} bytes, not all of the data')
    # what becomes of it
    uses = [j for j in s.v.on_path(('call', 'invoke')) if re.search(r'zlib_helpers::(Dec|C)ompressBytes$', j.callee or '')]
    src = [j for j in uses if s.v.loc(j.ops[1]) == V] if 'istream' in (i.callee or '') else [j for j in uses if s.v.loc(j.ops[0]) == V]
    c.ob('file', bool(src), f'{name}|data', f'{i.where()}: the transferred bytes are not those that are compressed or decompressed', readable=bool(uses))
    if 'istream' in (i.callee or '') and src:
        t = s.v.loc(src[0].ops[0])
        ok = t == (('arg', 0), 0) or any(j.ops and s.v.loc(j.ops[0]) == (('arg', 0), 0) and len(j.ops) > 1 and s.v.loc(j.ops[1]) == t
                                         for j in s.v.on_path(('call', 'invoke')))
        c.ob('file', ok, f'{name}|result', f'{i.where()}: something other than the decompressed data is returned')
    elif src:
        ok = s.v.loc(src[0].ops[1]) == (('arg', 0), 0)
        c.ob('file', ok, f'{name}|source', f'{i.where()}: something other than the given data is compressed')
