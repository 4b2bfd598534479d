"""Compares the event stream of a writer with the one of its reader."""
import re

import sa
from codec import P, atom, Ev, LoopItem, Stream, Unknown
from sa import tuple_ref


class Diff(Exception):
    pass


def known(a):
    """atom whose meaning is fixed by the source (no unexplained SSA value)"""
    return a[0] in ('start', 'val', 'bytes', 'size', 'arg', 'loc')


class Trip:
    def __init__(self, n=None, first=P(0), step=1, var=None, exits=1, cont=None):
        self.n, self.first, self.step, self.var, self.exits, self.cont = n, first, step, var, exits, cont


def trip(s, head):
    """how often the loop at head runs its body"""
    f, fl = s.fn, s.flow
    body = f.loops()[head]
    live = fl.live
    exits = []
    for b in body:
        for x in f.succs[b]:
            if x in body or x not in live:
                continue
            if not any(r.block in f.reach([x]) for r in f.rets()):
                continue
            exits.append((b, x))
    t = Trip(exits=len(exits))
    if len(exits) != 1:
        return t
    b, x = exits[0]
    br = f.blocks[b][-1]
    if br.op != 'br' or len(br.ops) != 3:
        return t
    stay_on_true = br.ops[2][1] != x
    ci = f.get(br.ops[0])
    pol = stay_on_true
    while ci is not None and ci.op == 'xor' and ci.ops[1][0] == 'c':
        pol = not pol
        ci = f.get(ci.ops[0])
    if ci is None:
        return t
    latch = [p for p in f.preds[head] if p in body]
    if ci.op == 'icmp':
        pred = ci.pred if pol else {'ult': 'uge', 'uge': 'ult', 'ugt': 'ule', 'ule': 'ugt', 'eq': 'ne', 'ne': 'eq', 'slt': 'sge',
                                    'sge': 'slt', 'sgt': 'sle', 'sle': 'sgt'}[ci.pred]
        a, c = ci.ops
        for a, c, pred in ((a, c, pred), (c, a, {'ult': 'ugt', 'ugt': 'ult', 'ule': 'uge', 'uge': 'ule', 'slt': 'sgt',
                                                 'sgt': 'slt', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred))):
            add = P(0)
            ph = f.get(a)
            while ph is not None and (ph.op in ('zext', 'sext', 'trunc', 'freeze') or
                                      ph.op in ('add', 'sub') and ph.ops[1][0] == 'c'):
                if ph.op == 'add':
                    add = add + P(ph.ops[1][1])
                elif ph.op == 'sub':
                    add = add - P(ph.ops[1][1])
                ph = f.get(ph.ops[0])
            if ph is None or ph.op != 'phi' or ph.block != head:
                continue
            init = [v for v, p in ph.inc if p not in body]
            back = [v for v, p in ph.inc if p in body]
            if len(init) != 1 or len(back) != 1:
                continue
            i0 = s.form(init[0])
            step = s.form(back[0]) - atom(('i', ph.id))
            lim = s.form(c) - add
            if step.const() is None:
                continue
            k = step.const()
            if k in (1,) and pred in ('ult', 'slt', 'ne', 'ule', 'sle'):
                n = lim - i0 + (P(1) if pred in ('ule', 'sle') else P(0))
                t.n, t.first, t.step, t.var = n, i0, 1, ph
                t.n = container_size(s, t.n)
                return t
            if k > 1 and pred in ('ult', 'slt'):
                t.first, t.step, t.var = i0, k, ph
                t.n = container_size(s, lim - i0)
                return t
            if k in (-1, 2 ** 64 - 1) and pred in ('ugt', 'sgt', 'ne'):
                t.n, t.first, t.step, t.var = i0 - lim, i0, -1, ph
                return t
        return t
    if ci.op in ('call', 'invoke') and re.search(r'operator(!=|==)', ci.callee or ''):
        if ('operator!=' in ci.callee) != pol:
            return t
        cont = set()
        for o in ci.ops[:2]:
            l = fl.loc(o)
            for d, v, st in fl.stores:
                if d == l:
                    c = f.get(v)
                    if c is not None and c.op in ('call', 'invoke') and re.search(r'::c?(begin|end)$', c.callee or ''):
                        cont.add((re.search(r'(begin|end)$', c.callee).group(1), fl.loc(c.ops[0])))
        its = [fl.loc(o) for o in ci.ops[:2]]
        incs = [c for b2 in body for c in f.blocks[b2] if c.op in ('call', 'invoke') and
                re.search(r'operator\+\+$', c.callee or '') and fl.loc(c.ops[-1] if c.sret else c.ops[0]) in its]
        if len(cont) == 2 and {k for k, _ in cont} == {'begin', 'end'}:
            locs = {l for _, l in cont}
            if len(locs) == 1 and None not in locs and len(incs) == 1 and all(f.bdom(incs[0].block, p) for p in latch):
                c = locs.pop()
                t.n, t.cont = atom(('size', 'size', c)), c
    return t


def container_size(s, n):
    """size of a local container built with a known length"""
    m = {}
    for a in n.atoms():
        if a[0] == 'size' and a[2] and a[2][0][0] == 'alloca':
            for i in s.fn.calls(r'::vector$|::Matrix$|::basic_string$'):
                if s.flow.loc(i.ops[0]) == a[2] and len(i.ops) >= 2 and not s.fn.is_ptr(i.ops[1]):
                    m[a] = s.form(i.ops[1])
            for i in s.fn.calls(r'::resize$'):
                if s.flow.loc(i.ops[0]) == a[2]:
                    m[a] = s.form(i.ops[1])
    return n.subst(m) if m else n


def body_sum(s, items):
    t = P(0)
    for x in items:
        if isinstance(x, LoopItem):
            return None
        t = t + s.bytes_of(x)
    return t


def carry(s, loop, cur):
    """(value inside, value after): the loop-carried integer that starts as cur and grows by the bytes of the body"""
    f = s.fn
    body = f.loops()[loop.head]
    for ph in f.blocks[loop.head]:
        if ph.op != 'phi' or ph.ty != 'i64':
            continue
        init = [v for v, p in ph.inc if p not in body]
        back = [v for v, p in ph.inc if p in body]
        if len(init) != 1 or len(back) != 1 or s.form(init[0]) != cur:
            continue
        a = atom(('i', ph.id))
        c = total(s, loop.body, a)
        if c is not None and s.form(back[0]) == c:
            return a
    return None


def total(s, items, cur):
    """cur plus the bytes of all items, through loop-carried sums; None when there is none"""
    for x in items:
        if isinstance(x, LoopItem):
            a = carry(s, x, cur)
            if a is None:
                t = trip(s, x.head)
                n = body_sum(s, x.body)
                if t.n is None or n is None or any(k[0] == 'bytes' for k in n.atoms()):
                    return None
                cur = cur + t.n * n
            else:
                cur = a
        else:
            cur = cur + s.bytes_of(x)
    return cur


class Cmp:
    """One writer/reader pair; results go to the report object c."""
    def __init__(self, c, w, r, name):
        self.c, self.w, self.r, self.name = c, w, r, name
        self.map = {}        # reader value atom -> writer form
        self.sub = []        # codec pairs to compare as well
        self.wpaths, self.rpaths = set(), set()
        self.n = 0

    def ob(self, kind, ok, what, text):
        return self.c.ob(kind, ok, f'{self.name}|{what}', text)

    def run(self):
        if self.items(self.w.tree, self.r.tree):
            self.cursor()
            self.returned()
            self.c.count('pairs compared')
        return self

    # ---- same sequence ----
    def items(self, a, b):
        w, r = self.w, self.r
        ok = True
        if len(a) != len(b):
            self.ob('fields', False, 'number',
                    f'{w.fn.where()}: {w.fn.short()} emits {len(a)} fields here ({a}), but {r.fn.short()} at {r.fn.where()} '
                    f'consumes {len(b)} ({b})')
            return False
        for x, y in zip(a, b):
            if isinstance(x, LoopItem) != isinstance(y, LoopItem):
                self.ob('fields', False, 'loop', f'{w.fn.short()} emits {x} where {r.fn.short()} consumes {y}')
                return False
            if isinstance(x, LoopItem):
                ok = self.loop(x, y) and ok
            else:
                ok = self.event(x, y) and ok
        return ok

    def wform(self, p):
        return p.subst(self.map)

    def loop(self, x, y):
        w, r = self.w, self.r
        tw, tr = trip(w, x.head), trip(r, y.head)
        for s, t, it in ((w, tw, x), (r, tr, y)):
            if t.exits > 1:
                self.ob('repetition', False, 'early-exit',
                        f'{s.fn.short()} at {where(s, it)}: the loop over the fields can be left before its end')
                return False
            if t.step not in (1, -1):
                self.ob('repetition', False, 'step', f'{s.fn.short()} at {where(s, it)}: the loop advances by {t.step}')
                return False
        if tw.n is None or tr.n is None:
            self.c.count('loops with a form that is not compared')
        else:
            n = self.wform(tr.n)
            d = n - tw.n
            if d.t and not all(known(a) for a in d.atoms()):
                self.c.count('loops with a form that is not compared')
            else:
                self.ob('repetition', not d.t, f'trip|{self.n}',
                        f'{r.fn.short()} at {where(r, y)} reads {show(n)} items, {w.fn.short()} at {where(w, x)} writes {show(tw.n)}')
        # elements are taken and put at the loop index
        for s, t, it in ((w, tw, x), (r, tr, y)):
            if t.var is not None:
                self.elements(s, t, it)
        return self.items(x.body, y.body)

    def elements(self, s, t, it):
        f = s.fn
        body = f.loops()[it.head]
        a = atom(('i', t.var.id))
        for b in body:
            for i in f.blocks[b]:
                if i.op in ('call', 'invoke') and re.search(r'(vector|basic_string)<.*>::(operator\[\]|at)$|Matrix<.*>::operator(\(\)|\[\])$',
                                                            i.callee or '') and not s.isbuf(i.ops[0]):
                    if f.throws(b) or b not in s.flow.live:
                        continue
                    ix = s.form(i.ops[1])
                    d = ix - a
                    if a.atoms() <= ix.atoms() and d.const() is not None or ix.const() is not None:
                        self.ob('element', not d.t, f'index|{self.n}',
                                f'{i.where()}: element {show(ix)} is used in iteration i of the loop in {f.short()}')
                    else:
                        self.c.count('element indices not compared')

    def event(self, x, y):
        w, r = self.w, self.r
        self.n += 1
        k = self.n
        at = f'{w.fn.short()} at {x.inst.where()} / {r.fn.short()} at {y.inst.where()}'
        if x.cond != y.cond:
            return self.ob('fields', False, f'conditional|{k}',
                           f'{at}: field {k} is only {"written" if x.cond else "read"} under a condition')
        if x.kind != y.kind:
            if 'codec' in (x.kind, y.kind):
                cod = x if x.kind == 'codec' else y
                if cod.codec[0] == 'fn':
                    self.c.count('fields behind a codec on one side only')
                    raise Unknown('a codec on one side, raw bytes on the other')
            return self.ob('fields', False, f'kind|{k}', f'{at}: field {k} is {x} for the writer and {y} for the reader')
        if x.kind == 'raw':
            n = self.wform(y.size)
            d = n - x.size
            if d.t and not all(known(a) for a in d.atoms()):
                self.c.count('field lengths not compared')
            elif not self.ob('fields', not d.t, f'length|{k}',
                             f'{at}: field {k} is written with {show(x.size)} bytes and read with {show(n)}'):
                return False
            if not self.ob('encoding', x.net == y.net, f'order|{k}',
                           f'{at}: field {k} is written in {"network" if x.net else "host"} order and read in the other'):
                return False
        else:
            if not self.codec(x, y, k, at):
                return False
        self.value(x, y, k, at)
        return True

    def codec(self, x, y, k, at):
        a, b = x.codec, y.codec
        if a[0] != b[0]:
            if {a[0], b[0]} <= {'param', 'outer', 'virtual'} and a[0] != b[0]:
                return self.ob('fields', False, f'codec|{k}', f'{at}: field {k} is written by {a} and read by {b}')
            raise Unknown('codecs of different kinds')
        if a[0] == 'param':
            return self.ob('fields', a[1] == b[1], f'codec|{k}',
                           f'{at}: field {k} is written by codec argument {a[1]} and read by codec argument {b[1]}')
        if a[0] == 'virtual':
            return self.ob('fields', a[1].replace('Serialize', '') == b[1].replace('Deserialize', ''), f'codec|{k}',
                           f'{at}: field {k} is written by {a[1]} and read by {b[1]}')
        if a[0] == 'fn':
            self.c.count('obligations:fields')
            self.c.count('held:fields')
            self.sub.append((a[1], b[1], at))
        return True

    # ---- where the value comes from and goes to ----
    def paths(self, s, locs, root):
        out = set()
        for l in locs:
            p = path(l, root)
            if p is not None:
                out.add(p)
        return out

    def value(self, x, y, k, at):
        w, r = self.w, self.r
        # value form of a scalar
        wf = None
        if x.kind == 'raw':
            if x.val is not None:
                wf = w.form(x.val)
            elif x.src is not None and x.src[0][0] == 'alloca':
                st = [(v, i) for d, v, i in w.flow.stores if d == x.src and i.op == 'store']
                if len(st) == 1:
                    wf = w.form(st[0][0])
            elif x.src is not None:
                wf = atom(('loc', x.src))
            if wf is not None:
                self.map[('val', y.inst.id)] = wf
        if x.kind == 'raw':
            lossy = altered(w, x)
            if lossy is not None:
                self.ob('member', not lossy, f'{k}|altered',
                        f'{at}: the value of field {k} is converted or computed with before it is written ({lossy})')
        wl, wv = w.flow.backward(loc=x.src) if x.src else w.flow.backward(val=x.val) if x.val else (set(), set())
        pw = self.paths(w, wl, ('arg', w.valarg))
        if y.ret:
            # a virtual reader fills the object it is called on
            rl = {y.dst}
        else:
            rl, rv = r.flow.forward([y.dst] if y.dst else [], [y.val[1]] if y.val else [])
            self.overwritten(y, rl, rv, k, at)
        pr = self.paths(r, rl, ('arg', r.sret)) if r.sret is not None else set()
        if r.sret is None and y.ret is False and any(i.op == 'ret' for i in r.fn.rets()):
            pr |= self.paths(r, rl, ('arg', r.valarg)) if r.valarg is not None else set()
        if r.sret is None and r.valarg is not None:
            pr |= self.paths(r, rl, ('arg', r.valarg))
        self.wpaths |= pw
        self.rpaths |= pr
        if pw and pr and self.changed(y, rl, narrowing=True):
            self.ob('member', False, f'{k}|narrowed', f'{at}: field {k} is narrowed before it is stored ({self.changed(y, rl, True)})')
        elif pw and pr:
            self.ob('member', bool(pw & pr), f'{k}',
                    f'{at}: field {k} is taken from member {sorted(map(pshow, pw))} and put into {sorted(map(pshow, pr))}')
        elif pw and self.changed(y, rl):
            self.ob('member', False, f'{k}|altered', f'{at}: field {k} is converted or computed with before it is stored '
                    f'({self.changed(y, rl)})')
        elif pw and not pr:
            if y.val is not None and not self.reaches_result(y):
                self.ob('member', False, f'{k}', f'{at}: field {k}, taken from member {sorted(map(pshow, pw))}, is read and then dropped')
            elif y.dst is not None and not self.escapes(y):
                self.ob('member', False, f'{k}', f'{at}: field {k}, taken from member {sorted(map(pshow, pw))}, is read and then dropped')
            else:
                self.c.count('values whose destination is not followed')
        elif wf is not None and known_form(wf):
            self.c.count('headers')
        else:
            self.c.count('values whose source is not followed')

    def overwritten(self, y, rl, rv, k, at):
        """something else is stored over the value that was read"""
        r = self.r
        if not rl:
            return
        direct = [(d, i) for d, v, i in r.flow.stores if v[0] == 'i' and v[1] in rv]
        firsts = [i for _, i in direct] or [y.inst]
        for d, v, i in r.flow.stores:
            if d in rl and d[0][0] in ('arg', 'alloca') and v[0] in ('c', 'cf') and any(r.fn.dom(x, i) for x in firsts) \
                    and not (v[0] == 'i' and v[1] in rv):
                p = path(d, ('arg', r.sret)) if r.sret is not None else path(d, ('arg', r.valarg)) if r.valarg is not None else None
                if p is None and d[0][0] != 'alloca':
                    continue
                if d[0][0] == 'alloca' and d == y.dst:
                    continue
                self.ob('member', False, f'{k}|overwritten', f'{at}: field {k} is overwritten with a constant at {i.where()}')

    def changed(self, y, rl, narrowing=False):
        """where the scalar that was read goes through arithmetic or a conversion into the result"""
        f, fl = self.r.fn, self.r.flow
        roots = [('arg', x) for x in (self.r.sret, self.r.valarg) if x is not None]
        st = [(y.val[1], None)] if y.val is not None else \
            [(i.id, None) for i in f.insts() if i.op == 'load' and i.block in fl.live and fl.loc(i.ops[0]) in rl]
        seen = set()
        while st:
            v, bad = st.pop()
            if (v, bad) in seen:
                continue
            seen.add((v, bad))
            for u in f.uses.get(('i', v), []):
                if u.block not in fl.live:
                    continue
                if u.op == 'extractvalue':
                    if u.d['idx'] == [0]:
                        st.append((u.id, bad))
                elif u.op in ('zext', 'sext', 'fpext') and bad == 'narrow':
                    st.append((u.id, u.where()))
                elif u.op in ('zext', 'sext', 'bitcast', 'freeze', 'fpext'):
                    st.append((u.id, bad))
                elif narrowing and u.op in ('trunc', 'fptrunc') and u.ty != 'i1':
                    st.append((u.id, bad or 'narrow'))
                elif narrowing and u.op == 'and' and any(o[0] == 'c' and o[1] in (0xff, 0xffff, 0xffffffff) for o in u.ops):
                    st.append((u.id, u.where()))
                elif narrowing and u.op != 'store':
                    continue
                elif u.op in ('trunc', 'fptrunc', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fneg') or \
                        u.op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv', 'sdiv', 'udiv', 'shl', 'lshr', 'ashr',
                                 'and', 'or', 'xor') and any(o[0] in ('c', 'cf') for o in u.ops):
                    st.append((u.id, bad or u.where()))
                elif u.op == 'store' and u.ops[0][:2] == ['i', v] and bad and bad != 'narrow':
                    l = fl.loc(u.ops[1])
                    if l and any(path(l, x) is not None for x in roots):
                        return bad
        return None

    def reaches_result(self, y):
        """the scalar is used by something other than length and validity tests"""
        f = self.r.fn
        seen, st = set(), [y.val[1]]
        while st:
            v = st.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in f.uses.get(('i', v), []):
                if u.block not in self.r.flow.live:
                    continue
                if u.op == 'extractvalue':
                    if u.d['idx'] == [0]:
                        st.append(u.id)
                elif u.op in ('ret', 'store', 'call', 'invoke', 'insertvalue'):
                    return True
                elif u.op not in ('br', 'switch'):
                    st.append(u.id)
        return False

    def escapes(self, y):
        """the object the codec filled is used by anything but its destructor and its own byte count"""
        f, fl = self.r.fn, self.r.flow
        for i in f.insts():
            if i.block not in fl.live or i is y.inst or f.throws(i.block):
                continue
            for k, o in enumerate(i.ops):
                if not f.is_ptr(o):
                    continue
                l = fl.loc(o)
                if l is None or l[0] != y.dst[0]:
                    continue
                if i.op == 'load' and i.ty == 'i64':
                    continue
                if i.op in ('call', 'invoke') and re.search(r'::~|^llvm\.', (i.callee or '') or (i.cn or '')):
                    if not (i.cn or '').startswith('llvm.mem'):
                        continue
                if i.op == 'getelementptr':
                    continue
                return True
        return False

    # ---- positions ----
    def cursor(self):
        if self.r.posarg is None:
            self.c.count('readers without a position')
            return
        self._cur(self.r.tree, atom(('start',)))

    def _cur(self, items, cur):
        r = self.r
        for x in items:
            if isinstance(x, LoopItem):
                a = carry(r, x, cur) if cur is not None else None
                if a is None:
                    first = next((e for e in x.body if not isinstance(e, LoopItem)), None)
                    pos = r.posform(first.pos) if first is not None and first.pos else None
                    t = trip(r, x.head)
                    n = body_sum(r, x.body)
                    if cur is not None and pos is not None and not any(a2[0] == 'i' for a2 in pos.atoms()):
                        self.ob('position', False, f'loop|{first.k}',
                                f'{first.inst.where()}: every iteration reads at the same position {show(pos)} in {r.fn.short()}')
                    elif cur is not None and pos is not None and len([a2 for a2 in pos.atoms() if a2[0] == 'i']) == 1:
                        v = [a2 for a2 in pos.atoms() if a2[0] == 'i'][0]
                        ph = r.fn.inst[v[1]]
                        if ph.op == 'phi' and ph.block == x.head:
                            body = r.fn.loops()[x.head]
                            init = [q for q, p in ph.inc if p not in body]
                            back = [q for q, p in ph.inc if p in body]
                            if len(init) == 1 and len(back) == 1:
                                p0 = pos.subst({v: r.form(init[0])})
                                p1 = pos.subst({v: r.form(back[0])})
                                d0 = p0 - cur
                                d1 = (p1 - pos - n) if n is not None else None
                                if d0.t and all(known(q) for q in d0.atoms()):
                                    self.ob('position', False, f'loop-start|{first.k}',
                                            f'{first.inst.where()}: the loop in {r.fn.short()} starts reading at {show(p0)}, '
                                            f'after the previous field comes {show(cur)}')
                                elif d1 is not None and d1.t and all(known(q) or q == v for q in d1.atoms()):
                                    self.ob('position', False, f'loop-step|{first.k}',
                                            f'{first.inst.where()}: an iteration in {r.fn.short()} consumes {show(n)} bytes and '
                                            f'moves on by {show(p1 - pos)}')
                                elif not d0.t and d1 is not None and not d1.t:
                                    if t.n is not None and not any(q[0] == 'bytes' for q in n.atoms()):
                                        cur = cur + t.n * n
                                        self.c.count('obligations:position')
                                        self.c.count('held:position')
                                        continue
                    self.c.count('positions not followed')
                    cur = None
                    self._cur(x.body, None)
                else:
                    self.c.count('obligations:position')
                    self.c.count('held:position')
                    self._cur(x.body, a)
                    cur = a
                continue
            if x.pos is None:
                self.c.count('positions not followed')
                continue
            pos = r.posform(x.pos)
            if cur is not None:
                d = pos - cur
                if d.t and not all(known(a) or a[0] == 'i' and a in cur.atoms() for a in d.atoms()):
                    self.c.count('positions not followed')
                else:
                    self.ob('position', not d.t, f'{x.k}',
                            f'{x.inst.where()}: field {x.k + 1} is read at {show(pos)} in {r.fn.short()}, the previous fields end at {show(cur)}')
                cur = cur + r.bytes_of(x)
        return cur

    # ---- reported byte counts ----
    def returned(self):
        w, r = self.w, self.r
        # reader
        got = reported(r)
        want = total(r, r.tree, P(0))
        wantpos = total(r, r.tree, atom(('start',)))
        for ref, where_ in got:
            f = r.form(ref)
            ok = None
            if want is not None and f == want or wantpos is not None and f == wantpos - atom(('start',)):
                ok = True
            else:
                ds = [f - x for x in (want, None if wantpos is None else wantpos - atom(('start',))) if x is not None]
                if not ds and all(a[0] in ('start',) or known(a) for a in f.atoms()):
                    ds = [f]
                if ds and any(all(known(a) or a[0] == 'i' and a in ((want or P(0)).atoms() | (wantpos or P(0)).atoms())
                                  for a in d.atoms()) for d in ds):
                    ok = False
            if ok is None:
                self.c.count('reported byte counts not compared')
            else:
                self.ob('count', ok, 'reader', f'{where_}: {r.fn.short()} reports {show(f)} bytes read, it consumes {show(want or wantpos)}')
        if not got:
            self.c.count('reported byte counts not compared')
        # writer
        for ret in w.fn.rets():
            if not ret.ops:
                continue
            f = w.form(ret.ops[0])
            sizes = [a for a in f.atoms() if a[0] == 'bufsize']
            evb = [e.inst for e in w.events]
            if len(sizes) == 2 and f in (atom(sizes[0]) - atom(sizes[1]), atom(sizes[1]) - atom(sizes[0])):
                end = sizes[0] if f == atom(sizes[0]) - atom(sizes[1]) else sizes[1]
                start = sizes[1] if end == sizes[0] else sizes[0]
                ei, si = w.fn.inst[end[1]], w.fn.inst[start[1]]
                early = [e for e in evb if not after(w.fn, e, si)]
                late = [e for e in evb if after(w.fn, e, ei)]
                self.ob('count', not early and not late, 'writer',
                        f'{ret.where()}: {w.fn.short()} returns a buffer growth that misses the bytes written at '
                        f'{[e.where() for e in early + late]}')
                continue
            want = total(w, w.tree, P(0))
            if want is None:
                self.c.count('reported byte counts not compared')
                continue
            d = f - want
            if d.t and not all(known(a) or a in want.atoms() for a in d.atoms()):
                self.c.count('reported byte counts not compared')
            else:
                self.ob('count', not d.t, 'writer', f'{ret.where()}: {w.fn.short()} returns {show(f)}, it writes {show(want)} bytes')


def after(f, a, b):
    """a can execute after b"""
    if a.block == b.block and a.idx > b.idx:
        return True
    return a.block in f.reach(f.succs[b.block])


def reported(r):
    """[(value ref, where)] of the bytes-read results of a reader"""
    f = r.fn
    out = []
    if r.sret is not None:
        for d, v, i in r.flow.stores:
            if d[0] == ('arg', r.sret) and i.op == 'store':
                g = f.get(i.ops[1])
                if g is not None and g.op == 'getelementptr' and g.fields:
                    last = g.fields[-1]
                    if 'Deserialized' in last[0] and last[1] == 1:
                        out.append((v, i.where()))
        return out
    for ret in f.rets():
        if not ret.ops:
            continue
        i = f.get(ret.ops[0])
        if i is None:
            continue
        if (i.ty or '') == 'i64':
            out.append((ret.ops[0], ret.where()))
            continue
        while i is not None and i.op == 'insertvalue':
            if i.d['idx'] == [1]:
                out.append((i.ops[1], ret.where()))
                break
            i = f.get(i.ops[0])
    return out


def altered(w, x):
    """an operation that changes the scalar between the member it is loaded from and the bytes written;
    '' when it is unchanged, None when it does not come from a member"""
    f, fl = w.fn, w.flow
    ref = tuple_ref(x.val) if x.val is not None else None
    if ref is None and x.src is not None and x.src[0][0] == 'alloca':
        st = [v for d, v, i in fl.stores if d == x.src and i.op == 'store']
        ref = st[0] if len(st) == 1 else None
    bad, seen = '', set()
    while ref is not None and ref[0] == 'i' and ref not in seen:
        seen.add(ref)
        i = f.get(ref)
        if i.op == 'load':
            v = f.forward(i)
            if v is not None:
                ref = tuple_ref(v)
                continue
            l = fl.loc(i.ops[0])
            if path(l, ('arg', w.valarg)) is not None:
                return bad
            st = [v for d, v, s in fl.stores if d == l and s.op == 'store']
            ref = st[0] if len(st) == 1 else None
            continue
        if i.op in ('zext', 'sext', 'bitcast', 'freeze'):
            ref = tuple_ref(i.ops[0])
        elif i.op == 'trunc':
            src = f.get(i.ops[0])
            if i.ty not in ('i1', 'i8'):
                bad = bad or i.where()
            ref = tuple_ref(i.ops[0])
        elif i.op in ('fptrunc', 'fpext', 'sitofp', 'uitofp', 'fptosi', 'fptoui', 'fneg'):
            bad = bad or i.where() if i.op != 'fpext' else bad
            ref = tuple_ref(i.ops[0])
        elif i.op in ('add', 'sub', 'mul', 'fadd', 'fsub', 'fmul', 'fdiv', 'sdiv', 'udiv', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor') \
                and i.ops[1][0] in ('c', 'cf') and i.ty != 'i1' and not (i.op == 'and' and i.ty == 'i8'):
            bad = bad or i.where()
            ref = tuple_ref(i.ops[0])
        else:
            return None
    return None


def path(l, root):
    """location relative to the value object, or None"""
    if l is None:
        return None
    r, off = l
    if r == root:
        return (off,)
    if r[0] in ('elem', 'ptr', 'end') and r[1] is not None:
        p = path(r[1], root)
        if p is not None:
            return p + (r[0], off)
    return None


def pshow(p):
    return '+'.join(map(str, p))


def known_form(f):
    return all(known(a) for a in f.atoms())


def show(p):
    if p is None:
        return '?'
    s = repr(p)
    return s.replace("('start',)", 'start')


def where(s, it):
    for i in s.fn.blocks[it.head]:
        if i.d.get('loc'):
            return i.where()
    return s.fn.where()
