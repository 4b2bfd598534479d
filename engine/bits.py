"""Bit provenance of the leaf codecs: which bit of the value each bit of the encoding is.
A forward dataflow over the straight-line, non-throwing part of the function; memory is
tracked per (object, byte)."""
import re

import codec
import sa
from sa import tuple_ref


class Unknown(Exception):
    pass


def leaf(fn, mod, writer, inplace):
    """byte permutation: encoding byte k holds value byte result[k]; and the number of bytes"""
    fl = codec.Flow(fn)
    f = fn
    buf = val = pos = None
    sret = 0 if f.params and f.params[0].get('sret') else None
    for k, p in enumerate(f.params):
        if k == sret:
            continue
        t = f.argdi(k) or ''
        if re.match(r'(const )?(std::)?vector<unsigned char.*&$', t) and (writer is False or not t.startswith('const')) and buf is None \
                and (not writer or val is not None):
            buf = k
        elif p['ty'] == 'i64' and buf is not None:
            pos = k
        elif val is None:
            val = k
    if buf is None:
        raise Unknown('no buffer')
    # straight line: blocks on the way to the return that are not throwing
    rets = f.rets()
    if len(rets) != 1 or f.loops():
        raise Unknown('more than one way through the function')
    good = [b for b in range(len(f.blocks)) if b in f.live() and rets[0].block in f.reach([b])]
    if any(sum(1 for s in f.succs[b] if s in good) > 1 for b in good):
        raise Unknown('more than one way through the function')
    order = [0]
    while f.succs[order[-1]]:
        nx = [s for s in f.succs[order[-1]] if s in good]
        if not nx:
            break
        order.append(nx[0])
    mem, reg, grown, appended = {}, {}, None, None
    B = (('arg', buf), 0)

    def rd(l, n):
        out = []
        for k in range(n):
            a = (l[0], l[1] + k)
            if a in mem:
                out += mem[a]
            elif writer and val is not None and l[0] == ('arg', val):
                out += [('v', l[1] + k, j) for j in range(8)]
            else:
                raise Unknown('read of something that is not tracked')
        return out

    def wr(l, bits):
        for k in range(len(bits) // 8):
            mem[(l[0], l[1] + k)] = bits[8 * k:8 * k + 8]

    def loc(o):
        p = bufpos(o)
        if p is not None:
            return (('buf',), p)
        l = fl.loc(o)
        if l is None:
            raise Unknown('address not tracked')
        return l

    def bufpos(o):
        b, off, var = f.ptr(o)
        i = f.get(b)
        if i is None or i.op not in ('call', 'invoke') or not i.ops or not f.is_ptr(i.ops[0]) or fl.loc(i.ops[0]) != B:
            return None
        if var:
            raise Unknown('variable address')
        if re.search(r'::(operator\[\]|at)$', i.callee or ''):
            ix = tuple_ref(i.ops[1])
            base = 0
            q = f.get(ix)
            while q is not None and q.op == 'add' and q.ops[1][0] == 'c':
                base += q.ops[1][1]
                ix = tuple_ref(q.ops[0])
                q = f.get(ix)
            if ix == ('a', pos):
                return base + off
            if q is not None and q.op in ('call', 'invoke') and re.search(r'::size$', q.callee or '') and fl.loc(q.ops[0]) == B:
                return base + off
        raise Unknown('buffer address')

    def val_(o, n):
        o = tuple_ref(o)
        if o[0] == 'c':
            return [('k', (o[1] >> j) & 1) for j in range(n)]
        if o[0] in 'zun':
            return [('k', 0)] * n
        if o[0] == 'cf':
            raise Unknown('constant')
        i = f.get(o)
        if i is None or i.id not in reg:
            raise Unknown('value not tracked')
        return reg[i.id]

    def w(ty):
        n = codec.width(ty)
        if n is None:
            m = re.match(r'i(\d+)$', ty or '')
            if m:
                return int(m.group(1))
            raise Unknown('width')
        m = re.match(r'i(\d+)$', ty)
        return int(m.group(1)) if m else 8 * n

    relevant_store = []
    result = None
    for b in order:
        for i in f.blocks[b]:
            try:
                if i.op == 'load':
                    n = w(i.ty)
                    p = bufpos(i.ops[0])
                    if p is not None and not writer:
                        reg[i.id] = [('v', p + k, j) for k in range(n // 8) for j in range(8)]
                    else:
                        reg[i.id] = rd(loc(i.ops[0]), n // 8)
                elif i.op == 'store':
                    n = w(i.sty)
                    wr(loc(i.ops[1]), val_(i.ops[0], n))
                elif i.op in ('zext', 'trunc', 'bitcast', 'freeze', 'sext'):
                    x = val_(i.ops[0], None if i.ops[0][0] == 'i' else w(i.ty))
                    n = w(i.ty)
                    if i.op == 'sext' and n > len(x):
                        raise Unknown('sext')
                    reg[i.id] = (x + [('k', 0)] * n)[:n]
                elif i.op in ('and', 'or', 'xor'):
                    n = w(i.ty)
                    x, y = val_(i.ops[0], n), val_(i.ops[1], n)
                    o = []
                    for p, q in zip(x, y):
                        if p[0] == 'k':
                            p, q = q, p
                        if q[0] != 'k':
                            raise Unknown('mixed bits')
                        if i.op == 'and':
                            o.append(p if q[1] else ('k', 0))
                        elif i.op == 'or':
                            o.append(('k', 1) if q[1] else p)
                        elif q[1] == 0:
                            o.append(p)
                        else:
                            raise Unknown('inverted bits')
                    reg[i.id] = o
                elif i.op in ('shl', 'lshr', 'ashr'):
                    n = w(i.ty)
                    if i.ops[1][0] != 'c':
                        raise Unknown('variable shift')
                    x, s = val_(i.ops[0], n), i.ops[1][1]
                    reg[i.id] = ([('k', 0)] * s + x)[:n] if i.op == 'shl' else (x[s:] + [x[-1] if i.op == 'ashr' else ('k', 0)] * s)[:n]
                elif i.op in ('call', 'invoke'):
                    cn = i.cn or ''
                    if cn.startswith('llvm.bswap'):
                        n = w(i.ty)
                        x = val_(i.ops[0], n)
                        reg[i.id] = [z for k in range(n // 8 - 1, -1, -1) for z in x[8 * k:8 * k + 8]]
                    elif cn.startswith(('llvm.fshl', 'llvm.fshr')):
                        n = w(i.ty)
                        x, y = val_(i.ops[0], n), val_(i.ops[1], n)
                        if i.ops[2][0] != 'c':
                            raise Unknown('variable shift')
                        s = i.ops[2][1] % n
                        z = y + x           # low bits first
                        reg[i.id] = z[n - s:2 * n - s] if 'fshl' in cn else z[s:s + n]
                    elif cn.startswith(('llvm.memcpy', 'llvm.memmove')):
                        if i.ops[2][0] != 'c':
                            raise Unknown('length')
                        n = i.ops[2][1]
                        p = bufpos(i.ops[1])
                        if p is not None and not writer:
                            x = [('v', p + k, j) for k in range(n) for j in range(8)]
                        else:
                            x = rd(loc(i.ops[1]), n)
                        wr(loc(i.ops[0]), x)
                    elif cn.startswith('llvm.'):
                        pass
                    elif re.search(r'^std::vector::insert$', sa.strip_targs(i.callee or '')) and fl.loc(i.ops[0]) == B:
                        s = fl.loc(i.ops[2])
                        n = None
                        if s and s[0][0] == 'elem' and fl.loc(i.ops[3]) == (('end', s[0][1]), 0):
                            for v in f.calls(r'^std::vector<unsigned char.*>::vector$'):
                                if fl.loc(v.ops[0]) == s[0][1] and v.ops[1][0] == 'c':
                                    n = v.ops[1][1]
                        else:
                            p1, o1, v1 = f.ptr(i.ops[2])
                            p2, o2, v2 = f.ptr(i.ops[3])
                            if p1 == p2 and not v1 and not v2:
                                n = o2 - o1
                        if n is None or s is None:
                            raise Unknown('range')
                        wr((('buf',), 0), rd(s, n))
                        result = n
                    elif re.search(r'vector<unsigned char.*>::push_back$', i.callee or '') and fl.loc(i.ops[0]) == B:
                        wr((('buf',), result or 0), rd(loc(i.ops[1]), 1))
                        result = (result or 0) + 1
                elif i.op == 'insertvalue' and i.d['idx'] == [0]:
                    n = None
                    reg[i.id] = val_(i.ops[1], 64 if i.ops[1][0] == 'c' else None)
                elif i.op == 'insertvalue':
                    if i.ops[0][0] == 'i' and i.ops[0][1] in reg:
                        reg[i.id] = reg[i.ops[0][1]]
            except Unknown:
                if i.op in ('store',) or i.op in ('call', 'invoke') and (i.cn or '').startswith('llvm.mem') or \
                        i.op in ('call', 'invoke') and re.search('::(insert|push_back)$', sa.strip_targs(i.callee or '')):
                    if i.op == 'store':
                        try:
                            l = loc(i.ops[1])
                        except Unknown:
                            raise
                        for k in range((codec.width(i.sty) or 1)):
                            mem.pop((l[0], l[1] + k), None)
                    else:
                        raise

    def perm(bits):
        out = []
        for k in range(len(bits) // 8):
            x = bits[8 * k:8 * k + 8]
            if x[0][0] == 'v' and x == [('v', x[0][1], j) for j in range(8)]:
                out.append(x[0][1])
            else:
                out.append(('?', tuple(x)))
        return out

    if writer:
        n = max((a[1] for a in mem if a[0] == ('buf',)), default=-1) + 1
        if n == 0:
            raise Unknown('nothing written')
        return perm(rd((('buf',), 0), n)), n
    # reader: the value part of the result
    if sret is not None:
        ks = [a[1] for a in mem if a[0] == ('arg', sret)]
        v = [k for k in range(max(ks, default=-1) + 1) if (('arg', sret), k) in mem]
        bits = []
        for k in v:
            if mem[(('arg', sret), k)][0][0] == 'v':
                bits += mem[(('arg', sret), k)]
        got = perm(bits)
        return got, len(got)
    r = rets[0]
    i = f.get(r.ops[0])
    chain = []
    while i is not None and i.op == 'insertvalue':
        chain.append(i)
        i = f.get(i.ops[0])
    for i in chain:
        if i.d['idx'] == [0]:
            x = val_(i.ops[1], None)
            m = re.search(r'<(.*)>$', f.qual)
            n = codec.prim_size(m.group(1)) if m else len(x) // 8
            got = perm(x[:8 * n])
            return got, n
    raise Unknown('result')
