"""C01: byte codecs stay inside the buffers they are given."""
import re

import sa
from bounds import Bounds, ELEM
from lin import Lin


def run(c):
    c.rule('extent', 'at every memcpy, load and store through a pointer into a vector, string, matrix or local object: '
           '0 <= offset and offset + length <= extent follows from the dominating branch conditions, with machine '
           'wrap-around modelled exactly (an addition or product that may wrap proves nothing)')
    c.rule('element', 'every operator[] on a container has an index below the size the container has at that point')
    c.assume('allocation functions either throw or return the storage asked for; a container holds at most 2^63-1 bytes')
    c.assume('caller-supplied item codecs only append to / read from the buffer they are handed')
    m = c.work.load('serialization.cpp', r'serialization::(Des|S)erialize(?!d)\w*(<.*>)?$')
    fns = [f for f in m.fns if not re.search(r'SerializedSize|Deserialized<', f.short())]
    for f in fns:
        c.saw(f)
        b = Bounds(f)
        short = sa.strip_targs(f.short())
        for i, p, n, rw in b.accesses():
            env = b.env(i.block)
            P = b.pointer(p, i, env)
            if P is None:
                continue
            kind, off, ext, name = P
            if kind == 'local' and not (i.cn or '').startswith('llvm.mem'):
                continue    # scalar accesses of locals are typed
            length = Lin(n) if isinstance(n, int) else env.u(n)
            if kind == 'unsized':
                c.count('unsized accesses')
                continue
            def goals(e, p=p, i=i, n=n):
                _, o, x, _ = b.pointer(p, i, e)
                return [o, x - o - (Lin(n) if isinstance(n, int) else e.u(n))]
            ok = b.holds(i.block, goals)
            c.ob('extent', ok, f'{short}|{rw} {name}',
                 f'{i.where()}: {rw} of {name} at byte offset {show(off)}, length {show(length)}, extent {show(ext)} is not '
                 f'bounded by the conditions that dominate it [{i.chain()}] in {f.short()}')
            c.sample(f'{f.short()}: {rw} {name} [{show(off)}, +{show(length)}) within {show(ext)}')
        for i in f.calls(r'::operator\[\]$'):
            m_ = ELEM.match(i.callee)
            if not m_ or i.block not in f.live():
                continue
            env = b.env(i.block)
            n = b.size_lin(i.ops[0], i, env)
            if n is None:
                c.count('unsized element accesses')
                continue
            ok = b.holds(i.block, lambda e: [(b.size_lin(i.ops[0], i, e) - e.u(i.ops[1])).addc(-1)])
            c.ob('element', ok, f'{short}|{b.name(i.ops[0])}',
                 f'{i.where()}: {b.name(i.ops[0])}[{show(env.u(i.ops[1]))}] with size {show(n)} is not bounded by the '
                 f'conditions that dominate it [{i.chain()}] in {f.short()}')
    c.need('obligations:extent', 150)
    c.need('obligations:element', 150)


def show(l):
    def a(t):
        if isinstance(t, tuple):
            t = t[2] if len(t) == 3 and t[0] in ('n', 'u', 's', 'um', 'sm', 'prod') else t
            if isinstance(t, tuple):
                if t[0] == 'arg':
                    return str(t[1])
                if t[0] == 'call':
                    return t[1].split('::')[-1] + '(' + ','.join(a(x) for x in t[2:] if x[0] != 'ver') + ')'
                if t[0] in ('phi', 'alloca'):
                    return f'{t[0]}{t[1]}'
                if t[0] == 'load':
                    return '*' + a(t[1])
                return '(' + ' '.join(a(x) for x in t) + ')'
        return str(t)
    if l is None:
        return '?'
    s = ' + '.join((f'{v}*' if v != 1 else '') + a(k) for k, v in l.t.items())
    return (s + (f' + {l.c}' if l.c else '')) if s else str(l.c)
