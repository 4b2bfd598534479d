"""C02: deserializers read back what the serializers write."""
import re

import bits
import codec
import codecmp
import sa

ROOTS = r"::(Des|S)erialize\w*(<.*>)?$|'lambda\d*'.*::operator\(\)$"


def key(q):
    return q.replace('Deserialize', 'Serialize').replace('deserialize', 'serialize')


def run(c):
    c.rule('fields', 'the k-th field a serializer appends and the k-th field its deserializer consumes have the same length '
           '(headers substituted), the same codec argument / function / virtual slot, and the same conditions')
    c.rule('encoding', 'both sides agree on host or network byte order')
    c.rule('repetition', 'loops over items run equally often on both sides, by one, without an early exit')
    c.rule('element', 'iteration i handles element i')
    c.rule('member', 'the member a field is taken from is the member it is put into; no field is read and dropped')
    c.rule('position', 'every field is read where the previous field ended (loop-carried cursor checked inductively)')
    c.rule('count', 'reported byte counts are exactly the bytes consumed or appended')
    c.rule('bytes', 'leaf codecs move byte i to byte i (host order) or to byte n-1-i (network order), shown by bit provenance')
    c.rule('complete', 'every data member of a serializable type is restored by its deserializer')
    c.assume('caller-supplied item codecs match each other and report what they append')
    for unit in ('codecs.cpp', 'serialization.cpp'):
        m = c.work.load(unit, ROOTS, keep=codec.KEEP)
        streams, unknown = {}, {}
        for f in m.fns:
            q = f.qual
            if re.search(r'SerializedSize|Deserialized<.*>::Deserialized$|^std::', q.replace(sa.NS, '')):
                continue
            if not re.search(r'erialize', q):
                continue
            try:
                streams[q] = codec.Stream(f, m)
            except codec.Unknown as u:
                unknown[q] = str(u)
        leaf(c, m, unit)
        done = set()
        todo = []
        for q in streams:
            n = sa.strip_targs(q).split('::')[-1]
            if not re.match(r'(\w*)Serialize', n) or "'lambda" in q:
                continue
            if codec.PRIM.search(q):
                continue
            cand = [r for r in streams if r != q and key(r) == key(q) and not streams[r].writer]
            if streams[q].writer and cand:
                todo.append((q, cand[0]))
        while todo:
            a, b = todo.pop()
            if (a, b) in done:
                continue
            done.add((a, b))
            if a not in streams or b not in streams:
                a2 = match(streams, a)
                b2 = match(streams, b)
                if a2 is None or b2 is None:
                    if key(a) == key(b):
                        c.count('codec pairs by name only')
                    elif codec.PRIM.search(a) and codec.PRIM.search(b):
                        prim(c, a, b)
                    else:
                        c.count('codec pairs not compared')
                    continue
                a, b = a2, b2
                if (a, b) in done:
                    continue
                done.add((a, b))
            w, r = streams[a], streams[b]
            if not w.writer or r.writer:
                c.count('codec pairs not compared')
                continue
            c.saw(w.fn)
            c.saw(r.fn)
            name = re.sub(r"'lambda\d*'", 'lambda', sa.strip_targs(w.fn.short()))
            cmp_ = codecmp.Cmp(c, w, r, name)
            try:
                cmp_.run()
                c.sample(f'{w.fn.short()[:80]}: {w.tree}'[:240])
                complete(c, m, cmp_, name)
            except codec.Unknown as u:
                c.count('pairs with a shape that is not compared')
                c.sample(f'not compared: {name}: {u}')
            todo += [(x, y) for x, y, _ in cmp_.sub]
        for q in unknown:
            if 'codecs' in unit or 'serialization::' in q:
                if not codec.PRIM.search(q) and re.search(r'\w*erialize\w*(<.*>)?$', q):
                    c.count('functions with a shape that is not compared')
    c.need('pairs compared', 20)
    c.need('obligations:bytes', 20)


def match(streams, q):
    if q in streams:
        return q
    got = [s for s in streams if s.endswith(q) or s.replace(sa.NS, '').endswith(q.replace(sa.NS, ''))]
    return got[0] if len(got) == 1 else None


def prim(c, a, b):
    ma, mb = codec.PRIM.search(a), codec.PRIM.search(b)
    try:
        same = codec.prim_size(ma.group(4) or '') == codec.prim_size(mb.group(4) or '') and ma.group(2) == mb.group(2)
    except codec.Unknown:
        c.count('codec pairs not compared')
        return
    c.ob('fields', same, f'item codec|{sa.strip_targs(a)}', f'items are written with {a} and read with {b}')


def leaf(c, m, unit):
    for f in m.fns:
        p = codec.PRIM.search(f.qual)
        if not p:
            continue
        c.saw(f)
        net = bool(p.group(2))
        try:
            got, n = bits.leaf(f, m, p.group(1) == 'S', bool(p.group(3)))
        except bits.Unknown as u:
            c.count('leaf codecs with a shape that is not followed')
            c.sample(f'not followed: {f.short()}: {u}')
            continue
        want = [(n - 1 - k if net else k) for k in range(n)]
        c.ob('bytes', got == want, sa.strip_targs(f.short()) + f'|{p.group(4) or ""}',
             f'{f.where()}: {f.short()} maps bytes {got}, expected {want}')


def complete(c, m, cmp_, name):
    r = cmp_.r
    norm = lambda x: x.replace('> >', '>>').replace('> >', '>>')
    if r.sret is not None:
        t = re.sub(r'^.*?Deserialized<(.*)>$', r'\1', norm(r.fn.argtypes[0] if r.fn.argtypes else '')).strip()
        root = ('arg', r.sret)
    elif r.valarg is not None and r.fn.params[r.valarg]['name'] == 'this':
        t = r.fn.qual.rsplit('::', 1)[0]
        root = ('arg', r.valarg)
    else:
        return
    d = next((x for x in m.types.values() if norm(x['name']) == norm(t) and x['members']), None)
    if d is None or t.startswith(('std::', 'Eigen::')):
        c.count('types whose members are not listed')
        return
    offs = {p[0] for p in cmp_.rpaths}
    # members stored without coming straight from the data still count when the reader stores them
    for dl, v, i in r.flow.stores:
        p = codecmp.path(dl, root)
        if p and (v[0] != 'c' or r.sret is None):
            offs.add(p[0])
    for dl, sl, n in r.flow.edges:
        p = codecmp.path(dl, root)
        if p:
            offs.add(p[0])
    for mname, off, *rest in d['members']:
        if mname.startswith('_vptr'):
            continue
        size = rest[1] if len(rest) > 1 else 0
        hit = any(off <= o < off + max(size, 1) for o in offs)
        c.ob('complete', hit, f'{name}|{mname}', f'{r.fn.where()}: {r.fn.short()} does not restore member {mname} of {t}')
