#!/usr/bin/env python3
"""Rewrites the part of DESIGN.md below the marker from the property list, the rules the checks state, and the planted changes."""
import ast
import json
import os
import textwrap

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- below: written by tools/design.py -->'


def text(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.BinOp):
        a, b = text(n.left), text(n.right)
        return a + b if a is not None and b is not None else None
    return None


def rules(path):
    out, more = [], []
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'c':
            if n.func.attr == 'rule' and len(n.args) == 2 and text(n.args[1]):
                out.append((n.lineno, text(n.args[0]), text(n.args[1])))
            if n.func.attr == 'assume' and text(n.args[0]):
                more.append(text(n.args[0]))
    return [x[1:] for x in sorted(out)], more


def wrap(s, first='', rest=''):
    return textwrap.fill(' '.join(s.split()), 110, initial_indent=first, subsequent_indent=rest)


def main():
    props = [json.loads(x) for x in open(f'{R}/properties.jsonl')]
    man = json.load(open(f'{R}/MANIFEST.json'))
    claims = {}
    for x in man.get('checks', man.get('properties', [])):
        claims.setdefault(x.get('property') or x.get('id'), x)
    seeds = {}
    for d in sorted(os.listdir(f'{R}/seeded')):
        m = json.load(open(f'{R}/seeded/{d}/meta.json'))
        seeds.setdefault(m['property'], []).append((d, m))
    missed = json.load(open(f'{R}/tools/missed.json')) if os.path.exists(f'{R}/tools/missed.json') else {}
    fixed = {}
    for f in json.load(open(f'{R}/known_findings.json'))['findings']:
        fixed.setdefault(f['property'], []).append(f)
    o = [MARK, '', '## Properties', '']
    for p in props:
        i = p['id']
        o.append(f"### {i} {p['title']}")
        o.append('')
        path = f'{R}/checks/{i.lower()}.py'
        if not os.path.exists(path):
            why = next((x['reason'] for x in man['not_applicable'] if x['property'] == i), '')
            o += [wrap('Not applicable: ' + why), '']
            continue
        o += [wrap(f"Decided by {claims[i]['technique']}." if i in claims else ''), '']
        rs, more = rules(path)
        extra = path.replace('.py', '_text.py')
        if os.path.exists(extra):
            a, b = rules(extra)
            rs, more = rs + a, more + b
        if rs:
            o.append('Rules (each instance in the code is one obligation):')
            o.append('')
            o += [wrap(f'**{a}**: {b}.', '- ', '  ') for a, b in rs]
            o.append('')
        if more:
            o += [wrap('Trusted: ' + '; '.join(more) + '.'), '']
        note = claims.get(i, {}).get('level_note') or claims.get(i, {}).get('note') or ''
        if note:
            o += [wrap('Limits: ' + note), '']
        for f in fixed.get(i, []):
            o.append(wrap(('Repaired: ' if f['status'] == 'fixed' else 'Known finding: ') + f['what'], '- ', '  '))
        if fixed.get(i):
            o.append('')
        if seeds.get(i):
            o.append('Planted changes:')
            o.append('')
            for d, m in seeds[i]:
                o.append(wrap(f"`{d}` ({'missed: ' + missed[d] if d in missed else 'caught'}): {m['what_it_breaks']}; needs {m['needs']}", '- ', '  '))
            o.append('')
    s = open(f'{R}/DESIGN.md').read()
    s = s[:s.index(MARK)] if MARK in s else s.replace('DESIGN_DETAILS\n', '').rstrip() + '\n\n'
    open(f'{R}/DESIGN.md', 'w').write(s + '\n'.join(o).rstrip() + '\n')


main()
