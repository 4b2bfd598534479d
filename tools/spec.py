#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H = 'include/common_robotics_utilities/'
S = 'src/common_robotics_utilities/'
P = []          # properties
NA = {}         # id -> reason
TECH = {}       # id -> (technique, level_note)


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
    assert len(title) <= 80, id
    if na:
        NA[id] = na
    else:
        TECH[id] = (tech, note)


prop('C01', 'Byte codecs never read or write outside the buffers they are handed',
     'Whatever bytes and starting position a deserializer is given, it either throws or reads only bytes that lie inside '
     'the supplied buffer, and writes only inside the value it is building. Size headers taken from the data are checked against the '
     'bytes that are left, without integer wrap-around, before they are used to size or fill anything. Serializers write '
     'only inside the buffer they append to or the in-place range they were given.',
     ['inputs'], 'every buffer content and length, every starting position, every item type the codecs are built for',
     'the tests decode what the encoder just wrote; truncated or hostile buffers and extreme size headers are never tried',
     [H + 'serialization.hpp', S + 'serialization.cpp'],
     [('remaining-bytes tests before each copy', H + 'serialization.hpp'),
      ('matrix and vector codecs', S + 'serialization.cpp')],
     'interval/linear-inequality abstract interpretation of the inlined LLVM IR: every memory access is an obligation',
     'Linear reasoning over dominating branch conditions with exact wrap-around; user-supplied item codecs are assumed to '
     'stay inside the buffer they are handed.')

if __name__ == '__main__':
    import importlib.util
    more = os.path.join(ROOT, 'tools', 'spec_more.py')
    if os.path.exists(more):
        exec(compile(open(more).read(), more, 'exec'))
    done = [p['id'] for p in P if os.path.exists(f'{ROOT}/checks/{p["id"].lower()}.py')]
    with open(f'{ROOT}/properties.jsonl', 'w') as f:
        for p in sorted(P, key=lambda p: p['id']):
            f.write(json.dumps(p) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': []}
    for p in sorted(P, key=lambda p: p['id']):
        i = p['id']
        if i in NA:
            man['not_applicable'].append({'property': i, 'reason': NA[i]})
        elif i not in done:
            man['not_applicable'].append({'property': i, 'reason': 'check not built yet'})
        else:
            man['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i}',
                                  'thorough_cmd': f'python3 check.py {i} --tier thorough',
                                  'technique': TECH[i][0], 'level': 'other', 'level_note': TECH[i][1]})
    json.dump(man, open(f'{ROOT}/MANIFEST.json', 'w'), indent=1)
    print(len(P), 'properties', len(man['checks']), 'claimed')
