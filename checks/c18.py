"""C18: conversions keep every component of a pose, rotation, twist or vector in its place."""
import re

import sa
from forms import Pair

FLAGS = ('-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_DEBUG')
WORDS = {'Quaternion': 4, 'Vector3d': 3, 'Isometry3d': 16, 'Matrix3d': 9, 'Matrix4d': 16}
CONV = {'QuaternionFromRPY': 4, 'QuaternionFromUrdfRPY': 4, 'EulerAnglesFromRotationMatrix': 3, 'EulerAnglesFromQuaternion': 3, 'EulerAnglesFromIsometry3d': 3,
        'TransformFromXYZRPY': 16, 'TransformFromRPY': 16, 'TransformFromUrdfXYZRPY': 16, 'TransformFromUrdfRPY': 16, 'StdVectorDoubleToEigenVector3d': 3,
        'StdVectorDoubleToEigenVectorXd': 'vec', 'EigenVector3dToStdVectorDouble': 'vec', 'EigenVectorXdToStdVectorDouble': 'vec',
        'StdVectorDoubleToEigenQuaterniond': 4, 'EigenQuaterniondToStdVectorDouble': 'vec'}
MATH = {'Skew': 9, 'Unskew': 3, 'TwistHat': 16, 'TwistUnhat': 6}


def key_of(f):
    """name and parameters without the namespaces in front"""
    d = f.dem
    d = re.sub(r'^(common_robotics_utilities::v1::|ref::|lib::)', '', d)
    return re.sub(r'common_robotics_utilities::v1::|ref::|lib::', '', d)


def compare(c, src, ns, table, rules, partial=False, home='common_robotics_utilities::v1'):
    rx = [rf'^{home}::{ns}::({"|".join(table)})$']
    lib = c.work.load(f'{sa.REPO}/src/common_robotics_utilities/{src}' if home != 'lib' else src, rx, inline=[r'Eigen::', r'^ref::'], flags=FLAGS, reach=True)
    ref = c.work.load('reference.cpp', [rf'^ref::{ns}::({"|".join(table)})$'], inline=[r'Eigen::', r'^ref::'], flags=FLAGS, reach=True)
    mine = {key_of(f): f for f in ref.fns if re.search(rf'^ref::{ns}::({"|".join(table)})$', f.qual)}
    seen = set()
    for f in lib.fns:
        if not re.search(rx[0], f.qual):
            continue
        k = key_of(f)
        n = f.qual.split('::')[-1]
        short = k.split('::', 1)[1]
        g = mine.get(k)
        if g is None and partial:
            continue
        if g is None:
            c.unsure(rules[0], short[:100], 'no definition to compare with')
            continue
        seen.add(k)
        c.saw(f)
        rule = lambda w: rules[1] if w == 'outcome' else rules[0]

        def report(ok, what, text, readable, short=short):
            c.ob(rule(what), ok, f'{short[:90]}|{what}', text, readable=readable)

        def unsure(what, why, short=short):
            c.unsure(rules[0], f'{short[:90]}|{what}', why)
        words = table[n]
        if words == 'by type':
            words = 'vec' if f.params and f.params[0].get('sret') else 'scalar'
        p = Pair(f, g, words, report, unsure)
        p.run()
        c.count('path pairs compared', p.n)
        c.sample(f'{short[:60]}: {p.n} path pairs')
    for k in set(mine) - seen:
        c.unsure(rules[0], k[:100], 'not found in the library')


def run(c):
    c.rule('component', 'every component of the result is the one the definition gives: the term computed on each path equals that of the definition as a polynomial '
           'over the arguments and the sines and cosines of half angles')
    c.rule('size', 'inputs of another size are refused, inputs of the right size are not')
    compare(c, 'conversions.cpp', 'conversions', CONV, ('component', 'size'))
    compare(c, 'math.cpp', 'math', MATH, ('component', 'size'))
    c.assume('Eigen computes as its source says; real arithmetic')
    c.need('obligations:component', 20)
