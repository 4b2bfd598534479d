"""C20: vector arithmetic, interpolation, distances and angles compute their defining formula on every component."""
import c18

VALUE = {'SquaredNorm': 'scalar', 'Norm': 'scalar', 'Sum': 'scalar', 'Abs': 'vec', 'Multiply': 'vec', 'Divide': 'vec', 'Add': 'vec', 'Sub': 'vec',
         'Interpolate': 'by type', 'Interpolate3d': 3, 'Interpolate4d': 4, 'SquaredDistance': 'scalar', 'Distance': 'scalar',
         'EnforceContinuousRevoluteBounds': 'scalar', 'ContinuousRevoluteSignedDistance': 'scalar', 'ContinuousRevoluteDistance': 'scalar',
         'AddContinuousRevoluteValues': 'scalar', 'GetContinuousRevoluteRange': 'scalar', 'InterpolateContinuousRevolute': 'scalar',
         'ComputeStdDevStdVectorDouble': 'scalar', 'AdjointFromTransform': 36,
         'Equal3d': 'bool', 'Equal4d': 'bool', 'CloseEnough': 'bool'}


def run(c):
    c.rule('component', 'every component of the result is the one the defining formula gives on each path')
    c.rule('size', 'arguments of different sizes are refused, equal sizes are not')
    c18.compare(c, 'math.cpp', 'math', VALUE, ('component', 'size'), partial=True)
    c18.compare(c, 'clamps.cpp', 'utility', {'ClampD': 'scalar', 'ClampI': 'scalar', 'SpreadD': 'scalar', 'SpreadI': 'scalar'}, ('component', 'size'), home='lib')
    c.assume('Eigen computes as its source says; real arithmetic')
    c.need('obligations:component', 20)
