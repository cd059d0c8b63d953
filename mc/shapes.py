"""Alphabet of class specifications shared by several checks."""

import copy
import re

SHAPES = {
    'any': dict(attr=dict(a=dict())),
    'x': dict(attr=dict(a=dict(values=['x']))),
    'xy': dict(attr=dict(a=dict(values=['x', 'y']), b=dict(optional=True))),
    'ab': dict(attr=dict(a=dict(), b=dict())),
    'bint': dict(attr=dict(a=dict(), b=dict(type=int, values=[1, 2]))),
    'notx': dict(attr=dict(a=dict(outcast=['x']))),
    'remap': dict(attr=dict(a=dict(values=['z'], remap=dict(x='z')))),
    'alias': dict(attr=dict(kind=dict(alias=['a']), c=dict(optional=True, default='cc'))),
    'only': dict(attr=dict(a=dict()), only=dict(c='c1')),
    'onlyp': dict(attr=dict(a=dict(), b=dict(optional=True)), only=dict(par=[1, 2])),
    'subst': dict(attr=dict(a=dict(values=['x_1', 'x', 'y']), d=dict(optional=True, default='<[a]>'))),
    'kx': dict(attr=dict(kind=dict(values=['x']), a=dict())),
    're': dict(attr=dict(a=dict(), c=dict(optional=True)), only=dict(c=re.compile('c'))),
    'optx': dict(attr=dict(a=dict(optional=True, values=['x', 'y'], default='y'))),
    'aint': dict(attr=dict(a=dict(type=int))),
    'zero': dict(attr=dict(a=dict(type=int, alias=['b']), b2=dict(type=int, optional=True, values=[1, 2], alias=['c']))),
    'kzero': dict(attr=dict(kind=dict(type=int, values=[0, 1]), a=dict(type=int))),
    'optfast': dict(attr=dict(b=dict(optional=True), kc=dict(type=int, optional=True, alias=['c']))),
    'optbad': dict(attr=dict(a=dict(), b=dict(optional=True, values=['1'], default='1'))),
}

ABSTRACT = ('any!', 'xy!')


def spec(name):
    s = copy.deepcopy(SHAPES[name.rstrip('!')])
    return s


DESCS = [
    {}, {'a': 'x'}, {'a': 'y'}, {'a': 'w', 'b': '1'}, {'a': 'x', 'b': '2'}, {'a': 'x', 'b': 'q', 'c': 'c1'},
    {'a': 'y', 'kind': 'x'}, {'kind': 'x'}, {'a': '7', 'c': 'c1'}, {'a': 'x', 'b': None, 'c': None},
    {'a': '[b]_1', 'b': 'x'}, {'a': None}, {'a': 3, 'b': 1}, {'a': 'None', 'b': '1'},
    {'a': 'none', 'info': 'i', 'report': 0, 'name': 'n', 'level': None, 'footprint': 'f', 'values': ()},
    {'a': '0', 'c': '1', 'kind': 0}, {'a': 0, 'c': '5'}, {'kind': '0', 'a': 'x', 'b': ''}, {'a': '', 'b': '0', 'kind': ''},
]
