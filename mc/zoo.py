"""Alphabets shared by several checks: names and texts of all kinds, values equal to others of an other type."""

import collections
import datetime
import decimal
import enum
import fractions

import footprints

# Names of attributes, aliases, extra values, parameters
NAMES = ['a', 'x', 'z', 'a_', 'a1', 'a_1', 'ab', 'alpha', 'my_a', 'my__a', 'kind', 'level', 'date', 'values', 'default', 'type', 'only', 'attr',
         'optional', 'alias', 'cls', 'args', 'remap', 'outcast', 'access', 'info', 'model', 'geometry', 'class_', 'A', 'Bee', 'aB', 'UPPER', 'é', 'pattern',
         'before', 'after', 'name', 'value', 'key', 'item', 'index', 'none', 'fp', 'priority', 'bind', 'extra', 'n' * 40, 'xx', 'report',
         'guess', 'extras', 'desc', 'fast', 'nodef', 'autofmt', 'fatal', 'args_', 'kwargs', 'obj', 'o2', 'i18n']

# Texts without any marker of substitution
TEXTS = ['', ' ', '  ', '_', '__', '____', 'x____y____z', '%', '%%', '%s', '%(a)s', '10', '9', '09', '-1', '1e5', '1.0', 'a\nb', '\n', 'a\n', 'é', 'Éa', 'a b', 'a,b', 'a-b',
         'a/b', '/', '.', '..', 'a.b', '\\', '\\1', '\\g<0>', '{0}', '{', '}', '{}', '(', ')', '*', '?', '$', '^', '|', '#', ':', ';', '&', '"', "'", "''", 'None ', 'nOne', 'NONE', 'none', 'true', 'False',
         '__unknown', 'A', 'a', 'ab', 'abc', 'b', 'x' * 300, '0', '00', '0x1', '~', '@a', '\t', 'a\tb', 'self', 'my_x', '\x00', '0.1', 'inf', 'nan']


class Color(enum.Enum):
    RED = 'red'
    BLUE = 'blue'


class Num(enum.IntEnum):
    ONE = 1
    TWO = 2


Pair = collections.namedtuple('Pair', 'p q')


class Text(str):
    """A text of an other type."""


class Whole(int):
    """A number of an other type."""


# Values that are equal to others of an other type, and values of uncommon types
VALUES = [0, 1, 2, 0.0, 1.0, 2.5, True, False, decimal.Decimal(1), decimal.Decimal('2.5'), fractions.Fraction(2), 1j, 1 + 0j, '1', '', 'red', b'1', b'', Text('1'), Text(''), Whole(1), Whole(0),
          Color.RED, Color.BLUE, Num.ONE, Num.TWO, Pair(1, 2), (1, 2), (), frozenset([1]), frozenset(), datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2), datetime.timedelta(1),
          footprints.FPTuple((1, 2)), footprints.FPList(), footprints.FPDict(), int, str, Text, len, Ellipsis, range(2), slice(1), [1], [], {}, {1: 2}, {1}, set(), object]
