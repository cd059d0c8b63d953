"""A closed world around the real code: reset, class factory, observation helpers.

Only the public interface of footprints is used here.
"""

import itertools
import logging
import sys

import footprints
from footprints import collectors, config, priorities, reporting, doc
from bronx.patterns import observer

MODULE = 'mcworld'

_SETUP = ('docstrings', 'shortnames', 'fatal', 'report', 'lreport_len', 'report_style',
          'fastmode', 'fastkeys', 'callback', 'extended')
_setup0 = {k: getattr(footprints.setup, k) for k in _SETUP}
_top0 = tuple(priorities.top())
_vis0 = tuple(doc.visibility())


def reset():
    """Back to the initial state of a fresh process."""
    collectors.Collector.tag_clear()
    reporting.FootprintLog.tag_clear()
    observer.ObserverBoard.tag_clear()
    st = footprints.setup
    for k, v in _setup0.items():
        setattr(st, k, v)
    st.defaults = dict()
    st.proxies = set()
    st.nullreport.clear()
    for pset, names in ((priorities.top, _top0), (doc.visibility, _vis0)):
        if tuple(pset()) != names:
            for name in tuple(pset()):
                if name not in names:
                    pset.remove(name)
            pset.reset()
    collectors.get(tag='garbage')
    Meta.hashes = None
    _counter[0] = 0


_counter = [0]


class Meta(footprints.FootprintBaseMeta):
    """Same as the real metaclass, but the harness owns the hash of the classes
    and thereby the iteration order of any set of classes."""

    hashes = None

    def __hash__(cls):
        return cls.__dict__.get('_mc_hash', 0)


class Base(footprints.FootprintBase, metaclass=Meta):
    """Root of the classes of the closed world."""

    _abstract = True
    _explicit = False
    _mc_hash = 1000
    _collector = ('mcroot',)


def make(name, footprint, collector=('thing',), bases=(Base,), h=None, **ns):
    """Define a footprint class, as a ``class`` statement in module ``mcworld`` would do."""
    _counter[0] += 1
    d = dict(__module__=MODULE, __qualname__=name, _mc_hash=_counter[0] if h is None else h)
    if footprint is not None:
        d['_footprint'] = footprint
    if collector is not None:
        d['_collector'] = collector
    d.update(ns)
    cls = type(bases[0])(name, bases, d)
    m = sys.modules.get(MODULE)
    if m is None:
        import types
        m = sys.modules[MODULE] = types.ModuleType(MODULE)
    setattr(m, name, cls)
    return cls


def attrs_of(obj, names):
    """Observable attribute values."""
    return {k: getattr(obj, k) for k in names}


class LogCatcher(logging.Handler):
    """Catch the records of the footprints loggers."""

    def __init__(self, name='footprints'):
        super().__init__(level=1)
        self.records = []
        self.name_ = name

    def emit(self, record):
        self.records.append((record.levelno, record.getMessage()))

    def __enter__(self):
        self.lg = [logging.getLogger(n) for n in list(logging.root.manager.loggerDict)
                   if n == self.name_ or n.startswith(self.name_ + '.')]
        self.old = [x.level for x in self.lg]
        for x in self.lg:
            x.setLevel(1)
            x.addHandler(self)
        return self

    def __exit__(self, *a):
        for x, lv in zip(self.lg, self.old):
            x.removeHandler(self)
            x.setLevel(lv)
        return False


def permutations(n):
    return list(itertools.permutations(range(n)))
