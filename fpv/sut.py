"""
Access to the system under test (/repo/src/footprints) and reset of its process-wide state.
"""

import contextlib
import logging
import sys
import types

import footprints
from footprints import (collectors, config, doc, priorities, proxies, reporting, util, access,  # noqa: F401
                        Footprint, DecorativeFootprint, FootprintBase,  # noqa: F401
                        FootprintException, FootprintFatalError, FootprintInvalidDefinition,  # noqa: F401
                        FootprintMaxIter, FootprintUnreachableAttr)  # noqa: F401
from bronx.patterns import observer

Meta = type(FootprintBase)

#: the module all the generated classes claim to live in (so that they can be pickled)
WORLD = types.ModuleType('fpvworld')
sys.modules['fpvworld'] = WORLD

_SETUP0 = dict(footprints.setup.as_dict())
_SETUP_KEYS = ('docstrings', 'shortnames', 'fatal', 'report', 'lreport_len', 'report_style',
               'fastmode', 'fastkeys', 'callback', 'extended')


def reset():
    """Back to a freshly imported footprints package (public API only)."""
    for k in [x for x in vars(WORLD) if not x.startswith('__')]:
        delattr(WORLD, k)
    collectors.Collector.tag_clear()
    reporting.FootprintLog.tag_clear()
    observer.ObserverBoard.tag_clear()
    setup = footprints.setup
    for k in _SETUP_KEYS:
        setattr(setup, k, _SETUP0[k])
    setup.proxies = set()
    setup.defaults = dict()
    priorities.top.reset()
    doc.visibility.reset()
    # as it is right after the import
    collectors.get(tag='garbage').add(FootprintBase, abstract=True)


class _Records(logging.Handler):
    def __init__(self):
        super().__init__(logging.DEBUG)
        self.found = []

    def emit(self, record):
        self.found.append((record.levelno, record.getMessage()))


@contextlib.contextmanager
def messages(level=logging.INFO):
    """List of the messages (level, text) of the package."""
    logger = logging.getLogger('footprints')
    saved = (logger.level, logging.root.manager.disable, logger.propagate)
    handler = _Records()
    logger.addHandler(handler)
    logger.setLevel(level)
    logger.propagate = False
    logging.disable(logging.NOTSET)
    try:
        yield handler.found
    finally:
        logging.disable(saved[1])
        logger.propagate = saved[2]
        logger.setLevel(saved[0])
        logger.removeHandler(handler)


def mkclass(name, footprint, bases=None, collector=('thing', ), abstract=False, explicit=False, module='fpvworld', **ns):
    """Define a footprint-based class (as a class statement would do)."""
    d = dict(__module__=module, __qualname__=name, _footprint=footprint)
    if explicit is not None:
        d['_explicit'] = explicit
    if collector is not None:
        d['_collector'] = tuple(collector)
    if abstract is not None:
        d['_abstract'] = abstract
    d.update(ns)
    cls = Meta(name, tuple(bases or (FootprintBase, )), d)
    setattr(WORLD, name, cls)
    return cls
