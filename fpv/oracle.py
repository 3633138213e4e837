"""Comparison of the library with the reference model."""

from . import model, sut
from .codec import decmap, same
from .core import Violation, require


class Definition:
    """A class definition: real class + model."""

    def __init__(self, cdef, bases=None, **kw):
        self.cdef = cdef
        self.name = cdef['name']
        self.mattrs = [model.MAttr(a) for a in cdef['attrs']]
        kw.setdefault('collector', tuple(cdef.get('tags', ('thing', ))))
        kw.setdefault('abstract', bool(cdef.get('abstract')))
        self.fpdict = model.footprint_dict(cdef)
        form = cdef.get('form')
        if form == 'object':
            self.fpdict = sut.Footprint(self.fpdict)
        elif form == 'kwargs':
            self.fpdict = sut.Footprint(**self.fpdict)
        elif form == 'nodefault':
            self.fpdict = sut.Footprint(nodefault=True, **self.fpdict)
        elif form == 'list':
            self.fpdict = [{k: v} for k, v in self.fpdict.items()]
        elif form == 'mixlist':
            # (a Footprint object with neither attributes nor only clauses is ignored in such a list)
            self.fpdict = [sut.Footprint(nodefault=True, **{k: v}) if k in ('attr', 'only') else {k: v}
                           for k, v in self.fpdict.items()]
        self.cls = sut.mkclass(self.name, self.fpdict, bases=bases, **kw)

    def expect(self, desc, defaults=None, callback=None, extended=True):
        out = model.resolve(self.mattrs, desc, defaults=defaults, callback=callback, extended=extended)
        if out.kind == 'ok':
            out.selected = model.only_ok(self.cdef.get('only', ()), out.values, defaults)
        else:
            out.selected = False
        return out


def outcome_of(fn):
    """Run fn(); return ('ok', result) or ('exc', exception) for footprints-level or documented errors."""
    try:
        return 'ok', fn()
    except Exception as exc:
        return 'exc', exc


def check_values(actual, expected, what):
    """*actual* (dict of readable values) must be exactly the *expected* final values."""
    require(set(actual) == set(expected), '{}: attributes {} instead of {}', what, sorted(actual), sorted(expected))
    for k, v in expected.items():
        v = model.visible(v)
        require(same(actual[k], v), '{}: attribute {} is {!r} ({}) instead of {!r} ({})',
                what, k, actual[k], type(actual[k]).__name__, v, type(v).__name__)


def read(obj, names):
    return {k: getattr(obj, k) for k in names}


def check_error(exp, exc, what):
    """*exc* has been raised: is it legitimate?"""
    name = type(exc).__name__
    require(name in exp.errors, '{}: unexpected {}: {} (expected outcome: {!r})', what, name, exc, exp)


def check_couldbe(d, desc, exp, what='couldbe', **kw):
    """footprint_couldbe against the expected outcome."""
    status, res = outcome_of(lambda: d.cls.footprint_couldbe(desc, **kw))
    if status == 'exc':
        check_error(exp, res, what)
        return None
    require(exp.kind != 'error', '{}: no error ({!r}) but expected {!r}', what, res, exp)
    resolved, inputs = res
    if exp.kind == 'ok' and exp.selected:
        require(resolved, '{}: rejected but expected {!r}', what, exp)
        readable = {k: (None if v is sut.footprints.UNKNOWN else v) for k, v in resolved.items()}
        check_values(readable, exp.values, what)
        require(set(inputs) == exp.inputs, '{}: inputs {} instead of {}', what, sorted(inputs), sorted(exp.inputs))
    else:
        require(not resolved, '{}: accepted as {!r} but expected {!r}', what, resolved, exp)
    return resolved


def check_new(d, desc, exp, what='instantiation'):
    """Direct instantiation against the expected outcome (the only clauses do not apply)."""
    status, res = outcome_of(lambda: d.cls(**desc))
    if status == 'exc':
        if exp.kind == 'reject' and isinstance(res, sut.FootprintFatalError):
            return None
        check_error(exp, res, what)
        return None
    require(exp.kind == 'ok', '{}: successful ({!r}) but expected {!r}', what, res, exp)
    check_values(read(res, res.footprint_attributes), exp.values, what)
    return res


__all__ = ['Definition', 'Violation', 'check_couldbe', 'check_error', 'check_new', 'check_values',
           'decmap', 'outcome_of', 'read']
