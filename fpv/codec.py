"""
JSON view of the values found in cases, and the custom types used by generated footprints.

JSON scalars stand for themselves; anything else is ``{"t": <kind>, "v": <content>}``.
"""

from footprints import FPDict, FPList, FPRegex, FPSet, FPStr, FPTuple, FootprintException


class Geo:
    """A value object (equality, hash) with a property, and methods used in substitutions."""

    def __init__(self, name):
        if not isinstance(name, str) or not name or name.startswith('!'):
            raise ValueError('bad geometry: {!r}'.format(name))
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Geo) and self.name == other.name

    def __hash__(self):
        return hash(('Geo', self.name))

    def __str__(self):
        return 'geo-' + self.name

    __repr__ = __str__

    @property
    def area(self):
        return self.name.upper() + '01'

    @property
    def size(self):
        return len(self.name)

    @property
    def nothing(self):
        return None

    def label(self, guess, extras):
        return 'lab_' + self.name

    def void(self, guess, extras):
        return None

    def seen(self, guess, extras):
        """Is this object the value of some attribute ?"""
        return 'in' if any(v is self for v in guess.values()) else 'out'

    def extra(self, guess, extras):
        """Have a look at an extra parameter."""
        return str(extras.get('more', '-'))

    def late(self, guess, extras):
        """Something that needs the actual value of another attribute."""
        if 'alpha' not in guess or not isinstance(guess['alpha'], int):
            raise ValueError('not yet')
        return guess['alpha'] + 1

    def broken(self, guess, extras):
        raise ValueError('never')

    @property
    def deep(self):
        return Geo(self.name + 'x')


class Even(int):
    """An integer that must be even."""

    def __new__(cls, value=0):
        self = super().__new__(cls, value)
        if self % 2:
            raise ValueError('odd')
        return self


class Scaled(int):
    """An integer type that needs arguments."""

    def __new__(cls, value=0, scale=1, shift=0):
        return super().__new__(cls, int(value) * scale + shift)


class Picky(str):
    """A type that rejects values with the footprints' own exception."""

    def __new__(cls, value=''):
        if len(str(value)) > 3:
            raise FootprintException('too long')
        return super().__new__(cls, value)


class Stamp(str):
    """A type that knows how it must be exported."""

    def export_dict(self):
        return dict(stamp=str(self))


class Both(str):
    """A type with two ways of being exported: the footprints' own one is the right one."""

    def footprint_export(self):
        return ('both', str(self))

    def export_dict(self):
        return dict(wrong=str(self))


class CoreA:
    """Root of a small hierarchy used by isclass attributes."""


class CoreB(CoreA):
    pass


class CoreC(CoreB):
    pass


class Other:
    pass


TYPES = dict(str=str, int=int, float=float, bool=bool, list=list, dict=dict,
             FPStr=FPStr, FPList=FPList, FPTuple=FPTuple, FPSet=FPSet, FPDict=FPDict,
             Geo=Geo, Stamp=Stamp, Both=Both, Even=Even, Scaled=Scaled, Picky=Picky,
             CoreA=CoreA, CoreB=CoreB, CoreC=CoreC, Other=Other)


def dec(spec):
    """Build the actual value described by *spec*."""
    if isinstance(spec, list):
        return [dec(x) for x in spec]
    if not isinstance(spec, dict):
        return spec
    t, v = spec['t'], spec.get('v')
    if t == 'tuple':
        return tuple(dec(x) for x in v)
    if t == 'list':
        return [dec(x) for x in v]
    if t == 'set':
        return {dec(x) for x in v}
    if t == 'frozenset':
        return frozenset(dec(x) for x in v)
    if t == 'range':
        return range(*v)
    if t == 'dict':
        return {dec(a): dec(b) for a, b in v}
    if t == 'FPDict':
        return FPDict((dec(a), dec(b)) for a, b in v)
    if t in ('FPList', 'FPTuple', 'FPSet'):
        return TYPES[t](dec(x) for x in v)
    if t == 'FPStr':
        return FPStr(v)
    if t == 'Geo':
        return Geo(v)
    if t == 'Stamp':
        return Stamp(v)
    if t == 'Both':
        return Both(v)
    if t == 'Even':
        return Even(v)
    if t == 'Scaled':
        return Scaled(v)
    if t == 'Picky':
        return Picky(v)
    if t == 'cls':
        return TYPES[v]
    if t == 're':
        return FPRegex(v)
    raise ValueError('unknown spec {!r}'.format(spec))


def decmap(pairs):
    """Build a dictionary from a list of (key, spec) pairs (the order matters)."""
    return {k: dec(v) for k, v in pairs}


def same(a, b):
    """Strict sameness: same type, same content."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return (set(a) == set(b) and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    if isinstance(a, FPRegex):
        return (a.pattern, a.flags) == (b.pattern, b.flags)
    return a == b
