"""
Reference model of the footprints resolution, written from the documentation.

The model never looks at the library's internals: it works on the JSON definition of
the footprints and evaluates each attribute on demand (recursively), whereas the library
cycles through a queue of attributes.
"""

import re
import string

from footprints import FootprintBase, FootprintException

from .codec import TYPES, dec

#: An optional attribute that was left unset (read as None)
UNSET = type('Unset', (), {'__repr__': lambda self: '<unset>'})()

#: documented syntax of a substitution: [key], [key:member], [key#default], [key%format]
PLACEHOLDER = re.compile(r'\[(?P<k>\w+)(?P<m>:+[:\w]+)?(?:#(?P<d>\w+))?(?:%(?P<f>[^\]]+))?\]')

MISSING, INVALID, OUTSIDE, OUTCAST, RECLASS, SUBCLASS = (
    'Missing value', 'Invalid value', 'Not in values', 'Outcast value', 'Could not reclass', 'Not a subclass')


class Unspecified(Exception):
    """The documentation says nothing about this case."""


class Boom(Exception):
    """The resolution must end with an exception (one of *names*)."""

    def __init__(self, *names):
        super().__init__(names)
        self.names = set(names)


class Failed(Exception):
    """An attribute that is needed has already failed."""


class DynDefault:
    """A default value computed on the fly."""

    def __init__(self, spec):
        self.spec = spec
        self.calls = 0

    def footprint_value(self):
        self.calls += 1
        return dec(self.spec)


# ------------------------------------------------------------------ definitions

def attr_dict(a):
    """The ``attr`` entry (as a user would write it) of the JSON attribute definition *a*."""
    out = dict()
    if a.get('type'):
        out['type'] = TYPES[a['type']]
    for k in ('isclass', 'optional', 'access', 'info', 'doc_zorder'):
        if k in a:
            out[k] = a[k]
    if 'args' in a:
        out['args'] = dict(a['args'])
    if 'default' in a:
        spec = a['default']
        if isinstance(spec, dict) and spec['t'] == 'dyn':
            out['default'] = DynDefault(spec['v'])
        else:
            out['default'] = dec(spec)
    if 'alias' in a:
        out['alias'] = set(a['alias'])
    if 'values' in a:
        out['values'] = [dec(x) for x in a['values']]
    if 'outcast' in a:
        out['outcast'] = [dec(x) for x in a['outcast']]
    if 'remap' in a or a.get('autoremap'):
        out['remap'] = {dec(x): dec(y) for x, y in a.get('remap', ())}
        if a.get('autoremap'):
            out['remap']['autoremap'] = 'first'
    return out


def footprint_dict(c):
    """The ``_footprint`` dictionary of the JSON class definition *c*."""
    out = dict(attr={a['name']: attr_dict(a) for a in c['attrs']})
    if 'info' in c:
        out['info'] = c['info']
    if c.get('only'):
        out['only'] = {k: only_value(v) for k, v in c['only']}
    if c.get('level'):
        from footprints import priorities
        out['priority'] = dict(level=priorities.top.level(c['level']))
    return out


def only_value(spec):
    return dec(spec)


class MAttr:
    """What the model knows about an attribute."""

    def __init__(self, a):
        self.name = a['name']
        self.type = TYPES[a['type']] if a.get('type') else str
        self.args = dict(a.get('args', {}))
        self.isclass = bool(a.get('isclass'))
        self.optional = bool(a.get('optional'))
        self.default = a.get('default')
        self.alias = list(a.get('alias', ()))
        raw_values = [dec(x) for x in a.get('values', ())]
        self.values = [self._typed(x) for x in raw_values]
        self.outcast = [self._typed(dec(x)) for x in a.get('outcast', ())]
        self.remap = [(dec(x), dec(y)) for x, y in a.get('remap', ())]
        if a.get('autoremap'):
            for x in raw_values[1:]:
                self.remap = [(p, q) for p, q in self.remap if p != x] + [(x, raw_values[0])]

    def _typed(self, x):
        if self.isclass or isinstance(x, self.type):
            return x
        return self.type(x, **self.args)

    def remapped(self, value):
        seen = []
        while True:
            try:
                hash(value)
            except TypeError:
                return value
            new = [q for p, q in self.remap if p == value]
            if not new or new[-1] == value:
                return value
            if any(s == new[-1] for s in seen):
                raise Boom('FootprintMaxIter')
            seen.append(value)
            value = new[-1]

    def accept(self, value):
        """Return ``(reason, value)``: reason is None when the (remapped) value is acceptable."""
        if self.isclass:
            if not (isinstance(value, type) and issubclass(value, self.type)):
                return SUBCLASS, None
        elif not isinstance(value, self.type):
            try:
                value = self.type(value, **self.args)
            except (ValueError, TypeError, FootprintException):
                return RECLASS, None
        if self.values and not any(v == value for v in self.values):
            return OUTSIDE, None
        if self.outcast and any(v == value for v in self.outcast):
            return OUTCAST, None
        return None, value


# ------------------------------------------------------------------ resolution

class _CallingFormatter(string.Formatter):
    """The documented flavour of formatting: argument-less methods are called."""

    def get_field(self, field_name, args, kwargs):
        obj, first = super().get_field(field_name, args, kwargs)
        return (obj() if callable(obj) else obj), first


#: whatever may be raised while an attribute that depends on a failing one is processed
ANY_ERROR = {'FootprintUnreachableAttr', 'FootprintMaxIter', 'ValueError', 'TypeError',
             'AttributeError', 'KeyError', 'IndexError'}


class Outcome:
    """
    * kind: ok, reject, error or unspecified;
    * values: final values (ok only);
    * inputs: attributes given by the caller or the setup's defaults;
    * failing: attribute -> reason, for those that certainly fail on their own;
    * maybe: attributes whose own status can't be told (they depend on a failing one);
    * errors: names of the exceptions that may be (kind == reject) or must be (kind == error) raised.
    """

    def __init__(self):
        self.kind = 'ok'
        self.values = {}
        self.inputs = set()
        self.failing = {}
        self.maybe = set()
        self.errors = set()
        self.raw_none = False
        self.subst = 0

    def __repr__(self):
        return 'Outcome({0.kind}, values={0.values!r}, failing={0.failing!r}, maybe={0.maybe!r}, errors={0.errors!r})'.format(self)


def shallow(obj):
    """Attributes of a footprint object."""
    return {k: getattr(obj, k) for k in obj.footprint_attributes}


def resolve(mattrs, desc, defaults=None, callback=None, extended=True):
    """
    Expected outcome for the attributes *mattrs* (list of MAttr) given a description.

    :param desc: the description (real values)
    :param defaults: the setup's defaults
    :param callback: dictionary returned by the setup's callback
    """
    out = Outcome()
    defaults = {k.lower(): v for k, v in (defaults or {}).items()}
    guess = dict()
    for a in mattrs:
        def given(key):
            return key in desc and not (a.optional and desc[key] is None)
        aliases = [x for x in a.alias if given(x)]
        if given(a.name):
            guess[a.name] = desc[a.name]
            out.inputs.add(a.name)
        elif aliases:
            first = desc[aliases[0]]
            if any(desc[x] is not first for x in aliases[1:]):
                raise Unspecified('several aliases')
            guess[a.name] = first
            out.inputs.add(a.name)
        elif a.name.lower() in defaults:
            guess[a.name] = defaults[a.name.lower()]
            out.inputs.add(a.name)
        elif not a.optional:
            guess[a.name] = None
        elif a.default is None:
            guess[a.name] = UNSET
        elif isinstance(a.default, dict) and a.default['t'] == 'dyn':
            guess[a.name] = dec(a.default['v'])
        else:
            guess[a.name] = dec(a.default)

    nones = [k for k, v in guess.items() if v is None]
    if nones:
        out.kind = 'reject'
        out.raw_none = True
        out.failing = {k: {MISSING} for k in nones}
        for k, v in guess.items():
            if v == 'None' and isinstance(v, str):
                out.failing[k] = {INVALID}
        out.inputs -= set(out.failing)
        return out

    extras = dict(callback or {})
    for v in desc.values():
        if isinstance(v, FootprintBase):
            extras.update(shallow(v))
    for more in (desc, defaults if extended else {}):
        for k, v in more.items():
            if k not in extras and k not in guess:
                extras[k] = v

    final, state = dict(), dict()
    mmap = {a.name: a for a in mattrs}

    def lookup(key, members, stack):
        """Actual value of a reference (its str content, if any, is fully substituted)."""
        if key in guess:
            v = value(key, stack)
            if v is UNSET:
                raise Unspecified('reference to an unset attribute')
            return v
        if key in extras:
            if ('extra', key, *members) in stack:
                raise Boom('FootprintMaxIter')
            return extras[key]
        raise Boom('FootprintUnreachableAttr')

    class _Peek:
        """What the methods called by substitutions may look at."""

        def __init__(self, key, obj, stack):
            self.key, self.obj, self.stack = key, obj, stack

        def __contains__(self, k):
            return k in guess

        def values(self):
            return [final[self.key]] if self.key in guess else []

        def __getitem__(self, k):
            if self.key in guess and (type(guess[k]) is not mmap[k].type or mmap[k].remap or
                                      isinstance(guess[k], str)):
                # depends on the order of the attributes
                raise Unspecified('attribute that may not be there yet')
            return value(k, self.stack)

    def render(text, stack):
        """Substitute everything in *text*, left to right; None if some member is None."""
        res, pos = '', 0
        for m in PLACEHOLDER.finditer(text):
            out.subst += 1
            res += text[pos:m.start()]
            pos = m.end()
            key, members = m.group('k'), [x for x in re.split(':+', m.group('m') or '') if x]
            if key not in guess and key not in extras and m.group('d'):
                res += m.group('d')
                continue
            v = lookup(key, members, stack)
            for name in members:
                if not hasattr(v, name):
                    return None
                sub = getattr(v, name)
                if sub is None:
                    return None
                if callable(sub):
                    if type(sub).__name__ == 'builtin_function_or_method':
                        v = sub()
                    else:
                        try:
                            v = sub(_Peek(key, v, stack), dict(extras))
                        except ValueError as exc:
                            # methods of extra parameters are called again later on...
                            raise Boom('FootprintMaxIter' if key not in guess else type(exc).__name__)
                    if v is None:
                        return None
                else:
                    v = sub
            if m.group('f'):
                fmt = m.group('f')
                spec = '{0' + fmt + '}' if (':' in fmt or '!' in fmt) else '{0:' + fmt + '}'
                try:
                    new = _CallingFormatter().format(spec, v)
                except (ValueError, TypeError, AttributeError, KeyError, IndexError) as exc:
                    raise Boom(type(exc).__name__)
            else:
                new = str(v)
            if PLACEHOLDER.search(new):
                if key in guess:
                    raise Unspecified('placeholder in the text of an attribute value')
                new = render(new, stack | {('extra', key, *members)})
                if new is None:
                    return None
            elif '[' in new or ']' in new:
                raise Unspecified('brackets in substituted text')
            res += new
        return res + text[pos:]

    def value(k, stack):
        if k in state:
            if state[k] == 'failed':
                raise Failed()
            return final[k]
        if k in stack:
            raise Boom('FootprintMaxIter')
        raw = guess[k]
        if isinstance(raw, str) and PLACEHOLDER.search(raw):
            raw = render(raw, stack | {k})
            if raw is None:
                state[k] = 'failed'
                out.failing[k] = {MISSING}
                raise Failed()
        raw = mmap[k].remapped(raw)
        if raw is not UNSET:
            reason, raw = mmap[k].accept(raw)
            if reason is None and isinstance(raw, str) and raw == 'None':
                reason = INVALID
            if reason is not None:
                state[k] = 'failed'
                out.failing[k] = {reason}
                raise Failed()
        state[k] = 'done'
        final[k] = raw
        return raw

    unspecified = None
    for a in mattrs:
        try:
            value(a.name, frozenset())
        except Failed:
            if a.name not in out.failing:
                out.maybe.add(a.name)
        except Boom as exc:
            out.errors |= exc.names
        except Unspecified as exc:
            unspecified = exc
    if unspecified is not None:
        raise unspecified
    if out.failing:
        out.kind = 'reject'
        out.inputs -= set(out.failing) | out.maybe
        if out.maybe:
            out.errors |= ANY_ERROR
    elif out.errors:
        out.kind = 'error'
    else:
        out.values = final
    return out


def visible(v):
    """What a reader gets for a final value."""
    return None if v is UNSET else v


# ------------------------------------------------------------------ only clauses

def only_ok(only, values, defaults=None):
    """Tell if the final *values* fulfil all the ``only`` clauses (list of (key, spec))."""
    defaults = {k.lower(): v for k, v in (defaults or {}).items()}
    for key, spec in only:
        expected = only_value(spec)
        mode, name = '', key
        for prefix in ('after_', 'before_'):
            if key.startswith(prefix):
                mode, name = prefix, key[len(prefix):]
        if name in values:
            actual = visible(values[name])
        else:
            actual = defaults.get(name.lower())
        if actual is None:
            return False
        if isinstance(expected, str) or not hasattr(expected, '__iter__'):
            expected = (expected, )
        ok = False
        for e in expected:
            if mode == 'after_':
                ok = ok or actual >= e
            elif mode == 'before_':
                ok = ok or actual < e
            elif hasattr(e, 'match'):
                ok = ok or bool(e.match(actual))
            else:
                ok = ok or actual == e
        if not ok:
            return False
    return True
