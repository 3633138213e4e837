"""C20: the dedicated containers, strings and expressions against the builtin ones."""

import copy
import json
import pickle
import re

from hypothesis import strategies as st

from footprints import FPDict, FPList, FPRegex, FPSet, FPStr, FPTuple

from .. import codec, sut
from ..core import require

ID = 'C20'
RULE = ('one of the six dedicated types with a content (possibly nested) and a history of 0-10 changes applied to it and to the builtin twin; equality, hashes '
        '(against an equal object built in another order, and in dictionaries), listings, exports, copies (shallow, deep, '
        'all the pickle protocols) are compared to the twin after each change; for expressions, all the matching methods on 1-6 texts. '
        'Non-trivial: at least two effective changes, or a non-empty frozen content, or an expression that matches some texts and does not match others.')
BUDGET = dict(quick=9000, thorough=150000)

ATOMS = ['a', 'b', 'a,b', 'range(1,2)', '', 1, 0, True, 2.5, None, dict(t='tuple', v=[1, 'x']), dict(t='FPStr', v='a'), dict(t='FPTuple', v=['a', 2]),
         dict(t='FPList', v=['a']), dict(t='FPSet', v=['a', 'b']), dict(t='FPDict', v=[['a', 1]])]
PATTERNS = [r'a', r'^a+b?$', r'(\w)(\d+)', r'(?P<x>a|b)c', r'\s*,\s*', r'', r'.', r'[A-Z]+', r'é|è', r'(a)|b']
TEXTS = ['a', 'ab', 'AAB', 'a12 b3', 'ac bc', ' , ', '', 'a\nb', 'é', 'x, y ,z']
FLAGS = [0, re.IGNORECASE, re.MULTILINE, re.DOTALL, re.IGNORECASE | re.DOTALL, re.VERBOSE, re.ASCII]


@st.composite
def _case(draw):
    kind = draw(st.sampled_from(['FPDict', 'FPList', 'FPSet', 'FPTuple', 'FPStr', 'FPRegex', 'helpers']))
    atom = st.sampled_from(ATOMS)
    if kind == 'FPRegex':
        return dict(kind=kind, pattern=draw(st.sampled_from(PATTERNS)), flags=int(draw(st.sampled_from(FLAGS))),
                    texts=draw(st.lists(st.sampled_from(TEXTS), min_size=1, max_size=6)))
    if kind == 'FPStr':
        return dict(kind=kind, text=draw(st.one_of(st.sampled_from(TEXTS + ['range(1,2)']), st.text(max_size=6))), other=draw(st.sampled_from(TEXTS)))
    if kind == 'helpers':
        pairs = st.lists(st.tuples(st.sampled_from('abcd'), st.sampled_from([1, 2, 'x'])), max_size=3)
        desc = {}
        for k in draw(st.lists(st.sampled_from('klmnop'), max_size=5, unique=True)):
            w = draw(st.sampled_from(['list', 'tuple', 'plain', 'str', 'dict']))
            desc[k] = [w, draw(st.lists(pairs, max_size=3)) if w in ('list', 'tuple') else draw(pairs) if w == 'dict' else draw(atom) if w == 'plain' else draw(st.sampled_from(TEXTS))]
        return dict(kind=kind, desc=desc, klist=draw(st.lists(st.sampled_from('klmnopq'), max_size=4)), key=draw(st.sampled_from('klmq')), value=draw(atom))
    ops = []
    for _ in range(draw(st.integers(0, 10))):
        ops.append([draw(st.integers(0, 7)), draw(atom), draw(atom)])
    content = draw(st.lists(st.tuples(atom, atom) if kind == 'FPDict' else atom, max_size=5))
    return dict(kind=kind, content=[list(x) if kind == 'FPDict' else x for x in content], ops=ops if kind != 'FPTuple' else [], rot=draw(st.integers(0, 5)))


def strategy(tier):
    return _case()


MUT = dict(
    FPDict=[lambda o, a, b: o.__setitem__(a, b), lambda o, a, b: o.pop(a, None), lambda o, a, b: o.update({a: b, b: a}), lambda o, a, b: o.setdefault(a, b),
            lambda o, a, b: o.__delitem__(a), lambda o, a, b: o.clear(), lambda o, a, b: o.popitem(), lambda o, a, b: o.get(a)],
    FPList=[lambda o, a, b: o.append(a), lambda o, a, b: o.insert(0, a), lambda o, a, b: o.extend([a, b]), lambda o, a, b: o.remove(a),
            lambda o, a, b: o.pop(), lambda o, a, b: o.reverse(), lambda o, a, b: o.__setitem__(0, a), lambda o, a, b: o.index(a)],
    FPSet=[lambda o, a, b: o.add(a), lambda o, a, b: o.discard(a), lambda o, a, b: o.update([a, b]), lambda o, a, b: o.remove(a),
           lambda o, a, b: o.difference_update([a]), lambda o, a, b: o.clear(), lambda o, a, b: o.symmetric_difference_update([a, b]), lambda o, a, b: a in o],
)
TWIN = dict(FPDict=dict, FPList=list, FPSet=set, FPTuple=tuple, FPStr=str)


def equal(x):
    """Something else that is equal to x."""
    if type(x) in (int, bool, float):
        return {1: 1.0, 0: False}.get(x, x) if type(x) is not bool else int(x)
    if type(x) is tuple:
        return tuple(equal(y) for y in x)
    return x


def outcome(fn, *args):
    try:
        return True, fn(*args)
    except (KeyError, IndexError, ValueError) as exc:
        return False, type(exc)


def check(case, ctx):
    globals()['_check_' + case['kind'].lower() if case['kind'] in ('FPRegex', 'FPStr', 'helpers') else '_check_container'](case, ctx)


def _content(case):
    if case['kind'] == 'FPDict':
        return [(codec.dec(a), codec.dec(b)) for a, b in case['content']]
    return [codec.dec(x) for x in case['content']]


def _check_container(case, ctx):
    cls, twincls = codec.TYPES[case['kind']], TWIN[case['kind']]
    obj, twin = cls(_content(case)), twincls(_content(case))
    views(case, cls, obj, twin, 'initially')
    changes = 0
    for i, (op, a, b) in enumerate(case['ops']):
        what = 'after {!r}'.format(case['ops'][:i + 1])
        a, b = codec.dec(a), codec.dec(b)
        before = copy.deepcopy(twin)
        res, exp = outcome(MUT[case['kind']][op], obj, a, b), outcome(MUT[case['kind']][op], twin, a, b)
        require(res[0] == exp[0] and (codec.same(res[1], exp[1]) or res[1] == exp[1]), '{}: {} instead of {}', what, res, exp)
        changes += before != twin
        views(case, cls, obj, twin, what)
    ctx.label(case['kind'])
    ctx.nontrivial(changes >= 2 or (case['kind'] == 'FPTuple' and len(twin) > 1))


def views(case, cls, obj, twin, what):
    require(type(obj) is cls and isinstance(obj, TWIN[cls.__name__]), '{}: type is {}', what, type(obj))
    require(obj == twin and twin == obj and not obj != twin and len(obj) == len(twin) and bool(obj) == bool(twin), '{}: {} instead of {}', what, obj, twin)
    require(obj == cls(twin) and cls(twin) == obj, '{}: not equal to a new one', what)
    if cls is not FPSet:
        require(list(obj) == list(twin), '{}: iterates over {}', what, list(obj))
    # hashes
    seq = list(twin.items()) if cls is FPDict else list(twin)
    if cls in (FPDict, FPSet):
        seq = seq[::-1]
    same = cls([equal(x) for x in seq])
    require((same == obj) is True and (obj == same) is True and hash(same) == hash(obj) and same in {obj},
            '{}: {} and {} have different hashes, or are different', what, same, obj)
    again = cls(seq)
    require(again == obj, '{}: {} instead of {}', what, again, obj)
    try:
        h = hash(obj)
    except TypeError:
        require(False, '{}: {} is not hashable', what, obj)
    require(h == hash(again) == hash(obj), '{}: equal objects have different hashes', what)
    require({again: 'found'}.get(obj) == 'found' and obj in {again}, '{}: not found in a dictionary', what)
    # listings
    if cls is FPDict:
        require(list(obj.items()) == list(twin.items()) and list(obj.keys()) == list(twin) and list(obj.values()) == list(twin.values()), '{}: items {}', what, obj.items())
    else:
        its = obj.items()
        require(len(its) == len(twin) and (set(its) == twin if cls is FPSet else list(its) == list(twin)), '{}: items are {}', what, its)
        require(its is not obj, '{}: items is the object itself', what)
        if isinstance(its, list):
            its.append('zorglub')
            require(obj == twin, '{}: items gives access to the object', what)
    # copies
    for how, new in [('copy', copy.copy(obj)), ('deepcopy', copy.deepcopy(obj))] + [
            ('pickle {:d}'.format(p), pickle.loads(pickle.dumps(obj, p))) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]:
        require(type(new) is cls and new == obj and hash(new) == hash(obj), '{}: {} gives {!r} instead of {!r}', what, how, new, obj)
        if cls is not FPTuple:
            require(new is not obj, '{}: {} gives the same object', what, how)
            if cls is FPDict:
                new['zorglub'] = 1
            else:
                (new.append if cls is FPList else new.add)('zorglub')
            require(obj == twin and new != obj, '{}: {} is not independent', what, how)
    # exports
    if cls is FPSet:
        exp = obj.footprint_export()
        require(type(exp) is list and len(exp) == len(twin) and set(exp) == twin, '{}: export is {}', what, exp)
        try:
            expected = sorted(twin)
        except TypeError:
            expected = None
        # (sets are only partially ordered)
        if expected is not None and not any(isinstance(x, (set, frozenset)) for x in twin):
            require(exp == expected, '{}: export is {} instead of {}', what, exp, expected)
        if all(isinstance(x, (str, int, float, type(None))) for x in twin):
            require(set(json.loads(json.dumps(exp))) == twin, '{}: export is not jsonable', what)
        exp.append('zorglub')
        require(obj == twin, '{}: export gives access to the object', what)
    # never expanded
    require(sut.util.expand(dict(x=obj, y=1)) == [dict(x=obj, y=1, index_expansion=1)], '{}: expanded', what)


def _check_fpstr(case, ctx):
    obj, twin = FPStr(case['text']), case['text']
    require(type(obj) is FPStr and obj == twin and twin == obj and hash(obj) == hash(twin) and str(obj) == twin and len(obj) == len(twin), '{!r} instead of {!r}', obj, twin)
    require({twin: 1}.get(obj) == 1 and {obj: 1}.get(twin) == 1, '{!r} is not the same key', obj)
    require(list(obj) == list(twin) and repr(obj) == repr(twin) and '{:s}|{}'.format(obj, obj) == '{:s}|{}'.format(twin, twin), '{!r} instead of {!r}', obj, twin)
    other = case['other']
    require((obj < other, obj > other, obj == other, other in obj, obj + other) == (twin < other, twin > other, twin == other, other in twin, twin + other), '{!r} vs {!r}', obj, other)
    require(json.dumps(obj) == json.dumps(twin), 'json of {!r}', obj)
    for new in [copy.copy(obj), copy.deepcopy(obj)] + [pickle.loads(pickle.dumps(obj, p)) for p in range(2, pickle.HIGHEST_PROTOCOL + 1)]:
        require(type(new) is FPStr and new == twin, 'copy of {!r} is {!r}', obj, new)
    require([d['x'] for d in sut.util.expand(dict(x=obj, y=1))] == [obj], '{!r} is expanded', obj)
    require(type(sut.util.expand(dict(x=obj, y=[1]))[0]['x']) is FPStr, '{!r} looses its type', obj)
    ctx.label('FPStr')
    ctx.nontrivial(len(twin) > 0)


def _sig(m):
    if m is None or isinstance(m, (str, list, tuple)):
        return m
    return (m.group(0), m.groups(), m.groupdict(), m.span())


def _check_fpregex(case, ctx):
    obj = FPRegex(case['pattern'], case['flags']) if case['flags'] else FPRegex(case['pattern'])
    twin = re.compile(case['pattern'], case['flags'])
    variants = [('itself', obj), ('copy', copy.copy(obj)), ('deepcopy', copy.deepcopy(obj)), ('deepcopy in a list', copy.deepcopy([obj])[0])]
    variants += [('pickle {:d}'.format(p), pickle.loads(pickle.dumps(obj, p))) for p in range(0, pickle.HIGHEST_PROTOCOL + 1)]
    twice = copy.deepcopy(dict(a=obj, b=[obj]))
    require(twice['a'] is twice['b'][0], 'deepcopy of a shared expression gives two of them')
    hit = set()
    for how, r in variants:
        require(type(r) is FPRegex, '{} is {!r}', how, r)
        require((r.pattern, r.flags, r.groups, dict(r.groupindex)) == (twin.pattern, twin.flags, twin.groups, dict(twin.groupindex)), '{}: {} {}', how, r.pattern, r.flags)
        for text in case['texts']:
            for meth in ('match', 'search', 'fullmatch', 'split', 'findall'):
                got, exp = _sig(getattr(r, meth)(text)), _sig(getattr(twin, meth)(text))
                require(got == exp, '{}: {} of {!r} in {!r} gives {} instead of {}', how, meth, r.pattern, text, got, exp)
            require(r.sub('_', text) == twin.sub('_', text) and [_sig(x) for x in r.finditer(text)] == [_sig(x) for x in twin.finditer(text)], '{}: sub in {!r}', how, text)
            require(r.match(text, 1) is None if twin.match(text, 1) is None else r.match(text, 1), '{}: arguments', how)
            hit.add(twin.search(text) is not None)
        exp = r.footprint_export()
        again = FPRegex(*exp)
        require(tuple(exp) == (twin.pattern, twin.flags) and again.pattern == twin.pattern and again.flags == twin.flags, '{}: export is {}', how, exp)
        require(case['pattern'] in str(r) and case['pattern'] in repr(r), '{}: text is {}', how, r)
        require(not hasattr(r, 'nothing_like_that') and not hasattr(r, '_nothing'), '{}: unknown attributes', how)
    require(sut.util.expand(dict(x=obj, y=1))[0]['x'] is obj, 'expanded')
    require(hash(obj) == hash(obj) and obj == obj, 'hash of an expression')
    ctx.label('FPRegex')
    ctx.nontrivial(hit == {True, False})


def _check_helpers(case, ctx):
    def build():
        out = {}
        for k, (w, v) in case['desc'].items():
            out[k] = [dict(x) for x in v] if w == 'list' else tuple(dict(x) for x in v) if w == 'tuple' else dict(v) if w == 'dict' else codec.dec(v) if w == 'plain' else v
        return out
    # a list of dictionaries stands for their union
    desc = build()
    klist = [k for k in case['klist'] if not (case['desc'].get(k, [''])[0] == 'plain' and isinstance(desc[k], (list, tuple)))]
    res = sut.util.list2dict(desc, tuple(klist))
    for k, (w, v) in case['desc'].items():
        exp = build()[k]
        if k in klist and isinstance(exp, (list, tuple)):
            exp = {a: b for x in v for a, b in x}
        require(codec.same(res[k], exp), 'list2dict: {} is {!r} instead of {!r}', k, res[k], exp)
    require(list(res) == list(case['desc']), 'list2dict: keys {}', list(res))
    # a changed copy
    desc = build()
    value = codec.dec(case['value'])
    new = sut.util.inplace(desc, case['key'], value)
    require(codec.same(desc, build()), 'inplace: the input is now {}', desc)
    require(codec.same(new, {**build(), case['key']: value}), 'inplace: {}', new)
    for k, v in desc.items():
        if k != case['key'] and type(v) in (list, dict):
            require(new[k] is not v, 'inplace: {} is shared', k)
            for x, y in zip(new[k], v) if type(v) is list else ():
                require(x is not y, 'inplace: content of {} is shared', k)
    # texts with attributes or methods of objects
    geo = codec.Geo('x')
    geo.call = lambda: 'called'
    fmt = sut.util.FoxyFormatter()
    require(fmt.format('{g.name}-{g.call}-{g.deep.size:03d}-{a}-{d[k]}', g=geo, a='A', d=dict(k=5)) == 'x-called-002-A-5', 'formatter')
    ctx.label('helpers')
    ctx.nontrivial(len(case['desc']) > 1 and any(k in case['klist'] for k in case['desc']))
