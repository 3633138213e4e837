"""C23: the generated documentation is complete, ordered, and has no effect."""

import inspect
import re

from hypothesis import strategies as st

from .. import codec, gens, model, sut
from ..core import require

ID = 'C23'
RULE = ('a class (or a child and its parent, or a Footprint object) with 1-8 attributes of any kind (visibilities in a possibly altered order, zorders out of bounds, aliases, '
        'values, remap, defaults, texts with underscores), only clauses and decorators, documented at level 0 to 3; the sections, their order and their content '
        'are parsed and compared with the definition. Non-trivial: at least three attributes documented with sections, two of them having different ranks.')
BUDGET = dict(quick=4000, thorough=60000)

NAMES = ['kind', 'alpha', 'beta', 'gamma_1', 'delta', 'epsi_', 'zeta', 'Mixed', 'a1', 'a10']
INFOS = ['Some text', 'A text with under_scores_', 'Ends with a dot.', 'é', 'a * b']
GENERIC = [['bind', gens.t('list', ['kind'])], ['fastkeys', gens.t('tuple', ['kind', 'alpha'])], ['mynote', 'a text'], ['count', 7]]
VIS = ['default', 'advanced', 'guru', 'secret']


@st.composite
def _attrs(draw, names):
    attrs = []
    for n in names:
        a, _ = draw(gens.typed_attr(n, access=('rxx', 'rwx', 'rwd')))
        if draw(st.integers(0, 5)) == 0:
            # texts that look like links
            a = dict(name=n, optional=draw(st.booleans()), default=draw(st.sampled_from(['under_', 'a_b', '_'])), values=draw(gens.subset(['under_', 'o_k', 'z_', '_', 'a_b'], 0, 3)))
            if a['values']:
                a['default'] = a['values'][0]
        if draw(st.integers(0, 2)):
            a['info'] = draw(st.sampled_from(INFOS))
        if draw(st.integers(0, 3)) == 0:
            a['alias'] = ['al_' + n, 'other_' + n][:draw(st.integers(1, 2))]
        a['zorder'] = draw(st.sampled_from([None, None, 0, 5, -5, 100, 99, 101, 150, -100, -150, 1000, -99]))
        a['vis'] = draw(st.sampled_from([None, None] + VIS))
        attrs.append(a)
    return attrs


@st.composite
def _case(draw):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=8, unique=True))
    cut = draw(st.integers(0, len(names) - 1)) if draw(st.booleans()) else 0
    return dict(parent=draw(_attrs(names[:cut])), attrs=draw(_attrs(names[cut:])),
                info=draw(st.sampled_from([None] + INFOS)), doc=draw(st.sampled_from([None, '', 'A class', 'Multi\n\n    lines.'])),
                level=draw(st.sampled_from([0, 1, 2, 2, 2, 2, 2, 3])), prio=draw(st.sampled_from([None, 'none', 'toolbox', 'debug'])),
                only=draw(st.lists(st.tuples(st.sampled_from(['kind', 'date', 'after_date', 'before_x']), st.sampled_from(['v1', 5, gens.t('re', 'ab+')])),
                                   max_size=3, unique_by=lambda x: x[0])),
                generic=draw(gens.subset(GENERIC, 0, 3)) if draw(st.integers(0, 3)) == 0 else [], decorated=draw(st.integers(0, 3)) == 0, abstract=draw(st.integers(0, 4)) == 0,
                reorder=draw(st.lists(st.tuples(st.sampled_from(VIS), st.integers(-2, 2)), max_size=2)))


def strategy(tier):
    return _case()


def definition(attrs, case, own):
    fpd = dict(attr={})
    for a in attrs:
        d = model.attr_dict({k: v for k, v in a.items()})
        if a['zorder'] is not None:
            d['doc_zorder'] = a['zorder']
        if a['vis'] is not None:
            d['doc_visibility'] = getattr(sut.doc.visibility, a['vis'].upper())
        fpd['attr'][a['name']] = d
    if own:
        if case['info'] is not None:
            fpd['info'] = case['info']
        fpd.update((k, codec.dec(v)) for k, v in case['generic'])
        if case['only']:
            fpd['only'] = {k: codec.dec(v) for k, v in case['only']}
        if case['prio']:
            fpd['priority'] = dict(level=sut.priorities.top.level(case['prio']))
    return fpd


def check(case, ctx):
    fp = sut.footprints
    vis = sut.doc.visibility
    vis.insert('secret', after='advanced')
    order = ['default', 'advanced', 'secret', 'guru']
    attrs = case['parent'] + case['attrs']
    fp.setup.docstrings = case['level']
    names = ['fpvtag']

    def deco(cls):
        return cls

    own = definition(case['attrs'], case, True)
    if case['decorated']:
        own = sut.DecorativeFootprint(own, decorator=[deco])
    obj = sut.Footprint(definition(attrs, case, True))
    bases = None
    if case['parent']:
        bases = (sut.mkclass('Parent', definition(case['parent'], case, False), collector=names, abstract=True), )
    ns = {} if case['doc'] is None else dict(__doc__=case['doc'])
    cls = sut.mkclass('Thing', own, bases=bases, collector=names, abstract=case['abstract'], **ns)
    require(not case['level'] or obj.__doc__ == sut.doc.format_docstring(obj, case['level'], abstractfpobj=True),
            'documentation of the footprint: {!r}', obj.__doc__)
    base = case['doc'] or 'Not documented yet.'
    text = cls.__doc__
    # the documentation of the attributes themselves
    for a in attrs:
        if 'info' in a:
            adoc = inspect.getattr_static(cls, a['name']).__doc__
            require(a['info'].rstrip('.') in adoc, 'documentation of {} is {!r}', a['name'], adoc)
            require(('see the documentation' in adoc) == (case['level'] > 1), 'documentation of {} is {!r} at level {:d}', a['name'], adoc, case['level'])
    # how levels are ordered when the documentation is made
    if not case['level']:
        require(text == base, 'documentation is {!r} instead of {!r}', text, base)
        return
    require(text.startswith(base), 'the documentation {!r} does not start with {!r}', text, base)
    require(text[len(base):] == sut.doc.format_docstring(cls.footprint_retrieve(), case['level']), 'documentation of the class: {!r}', text)
    for tag, shift in case['reorder']:
        vis.rerank(tag, shift)
        pos = order.index(tag)
        order.pop(pos)
        order.insert(max(0, pos + shift), tag)
    was = cls.footprint_retrieve().as_copy()
    for style, foot, isobj in ((2, cls.footprint_retrieve(), False), (2, obj, True), (1, cls.footprint_retrieve(), False), (1, obj, True), (3, obj, False)):
        text = sut.doc.format_docstring(foot, style, abstractfpobj=isobj)
        require(isinstance(text, str), 'documentation is {!r}', text)
        if style == 2:
            sphinx(case, text, attrs, order, isobj, foot)
        else:
            require('Footprint::' in text, 'raw documentation is {}', text)
            for a in attrs:
                require(re.search(r'\b{}\b'.format(re.escape(a['name'])), text) and all(x in text for x in a.get('alias', ())), 'no {} in {}', a['name'], text)
            require(text == sut.doc.format_docstring(foot, 1, abstractfpobj=isobj) and foot.nice() in text, 'raw documentation is {}', text)
    now = cls.footprint_retrieve().as_copy()
    require(set(now['attr']) == set(was['attr']) and all(codec.same(now['attr'][k].get(x), was['attr'][k].get(x)) for k in was['attr']
            for x in was['attr'][k] if x != 'default'), 'the footprint has changed: {} {}', was, now)
    ctx.label('level {:d}'.format(case['level']))
    ctx.nontrivial(len(attrs) > 2 and len({(a['vis'] or 'default', clamp(a['zorder'])) for a in attrs}) > 1)


def clamp(z):
    return min(100, max(-100, z or 0))


def shown(value):
    """True if the value has an obvious text."""
    return isinstance(value, (str, int)) and not isinstance(value, bool) and type(value) in (str, int)


def sphinx(case, text, attrs, order, isobj, foot):
    lines = [x.strip() for x in text.split('\n')]
    heads = ['Automatic parameters from the footprint:', 'Only clauses:', 'Decorators that will be applied on the target class:', 'Aliases of some parameters:']
    pos = {h: lines.index(h) for h in heads if h in lines}
    aliases = {x: a['name'] for a in attrs for x in a.get('alias', ())}
    exp = [True, bool(case['only']), case['decorated'] and not isobj, bool(aliases)]
    require([h in pos for h in heads] == exp, 'sections are {} in {}', sorted(pos), text)
    require(all(lines.count(h) <= 1 for h in heads) and sorted(pos.values()) == [pos[h] for h in heads if h in pos], 'sections are {} in {}', pos, text)

    # the layout of nested lists and titles relies on blank lines and indentation
    require(all(x.startswith('    ') for x in text.split('\n') if x.strip()), 'indentation of {}', text)
    raw = text.split('\n')
    for h, p in pos.items():
        require(lines[p - 1] == '' and lines[p + 1] == '' and lines[p + 2].startswith('* '), 'blank lines around {!r} in {}', h, text)
    require(lines[-1] == '', 'no blank line at the end of {}', text)
    depth = [len(x) - len(x.lstrip()) if x.strip() else None for x in raw]
    for i in range(pos[heads[0]], len(raw) - 1):
        if lines[i].startswith('* ') and lines[i + 1].startswith('* '):
            require(depth[i] == depth[i + 1], 'nested list without any blank line in {}', text)
    for x in lines:
        if re.match(r'\* (Optional|Values|Outcast|Remap)', x):
            require(not re.search(r'(?<=[^\W_])_(?!\w)', x), 'unexpected link in {}', x)

    def section(h):
        start = pos[h]
        return lines[start + 1:min([x for x in pos.values() if x > start] + [len(lines)])]

    # head
    head = '\n'.join(lines[:pos[heads[0]]])
    if not isobj:
        require('* info: ' + (case['info'] or 'Not documented') in head, 'information is missing: {}', head)
        require('priority: ' in head and (case['prio'] or 'default').upper() in head, 'priority is missing: {}', head)
    for k, v in case['generic']:
        found = re.search(r'(?m)^\* {}: (.+)$'.format(k), head)
        require(found and (not shown(v) or str(v) in found.group(1)), '{} is not documented: {}', k, head)
    # attributes
    blocks = []
    for line in section(heads[0]):
        m = re.match(r'\* \*\*(\w+)\*\* \(:class:`([\w.]+)`\) - ([\w-]+) - (.*)$', line)
        if m:
            blocks.append((m, []))
        elif line:
            require(blocks, 'unexpected line {!r} in {}', line, text)
            blocks[-1][1].append(line)
    expected = sorted(attrs, key=lambda a: (order.index(a['vis'] or 'default'), -clamp(a['zorder']), a['name']))
    require([b[0].group(1) for b in blocks] == [a['name'] for a in expected], 'attributes are {} instead of {}', [b[0].group(1) for b in blocks], [a['name'] for a in expected])
    for (m, more), a in zip(blocks, expected):
        typ = model.TYPES[a['type']] if a.get('type') else str
        require(m.group(2).split('.')[-1] == typ.__name__, 'type of {} is {}', a['name'], m.group(2))
        require(m.group(3) == a.get('access', 'rxx'), 'access of {} is {}', a['name'], m.group(3))
        require(m.group(4) == a.get('info', 'Not documented, sorry.'), 'information of {} is {}', a['name'], m.group(4))
        detail = {}
        for line in more:
            k = re.match(r'\* (Optional\. Default is|\w+:)', line)
            if k:
                require(k.group(1) not in detail, '{} is there twice for {}: {}', k.group(1), a['name'], more)
                detail[k.group(1)] = line.replace('\\_', '_')
        require(('Optional. Default is' in detail) == bool(a.get('optional')), 'optional attribute {} is {}', a['name'], more)
        fpa = foot.attr[a['name']]
        if a.get('optional') and shown(fpa['default']):
            require(repr(fpa['default']) in detail['Optional. Default is'], 'default value {!r} of {}: {}', fpa['default'], a['name'], more)
        for key, title in (('values', 'Values:'), ('outcast', 'Outcast:'), ('remap', 'Remap:'), ('args', 'Args:'), ('isclass', 'Isclass:')):
            wanted = bool(a.get(key)) if key != 'remap' else bool(fpa['remap'])
            require((title in detail) == wanted, '{} of {}: {}', key, a['name'], more)
            if wanted and key in ('values', 'outcast'):
                for v in a[key]:
                    v = codec.dec(v)
                    if type(v) is typ and shown(v) and True not in [x for x in a[key] if isinstance(x, bool)]:
                        require(repr(v) in detail[title], '{!r} is missing from {} of {}: {}', v, key, a['name'], more)
            if wanted and key == 'remap':
                for k, v in fpa['remap'].items():
                    if shown(v):
                        require(str(v) in detail[title], '{!r} is missing from the remap of {}: {}', v, a['name'], more)
    # other sections
    if case['only']:
        got = [re.match(r'\* \*\*(\w+)\*\* - (.*)$', x) for x in section(heads[1]) if x]
        require([m and m.group(1) for m in got] == sorted(k for k, _ in case['only']), 'only clauses: {}', section(heads[1]))
        for m in got:
            v = dict((k, v) for k, v in case['only'])[m.group(1)]
            if shown(v):
                require(m.group(2) == str(v), 'only clause {}: {}', m.group(1), m.group(2))
    if aliases:
        got = [re.match(r'\* \*\*(\w+)\*\* is an alias of (\w+)\.$', x) for x in section(heads[3]) if x]
        require(all(got) and {m.group(1): m.group(2) for m in got} == aliases and len(got) == len(aliases), 'aliases: {} instead of {}', section(heads[3]), aliases)
