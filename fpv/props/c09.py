"""C09: what is collected, and invalid definitions."""

from hypothesis import strategies as st

from .. import gens, sut
from ..core import require

ID = 'C09'
RULE = ('a history of 2-8 class definitions (abstract or not, explicit or not, inherited or own collectors written with any case or plural, '
        'attributes and aliases that may conflict with a tag, values that can not be converted, unknown access modes, failing decorators) '
        'interleaved with instantiations and loads. Non-trivial: a definition is refused, or a class belongs to several collectors.')
BUDGET = dict(quick=6000, thorough=100000)

TAGS = ['thing', 'Things', 'gizmo', 'Gizmos', 'widget', 'boxes', 'THINGS', 'gizmoS']


@st.composite
def _case(draw):
    classes = []
    for i in range(draw(st.integers(2, 8))):
        attrs = []
        for n in draw(gens.subset(['kind', 'alpha', 'beta'], 0, 3)):
            a = dict(name=n, optional=draw(st.integers(0, 2)) == 0)
            if draw(st.integers(0, 4)) == 0:
                a['alias'] = draw(gens.subset(['other', 'nick', 'thing', 'Things', 'gizmo', 'boxe'], 1, 2))
            attrs.append(a)
        if draw(st.integers(0, 7)) == 0:
            attrs.append(dict(name=draw(st.sampled_from(['thing', 'things', 'Things', 'gizmo', 'widget', 'boxe', 'boxes'])),
                              optional=draw(st.booleans())))
        if attrs and draw(st.integers(0, 7)) == 0:
            attrs[draw(st.integers(0, len(attrs) - 1))].update(
                draw(st.sampled_from([dict(type='int', values=['a']), dict(type='int', outcast=['1', 'b']), dict(access='www')])))
        c = dict(attrs=attrs, base=draw(st.integers(-1, i - 1)) if i else -1, local=draw(st.integers(0, 5)) > 0,
                 deco=draw(st.sampled_from(['none', 'none', 'none', 'none', 'fail', 'ok', 'swap', 'bad'])))
        if draw(st.integers(0, 2)):
            c['tags'] = draw(gens.subset(TAGS, 1, 3))
        if draw(st.integers(0, 3)) == 0:
            c['abstract'] = draw(st.booleans())
        if draw(st.integers(0, 2)) == 0:
            c['explicit'] = draw(st.booleans())
        classes.append(c)
    return dict(classes=classes)


def strategy(tier):
    return _case()


def clean(tag):
    return tag.lower().rstrip('s')


class Model:
    def __init__(self):
        self.items, self.abstract = {}, {}


def snapshot(world):
    """What is collected, tag by tag: only non-empty collectors are relevant."""
    out = {}
    for tag in world:
        if tag in sut.collectors.keys():
            coll = sut.collectors.get(tag=tag)
            out[tag] = (set(coll.items()), set(coll.abstract_classes))
        else:
            out[tag] = (set(), set())
    return out


def check(case, ctx):
    fp = sut.footprints
    tags = sorted({clean(t) for t in TAGS} | {'garbage'})
    expected = {t: (set(), set()) for t in tags}
    expected['garbage'][1].add(sut.FootprintBase)
    done = []

    def failing(cls):
        raise ZeroDivisionError('decorator')

    def fine(cls):
        cls.decorated = True
        return cls

    def swap(cls):
        # another class stands for the decorated one
        return sut.Meta('New' + cls.__name__, (cls, ), dict(__module__=cls.__module__, _abstract=cls._abstract))

    actions = dict(fail=failing, ok=fine, swap=swap)

    for i, c in enumerate(case['classes']):
        base = done[c['base'] % len(done)] if c['base'] >= 0 and done else None
        attrs = dict(base['attrs']) if base else {}
        local = {}
        if c['local']:
            for a in c['attrs']:
                b = dict(optional=a['optional'])
                if 'alias' in a:
                    b['alias'] = list(a['alias'])
                if 'type' in a:
                    b['type'] = int
                for k in ('values', 'outcast', 'access'):
                    if k in a:
                        b[k] = a[k]
                local[a['name']] = b
                attrs[a['name']] = dict(attrs.get(a['name'], {}), **b)
        explicit = c.get('explicit', base['explicit'] if base else True)
        ctags = c.get('tags', base['tags'] if base else ['garbage'])
        abstract = c.get('abstract', False)
        refused = set()
        if any(b.get('access') == 'www' for b in attrs.values()):
            refused.add('KeyError')
        if any(x in b.get(k, ()) for b in attrs.values() if b.get('type') is int for x in 'ab' for k in ('values', 'outcast')):
            refused.add('ValueError')
        if not refused and c['deco'] == 'fail':
            refused.add('ZeroDivisionError')
        names = set(attrs) | {x for b in attrs.values() for x in b.get('alias', ())}
        if not refused:
            if not abstract and explicit and all(b['optional'] for b in attrs.values()):
                refused.add('FootprintInvalidDefinition')
            if any(t in names or clean(t) in names for t in ctags):
                refused.add('FootprintInvalidDefinition')
        foot = dict(attr=local)
        if c['deco'] == 'bad':
            for notcallable in (['deco'], [fine, 5], 'deco', None):
                try:
                    sut.DecorativeFootprint(decorator=notcallable, nodefault=True)
                except ValueError:
                    pass
                else:
                    require(False, 'class {:d}: {} is accepted as a decorator', i, notcallable)
        elif c['deco'] != 'none':
            foot = sut.DecorativeFootprint(decorator=actions[c['deco']], nodefault=True)
            foot = [foot, dict(attr=local)]
        ns = {}
        try:
            cls = sut.mkclass('Cls{:d}'.format(i), foot, bases=[base['cls']] if base else None,
                              collector=c.get('tags'), abstract=c.get('abstract'),
                              explicit=c.get('explicit'), **ns)
        except (KeyError, ValueError, ZeroDivisionError, sut.FootprintInvalidDefinition) as exc:
            require(type(exc).__name__ in refused, 'class {:d} is refused with {!r} instead of {}', i, exc, refused or 'nothing')
            ctx.label('refused:' + type(exc).__name__)
            ctx.nontrivial()
        else:
            require(not refused, 'class {:d} is accepted instead of {}', i, refused)
            require(cls.__name__ == ('NewCls' if c['deco'] == 'swap' else 'Cls') + str(i), 'class {:d}: {} is given', i, cls)
            ctx.label('decorator:' + c['deco'])
            for t in ctags:
                expected[clean(t)][1 if abstract else 0].add(cls)
            ctx.nontrivial(len({clean(t) for t in ctags}) > 1)
            ctx.label('abstract' if abstract else 'concrete')
            require(cls.footprint_abstract() == abstract, 'class {:d}: footprint_abstract is {}', i, cls.footprint_abstract())
            done.append(dict(cls=cls, attrs=attrs, explicit=explicit, tags=ctags, abstract=abstract))
        actual = snapshot(tags)
        require(actual == expected, 'after class {:d}: collected (concrete, abstract) classes are {} instead of {}', i,
                show(actual), show(expected))
        allc = {x for t in tags for x in expected[t][0]}
        require(sut.footprints.collected_classes() == allc, 'collected classes are {} instead of {}',
                fp.collected_classes(), allc)
    for x in done:
        desc = {k: '1' for k, b in x['attrs'].items() if not b['optional']}
        if x['abstract']:
            try:
                obj = x['cls'](**desc)
            except sut.FootprintInvalidDefinition:
                pass
            else:
                require(False, 'abstract class {} was instantiated: {!r}', x['cls'], obj)
        else:
            ok = all(b.get('type') is not int or '1' not in b.get('outcast', ()) for b in x['attrs'].values())
            if ok:
                require(isinstance(x['cls'](**desc), x['cls']), 'no instance of {}', x['cls'])
                # (a class without any attribute is never a candidate)
                for t in x['tags'] if x['attrs'] else ():
                    obj = fp.load(tag=t, **desc)
                    require(obj is not None and type(obj) in expected[clean(t)][0],
                            'load({}) with {} gives {!r}', t, desc, obj)
                    found = {y[0] for y in sut.collectors.get(tag=t).find_all(dict(desc))}
                    require(x['cls'] in found, '{} is not a candidate in collector {}', x['cls'], t)


def show(world):
    return {t: (sorted(c.__name__ for c in a), sorted(c.__name__ for c in b)) for t, (a, b) in world.items() if a or b}
