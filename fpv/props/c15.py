"""C15: settings, orders and repetitions that must not change any result."""

import io
import contextlib
import logging

from hypothesis import strategies as st

from .. import codec, gens, model, sut
from ..codec import same
from ..core import require

ID = 'C15'
RULE = ('2-4 classes (typed attributes, remap, values, aliases, defaults, substitutions, only clauses, levels) and 1-3 descriptions (some with a footprint object), possibly with a callback; everything that can be '
        'observed (candidates, values, inputs, loaded objects, instantiations) is compared between the standard settings and 2-4 sets of neutral changes: report '
        'level, style and length, documentation level, short names, fast mode and fast keys, fatal flag, debug logging, order of the classes, attributes and description keys, '
        'resolution cache shared by all the descriptions, repetition. Non-trivial: at least one class is selected and another one is not.')
BUDGET = dict(quick=6000, thorough=50000)

NAMES = ['kind', 'alpha', 'beta', 'gamma']
PLACE = ['[alpha]', 'x[beta]y', '[gamma]', '[kind]', '[ext]', '[beta%03d]', '[nope#7]', '[ext#none]', '[alpha:area]', '[ext:name]', '[alpha][beta]', '[more]', '[more#z]']


@st.composite
def _case(draw):
    classes, pools = [], {}
    for i in range(draw(st.integers(2, 4))):
        attrs = []
        for n in draw(gens.subset(NAMES, 1, 4)):
            a, pool = draw(gens.typed_attr(n, kinds=['str', 'str', 'int', 'int16', 'float', 'FPList', 'Geo', 'Even', 'Picky']))
            if draw(st.integers(0, 3)) == 0:
                a['alias'] = ['al_' + n]
            if a.get('optional') and draw(st.integers(0, 3)) == 0 and not a.get('isclass'):
                a['default'] = draw(st.sampled_from(PLACE))
            attrs.append(a)
            pools.setdefault(n, []).extend(a.get('values', pool) if draw(st.booleans()) else pool)
        c = dict(name='Cls{:d}'.format(i), attrs=attrs, level=draw(st.sampled_from(['default', 'default', 'toolbox', 'none'])),
                 fastkeys=draw(gens.subset(NAMES, 0, 1)), short=draw(st.booleans()))
        if draw(st.integers(0, 1)) == 0:
            c['only'] = [[draw(st.sampled_from(['kind', 'ext', 'alpha', 'beta'])), draw(st.sampled_from(['a', 'foo', 1, 'e']))]]
        classes.append(c)
    descs = []
    for _ in range(draw(st.integers(1, 3))):
        desc = []
        for n in sorted(pools):
            if draw(st.integers(0, 7)):
                v = draw(st.sampled_from(pools[n] + PLACE[:2]))
                desc.append([draw(st.sampled_from([n, n, n, 'al_' + n])), v])
        if draw(st.booleans()):
            desc.append(['ext', draw(st.sampled_from(['e', 5, gens.t('Geo', 'x'), '[alpha]']))])
        if draw(st.integers(0, 3)) == 0:
            desc.append(['odd', gens.t('dict', [[1, 'a'], ['b', 2]])])
        if draw(st.integers(0, 4)) == 0:
            # a footprint object gives extra parameters
            desc.append(['helper', [[k, draw(st.sampled_from(['h', '7', 'a']))] for k in draw(gens.subset(['more', 'ext', 'alpha'], 0, 2))]])
        descs.append(desc)
    variants = []
    for _ in range(draw(st.integers(2, 4))):
        v = {}
        for k in draw(gens.subset(['report', 'report', 'style', 'len', 'docstrings', 'shortnames', 'fastmode', 'fastkeys', 'nofastkeys', 'fatal', 'debug',
                                   'classes', 'attrs', 'keys', 'cache', 'reverse'], 1, 5)):
            v[k] = draw({'report': st.sampled_from([0, 2, 3]), 'style': st.integers(0, 3), 'len': st.integers(1, 3), 'docstrings': st.integers(1, 2),
                         'classes': st.permutations(list(range(len(classes)))), 'attrs': st.integers(0, 1000),
                         'keys': st.integers(0, 1000), 'fastkeys': gens.subset(NAMES, 1, 3)}.get(k, st.just(True)))
        if draw(st.integers(0, 2)) == 0:
            v['fastmode'] = True
        variants.append(v)
    return dict(classes=classes, descs=descs, variants=variants, extended=draw(st.booleans()),
                callback=draw(st.sampled_from([None, None, [], [['ext', 'c']], [['more', 'c'], ['alpha', 3]]])),
                dflt=draw(st.sampled_from([[], [['beta', '1']], [['Ext', 'e']], [['Ext', 'e'], ['nope', 8]]])))


def strategy(tier):
    return _case()


def shuffled(items, salt):
    """A deterministic permutation."""
    items = list(items)
    out = []
    while items:
        salt = salt * 1103515245 + 12345
        out.append(items.pop((salt >> 8) % len(items)))
    return out


def values_of(resolved):
    return {k: (None if v is sut.footprints.UNKNOWN else v) for k, v in resolved.items()}


def attempt(fn):
    try:
        return fn()
    except Exception as exc:
        return ('exc', type(exc).__name__)


class Sink(logging.Handler):
    def emit(self, record):
        record.getMessage()


def observe(case, variant, ctx=None):
    """Everything a user can see, in a fresh world tuned as told by *variant*."""
    fp = sut.footprints
    sut.reset()
    setup = fp.setup
    setup.report = variant.get('report', setup.report)
    setup.report_style = variant.get('style', setup.report_style)
    setup.lreport_len = variant.get('len', setup.lreport_len)
    setup.docstrings = variant.get('docstrings', 0)
    setup.shortnames = variant.get('shortnames', False)
    setup.fastmode = variant.get('fastmode', False)
    setup.fastkeys = () if 'nofastkeys' in variant else tuple(variant.get('fastkeys', setup.fastkeys))
    setup.extended = case['extended']
    setup.fatal = not variant.get('fatal', False)
    setup.defaults = codec.decmap(case['dflt'])
    if case['callback'] is not None:
        given = codec.decmap(case['callback'])
        setup.callback = lambda: given
    order = variant.get('classes', range(len(case['classes'])))
    classes = {}
    for i in order:
        c = dict(case['classes'][i])
        if 'attrs' in variant:
            c['attrs'] = shuffled(c['attrs'], variant['attrs'] + i)
        foot = model.footprint_dict(c)
        if c['fastkeys'] and 'nofastkeys' not in variant:
            foot['fastkeys'] = set(c['fastkeys'])
        ns = {}
        if c['short']:
            ns['footprint_custom'] = lambda self: 'custom'
        classes[c['name']] = sut.mkclass(c['name'], foot, **ns)
    helper = sut.mkclass('Helper', dict(attr={n: dict(optional=True, access='rwx') for n in ('more', 'ext', 'alpha')}), collector=('helper', ))
    helpers = []
    for spec in case['descs']:
        helpers.append(helper(**{k: v for n, x in spec if n == 'helper' for k, v in x}))
    coll = sut.collectors.get(tag='thing')
    out = []
    shared = sut.collectors.ResolveCache() if 'cache' in variant else None
    descs = list(enumerate(case['descs']))
    if variant.get('reverse'):
        # from the last one, and twice
        descs = descs[::-1] + descs
    for i, spec in descs:
        desc, ref = [codec.decmap([[k, v if k != 'helper' else None] for k, v in x])
                     for x in (shuffled(spec, variant['keys'] + i) if 'keys' in variant else spec, spec)]
        for d in (desc, ref):
            if 'helper' in d:
                d['helper'] = helpers[i]
        cache = [shared]
        obs = dict(desc=i)

        def couldbe(cls):
            resolved, inputs = cls.footprint_couldbe(desc, resolvecache=cache[0])
            return ('ok', values_of(resolved), sorted(inputs)) if resolved else ('no', )

        def find_all():
            return sorted((c.__name__, values_of(r), sorted(inp)) for c, r, inp in coll.find_all(desc, resolvecache=cache[0]))

        def direct(cls):
            obj = cls(**desc)
            if 'footprint_custom' in vars(cls):
                require(obj.footprint_custom() == 'custom', 'custom method')
            return ('obj', obj.footprint_as_shallow_dict())

        def load():
            if shared is not None:
                rd, back = coll.pickup_and_cache(dict(desc), resolvecache=shared)
                require(back is shared, 'the cache became {}', back)
                obj = rd.get('thing')
            else:
                obj = fp.load(tag='thing', **desc)
            return None if obj is None else ('obj', type(obj).__name__, obj.footprint_as_shallow_dict())

        obs['couldbe'] = {n: attempt(lambda: couldbe(c)) for n, c in classes.items()}
        obs['find_all'] = attempt(find_all)
        obs['new'] = {n: attempt(lambda: direct(c)) for n, c in classes.items()}
        obs['load'] = attempt(load)
        anyobj = attempt(lambda: coll.find_any(desc))
        obs['any'] = anyobj is not None if not isinstance(anyobj, tuple) else anyobj
        found = obs['find_all']
        if isinstance(found, list) and len(found) > 1:
            weights = sorted((classes[n].footprint_weight(len(inp)) for n, _, inp in found), reverse=True)
            if weights[0] == weights[1]:
                # (anyone of the best candidates)
                obs['load'] = bool(obs['load'])
        require(same(desc, ref), 'the description became {} instead of {}', desc, ref)
        out.append(obs)
    if case['callback'] is not None:
        require(same(given, codec.decmap(case['callback'])), 'the callback now gives {}', given)
    return out


def agree(ref, new, loose, what):
    """
    *loose* is either "order" (another error may be raised) or "fast" (failing classes may be rejected before or after an error is met).
    """
    def eq(a, b):
        if loose == 'fast' and (is_exc(a) or is_exc(b)):
            return not accepted(a) and not accepted(b)
        if loose == 'order' and is_exc(a):
            return is_exc(b)
        return same(a, b)

    for k in ('couldbe', 'new'):
        for n in ref[k]:
            require(eq(ref[k][n], new[k][n]), '{}: {} of {} is {} instead of {}', what, k, n, new[k][n], ref[k][n])
    trouble = any(is_exc(x) for obs in (ref, new) for x in obs['couldbe'].values())
    for k in ('find_all', 'load', 'any'):
        # (the classes may be tried in any order, hence an error may be met or not)
        if not (trouble and (loose or k == 'any')):
            require((is_exc(ref[k]) and is_exc(new[k])) or eq(ref[k], new[k]), '{}: {} is {} instead of {}', what, k, new[k], ref[k])


def accepted(x):
    return isinstance(x, tuple) and x[:1] in (('ok', ), ('obj', ))


def is_exc(x):
    return isinstance(x, tuple) and x[:1] == ('exc', )


def check(case, ctx):
    logger = logging.getLogger('footprints')
    ref = observe(case, {})
    for obs in ref:
        kinds = {x[0] for x in obs['couldbe'].values()}
        ctx.nontrivial(len(kinds) > 1 and 'ok' in kinds)
        ctx.label(*kinds)
    for v in case['variants']:
        ctx.label(*v)
        what = 'with {}'.format(v)
        if 'debug' in v:
            handler = Sink()
            saved = (logger.level, logging.root.manager.disable, logger.propagate)
            logger.addHandler(handler)
            logger.setLevel(logging.DEBUG)
            logger.propagate = False
            logging.disable(logging.NOTSET)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                new = observe(case, v)
        finally:
            if 'debug' in v:
                logger.removeHandler(handler)
                logger.setLevel(saved[0])
                logging.disable(saved[1])
                logger.propagate = saved[2]
        loose = ('fast' if {'fastmode', 'fastkeys', 'nofastkeys'} & set(v) else
                 'order' if {'attrs', 'classes', 'keys'} & set(v) else None)
        for obs in new:
            agree(ref[obs['desc']], obs, loose, '{}, description {:d}'.format(what, obs['desc']))
