"""C17: sets of ordered levels, compared to a plain list over histories."""

import copy

from hypothesis import strategies as st

from .. import sut
from ..core import require

ID = 'C17'
RULE = ('a set of levels (a new one, the footprints priorities or the documentation visibilities) and a history of 1-16 extensions, insertions (names or levels, any case, '
        'existing or not), moves, removals, freezes, restorations, resets and deep copies through the set, the levels or the module functions; after each step, order, '
        'ranks, neighbours, membership and all the comparisons (including through levels obtained earlier) are compared to a list. Non-trivial: at least three effective changes.')
BUDGET = dict(quick=8000, thorough=150000)

TAGS = ['none', 'DEFAULT', 'toolbox', 'debug', 'Site', 'lab', 'Expert', 'x1']
ELSEWHERE = sut.priorities.PrioritySet(['none', 'other', 'debug'])
FREEZES = ['one', 'Two', 'default', 'three']


@st.composite
def _case(draw):
    ops = []
    tag = st.sampled_from(TAGS)
    for _ in range(draw(st.integers(1, 16))):
        w = draw(st.integers(0, 19))
        if w < 2:
            ops.append(['extend', draw(st.lists(tag, min_size=0, max_size=3))])
        elif w < 6:
            ops.append(['insert', draw(tag), draw(st.sampled_from(['after', 'before', 'both', 'no'])), draw(tag), draw(st.booleans()), draw(tag)])
        elif w < 9:
            ops.append(['rerank', draw(tag), draw(st.integers(-6, 6))])
        elif w < 12:
            ops.append([draw(st.sampled_from(['up', 'down', 'top', 'bottom'])), draw(tag)])
        elif w == 12:
            ops.append(['remove', draw(tag), draw(st.booleans())])
        elif w == 13:
            ops.append([draw(st.sampled_from(['delete', 'addafter', 'addbefore'])), draw(tag), draw(tag)])
        elif w == 14:
            ops.append(['freeze', draw(st.sampled_from(FREEZES))])
        elif w == 15:
            ops.append(['restore', draw(st.sampled_from(FREEZES))])
        elif w == 16:
            ops.append(['reset'])
        elif w == 17:
            ops.append(['copy', draw(tag), draw(st.integers(-3, 3)), draw(st.booleans())])
        else:
            ops.append([draw(st.sampled_from(['set_before', 'set_after'])), draw(tag), draw(st.lists(tag, max_size=3, unique_by=str.upper))])
    return dict(kind=draw(st.sampled_from(['new', 'new', 'top', 'visibility'])),
                levels=draw(st.lists(tag, max_size=6)), ops=ops)


def strategy(tier):
    return _case()


class Model:
    def __init__(self, levels):
        self.levels = []
        self.extend(*levels)
        self.frozen = {'default': list(self.levels)}

    def extend(self, *tags):
        for t in tags:
            t = t.upper()
            if t in self.levels:
                self.levels.remove(t)
            self.levels.append(t)

    def insert(self, tag, where, anchor):
        tag, anchor = tag.upper(), anchor.upper()
        if where == 'no':
            return self.extend(tag)
        if tag == anchor or anchor not in self.levels:
            raise ValueError
        if tag in self.levels:
            self.levels.remove(tag)
        self.levels.insert(self.levels.index(anchor) + (where != 'before'), tag)

    def rerank(self, tag, shift):
        pos = self.levels.index(tag.upper())
        self.levels.pop(pos)
        self.levels.insert(max(0, pos + shift), tag.upper())

    def remove(self, tag):
        self.levels.remove(tag.upper())


def attempt(fn, what):
    try:
        return True, fn()
    except (ValueError, KeyError):
        return False, None


def check(case, ctx):
    P = sut.priorities
    if case['kind'] == 'new':
        pset = P.PrioritySet(list(case['levels']))
        model = Model(case['levels'])
        module = None
    elif case['kind'] == 'top':
        pset, module = P.top, P
        model = Model(['none', 'default', 'toolbox', 'debug'])
    else:
        pset, module = sut.doc.visibility, sut.doc
        model = Model(['default', 'advanced', 'guru'])
    if module is not None:
        # these sets outlive the cases: start from known freezings
        for tag in ('one', 'two', 'three'):
            pset.freeze(tag)
            model.frozen[tag] = list(model.levels)
    handles = {}
    changes = 0
    compare(pset, model, handles, 'initially')
    for odd in (None, 'none', ['none'], {}):
        try:
            P.PriorityLevel('none', odd)
        except TypeError:
            pass
        else:
            require(False, 'a level has been made in {!r}', odd)
    require(pset.level('nosuch') is None and pset.level(5) is None and pset.level(None) is None and pset.level('') is None, 'unknown levels')
    for step, op in enumerate(case['ops']):
        what = 'step {:d} {}'.format(step, op)
        before = list(model.levels)
        done, res = None, None
        if op[0] == 'extend':
            pset.extend(*op[1])
            model.extend(*op[1])
        elif op[0] == 'insert':
            _, tag, where, anchor, aslevel, other = op
            ref = anchor
            if aslevel and anchor.upper() in model.levels:
                ref = pset.level(anchor)
            kw = dict(both=dict(after=ref, before=other), no={}).get(where) if where in ('both', 'no') else {where: ref}
            done, res = attempt(lambda: pset.insert(tag=tag, **kw), what)
            expect(done, lambda: model.insert(tag, where, anchor), what)
            if done:
                require(res.tag == tag.upper() and res is pset.level(tag), '{}: returned {!r}', what, res)
        elif op[0] == 'rerank':
            done, res = attempt(lambda: pset.rerank(op[1], op[2]), what)
            expect(done, lambda: model.rerank(op[1], op[2]), what)
            require(not done or res is pset.level(op[1]), '{}: returned {!r}', what, res)
        elif op[0] in ('up', 'down', 'top', 'bottom', 'delete', 'addafter', 'addbefore'):
            lev = handles.get(op[1].upper()) or pset.level(op[1])
            if lev is None:
                require(op[1].upper() not in model.levels, '{}: no such level', what)
                continue
            if op[0] in ('addafter', 'addbefore'):
                done, res = attempt(lambda: getattr(lev, op[0])(op[2]), what)
                expect(done, lambda: model.insert(op[2], op[0][3:], op[1]), what)
            else:
                done, res = attempt(getattr(lev, op[0]), what)
                expect(done, lambda: dict(up=lambda: model.rerank(op[1], 1), down=lambda: model.rerank(op[1], -1),
                                          top=lambda: model.rerank(op[1], 99), bottom=lambda: model.rerank(op[1], -99),
                                          delete=lambda: model.remove(op[1]))[op[0]](), what)
        elif op[0] == 'remove':
            ref = pset.level(op[1]) if op[2] and op[1].upper() in model.levels else op[1]
            done, res = attempt(lambda: pset.remove(ref), what)
            expect(done, lambda: model.remove(op[1]), what)
            if done:
                require(not hasattr(pset, op[1].upper()), '{}: the level is still there', what)
        elif op[0] == 'freeze':
            done, res = attempt(lambda: pset.freeze(op[1]), what)
            require(done == (op[1] != 'default'), '{}: accepted is {}', what, done)
            if done:
                model.frozen[op[1].lower()] = list(model.levels)
        elif op[0] == 'restore':
            done, res = attempt(lambda: pset.restore(op[1]), what)
            require(done == (op[1].lower() in model.frozen), '{}: accepted is {}', what, done)
            if done:
                model.levels = list(model.frozen[op[1].lower()])
        elif op[0] == 'reset':
            pset.reset()
            model.levels = list(model.frozen['default'])
        elif op[0] == 'copy':
            new = copy.deepcopy(pset)
            twin = Model([])
            twin.levels, twin.frozen = list(model.levels), dict(model.frozen)
            compare(new, twin, {}, what + ' (copy)')
            if op[1].upper() in model.levels:
                lev = pset.level(op[1])
                require(copy.deepcopy(lev).inset is pset and copy.deepcopy([lev])[0] == lev, '{}: copy of a level', what)
                (new if op[3] else pset).rerank(op[1], op[2])
                (twin if op[3] else model).rerank(op[1], op[2])
                new.extend('only_copy')
                twin.extend('only_copy')
            compare(new, twin, {}, what + ' (copy, later)')
        elif op[0] in ('set_before', 'set_after') and module is not None:
            if any(x.upper() == op[1].upper() for x in op[2]):
                continue
            if op[1].upper() not in model.levels:
                expect(not op[2], lambda: getattr(module, op[0])(op[1], *op[2]), what)
                compare(pset, model, handles, what)
                continue
            getattr(module, op[0])(op[1], *op[2])
            names = [x.upper() for x in op[2]]
            model.levels = [x for x in model.levels if x not in names]
            pos = model.levels.index(op[1].upper()) + (op[0] == 'set_after')
            model.levels[pos:pos] = names
        if op[0] in ('up', 'down', 'top', 'bottom', 'addafter', 'addbefore') and done:
            name = op[2 if op[0].startswith('add') else 1]
            require(res is pset.level(name), '{}: returned {!r}', what, res)
        if done is False:
            ctx.label('refused')
        compare(pset, model, handles, what)
        if model.levels != before:
            changes += 1
            ctx.label(op[0])
    ctx.nontrivial(changes >= 3)


def expect(done, fn, what):
    try:
        fn()
        ok = True
    except ValueError:
        ok = False
    require(done == ok, '{}: accepted is {}', what, done)


def compare(pset, model, handles, what):
    levels = model.levels
    require(list(pset.levels) == levels and list(pset()) == levels and list(pset) == levels and len(pset) == len(levels),
            '{}: levels are {} instead of {}', what, pset.levels, levels)
    require(list(pset.freezed()) == sorted(model.frozen), '{}: freezings are {} instead of {}', what, pset.freezed(), sorted(model.frozen))
    for t in set(TAGS) | {x.lower() for x in levels}:
        inside = t.upper() in levels
        require((t in pset) == inside and (t.upper() in pset) == inside, '{}: {} in the set is {}', what, t, t in pset)
        lev = pset.level(t)
        require((lev is not None) == inside, '{}: level {} is {}', what, t, lev)
        if not inside:
            try:
                n = pset.levelindex(t)
            except ValueError:
                pass
            else:
                require(False, '{}: index of {} is {}', what, t, n)
    objs = []
    for i, t in enumerate(levels):
        lev = pset.level(t)
        require(getattr(pset, t) is lev and pset.level(t.lower()) is lev and pset.level(lev) is lev and pset.levelbyindex(i) is lev,
                '{}: level {} is {!r}', what, t, lev)
        require(lev.tag == t and lev.rank == i and lev() == i and lev in pset and lev.inset is pset and pset.levelindex(t.lower()) == i,
                '{}: rank of {} is {} instead of {:d}', what, t, lev.rank, i)
        require(lev.as_dump() == '{:s} (rank={:d})'.format(t, i), '{}: dump of {} is {}', what, t, lev.as_dump())
        nxt, prv = lev.nextlevel(), lev.prevlevel()
        require((nxt and nxt.tag) == (levels[i + 1] if i + 1 < len(levels) else None), '{}: after {} is {}', what, t, nxt and nxt.tag)
        require((prv and prv.tag) == (levels[i - 1] if i else None), '{}: before {} is {}', what, t, prv and prv.tag)
        objs.append(lev)
        handles.setdefault(t, lev)
    require(pset.levelbyindex(-1) is None and pset.levelbyindex(len(levels)) is None, '{}: levels out of range', what)
    require([x.tag for x in sorted(reversed(objs))] == levels, '{}: sorted levels are {}', what, [x.tag for x in sorted(reversed(objs))])
    # levels obtained earlier follow the set
    for t, lev in handles.items():
        if t not in levels:
            try:
                n = lev.rank
            except ValueError:
                pass
            else:
                require(False, '{}: rank of the removed {} is {}', what, t, n)
            continue
        i = levels.index(t)
        require(lev.rank == i, '{}: rank of {} is {} instead of {:d}', what, t, lev.rank, i)
        require(lev != 'unknown' and not lev == 'unknown', '{}: equal to unknown', what)
        for j, o in enumerate(objs):
            for other in (o, o.tag, o.tag.lower()):
                got = (lev == other, lev != other, lev < other, lev <= other, lev > other, lev >= other)
                exp = (i == j, i != j, i < j, i <= j, i > j, i >= j)
                require(got == exp, '{}: {} compared to {} is {} instead of {}', what, t, other, got, exp)
        # those of any other set are comparable as well
        for tag in ELSEWHERE:
            other = ELSEWHERE.level(tag)
            got = (lev == other, lev != other, lev < other, lev <= other, lev > other, lev >= other)
            back = (other == lev, other != lev, other > lev, other >= lev, other < lev, other <= lev)
            require(got == back and sum((got[0], got[2], got[4])) == 1 and got[1] != got[0] and got[3] == (got[2] or got[0]) and got[5] == (got[4] or got[0]),
                    '{}: {} compared to {} of another set is {}', what, t, tag, got)
