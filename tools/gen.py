#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json (single source of truth for both)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

CORE = 'src/footprints/__init__.py'
COLL = 'src/footprints/collectors.py'
REPT = 'src/footprints/reporting.py'
ACC = 'src/footprints/access.py'
PRIO = 'src/footprints/priorities.py'
UTIL = 'src/footprints/util.py'
CONF = 'src/footprints/config.py'
PROX = 'src/footprints/proxies.py'
DOC = 'src/footprints/doc.py'
STD = 'src/footprints/stdtypes.py'

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, technique, note, state=(), observe=()):
    P.append(dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, technique=technique, note=note, state=list(state), observe=list(observe)))


prop('C01', 'A resolved attribute is exactly what its definition allows',
     'Whenever an object is obtained from a description (direct instantiation or loading), each of its attributes is '
     'the supplied value remapped, converted to the declared type (with the declared conversion arguments), and is '
     'a member of the authorised values and not one of the outcast values (both compared after conversion); class-'
     'valued attributes hold a subclass of the declared class. Any description for which this is not possible '
     '(missing mandatory attribute, impossible conversion, forbidden value, the string "None") is rejected, and '
     'every description for which it is possible is accepted.',
     ['inputs', 'programs'], 'every attribute definition (type, args, isclass, remap, autoremap, values, outcast, '
     'optional, default) and every raw value',
     'The tests convert a few integers and strings; the combination of type, arguments, remap chain, values and '
     'outcast with an arbitrary raw value is an unbounded input space.',
     [CORE], [('type conversion, remap, values and outcast filters', CORE + ': Footprint.resolve'),
              ('conversion of values/outcast at definition', CORE + ': Footprint.__init__'),
              ('equality-based membership', CORE + ': Footprint.in_values')],
     'property-based testing against a reference model',
     'Random search over generated attribute definitions and raw values; the reference model re-implements the '
     'documented rules on demand. Assumes that constructors of the declared types are pure.')

prop('C02', 'Where an attribute value comes from, and in which order',
     'For each attribute, the value used is the one given under its name in the description, else the one given under '
     'one of its aliases, else the one found (whatever the case of the key) in the defaults of the current setup, else, for an optional '
     'attribute, its declared default (computed anew at each resolution for defaults that provide a value on demand), '
     'or nothing at all (it then reads as None). None given for an optional attribute counts as not given, whereas a mandatory '
     'attribute explicitly given as None, or not given at all, leads to a rejection. Aliases and unknown keys never '
     'become attributes of the object.',
     ['inputs', 'configurations'], 'every combination of attribute name, aliases, setup defaults and declared default',
     'The tests try each source alone, in a fixed order; the precedence between the sources is a relation over all '
     'their combinations.',
     [CORE, CONF], [('choice of the initial value', CORE + ': Footprint._firstguess'),
                    ('case-insensitive defaults', CONF + ': FootprintSetup.defaults')],
     'property-based testing against a reference model',
     'Random search over all combinations of the sources; the expected source is known by construction.')

prop('C03', 'Substitutions between attributes are exact and independent of order',
     'After resolution, every [key], [key:member...], [key#default] and [key%format] sequence found in an attribute value has been '
     'replaced by the plain text of the final value of that attribute (or member of it), or, when there is no such attribute, of the '
     'matching extra parameter, then by the given default; extra parameters come, by decreasing precedence, from the '
     'attributes of footprint objects present in the description, the callback of the setup, the unused keys of the description and the defaults of the setup '
     '(only in extended mode). The result does not depend on the order in which attributes are declared or described, '
     'characters of the substituted text are never interpreted, and an unknown key without default is an error.',
     ['inputs', 'programs', 'configurations'], 'every acyclic graph of references between attributes and extra '
     'parameters, in every order',
     'The tests check a dozen hand-written references; the evaluation order is driven by a queue sorted on names, so '
     'correctness is a property of all orders and all reference graphs.',
     [CORE, UTIL], [('substitution loop', CORE + ': Footprint._replacement, Footprint._process_replm'),
                    ('extra parameters', CORE + ': Footprint._findextras, Footprint._addextras'),
                    ('formatting', UTIL + ': FoxyFormatter')],
     'property-based testing against a reference model and metamorphic permutation of declarations',
     'Random acyclic reference graphs, evaluated on demand by the model; each case is also resolved with permuted '
     'declarations and descriptions.')

prop('C04', 'Resolution terminates: acyclic definitions succeed, cycles are errors',
     'Resolving a description always terminates. References between attributes (or remap entries) that form no cycle '
     'are resolved whatever their number, depth and names; circular references (through attributes, through '
     'extra parameters or through remap entries of different values) end with the dedicated exception for endless '
     'replacements, never with a hang or a half-substituted value.',
     ['inputs', 'programs'], 'every graph of references: chains, trees and cycles of any size',
     'The tests have one cycle of two attributes and no deep chain; termination is a liveness property over all graphs.',
     [CORE], [('limits on the number of passes', CORE + ': Footprint._replacement'),
              ('remap fix-point', CORE + ': Footprint.resolve')],
     'property-based testing with a deterministic step budget',
     'Chains of up to 60 attributes, dense acyclic graphs, cycles of every length up to 12; a hang is decided by a '
     'budget of executed lines, not by the clock.')

prop('C05', 'The only clauses select a class exactly when they are all fulfilled',
     'A class whose footprint has "only" clauses is a candidate for a description exactly when its attributes can be resolved and every '
     'clause is fulfilled. A clause on a name is fulfilled when the final value of that attribute (or, when the class has no such attribute, '
     'the default recorded in the setup under that name whatever the case) equals one of the listed values, or matches one of the listed '
     'regular expressions from its start; after_<name> means greater than or equal, before_<name> means strictly lower. A clause whose '
     'value is missing or unset is never fulfilled and never raises an error, whatever the reporting level.',
     ['inputs', 'configurations'], 'every set of clauses (values, lists, regular expressions, after/before), every resolved value, '
     'every setup default and every report level',
     'The tests try half a dozen clauses; the filter is a predicate over all clauses and values.',
     [CORE], [('evaluation of the clauses', CORE + ': FootprintBase.authvalues, Footprint.checkonly'),
              ('missing values', CORE + ': Footprint.checkonly')],
     'property-based testing against a reference model',
     'Random clauses and values; the predicate is recomputed by the reference model.')

prop('C06', 'The class that is picked is the best of the eligible ones',
     'For a given tag and description, the list of all candidates contains exactly once each of the collected (neither abstract nor '
     'discarded) classes that accept the description, and no other. The class instantiated by load, pickup or find_best is one of those with the highest '
     'priority level, according to the current ordering of the levels (including any later re-ordering, insertion of levels or change of '
     'level for a whole package), and among these, one that was given the greatest number of its attributes by the description or the setup defaults. Nothing '
     'is instantiated exactly when no class is eligible, and the user is warned (with the list of the candidates, at the level chosen by the collector) exactly when the '
     'two best candidates have the same priority level.',
     ['inputs', 'programs', 'histories', 'configurations'], 'every set of classes, every description, every history of priority changes '
     'and discards',
     'The tests use fixed classes with at most three levels; the selection depends on the whole set of classes, on the priorities history '
     'and on the description.',
     [COLL, PRIO, CORE], [('sort of the candidates', COLL + ': Collector.find_best, find_all'),
                          ('weights', CORE + ': FootprintBase.footprint_weight'),
                          ('ordering of the levels', PRIO + ': PrioritySet')],
     'property-based testing against a reference model over histories of priority changes',
     'Random sets of 2-8 classes, random histories of re-ordering; the eligible set comes from the resolution model.')


prop('C07', 'The fasttrack index never changes what a collector answers',
     'Whatever the list of fasttrack attributes of a collector, and whatever the history of additions, removals (pop, clear), discards, '
     'priority changes and re-indexing, the candidates found for a description (and the object loaded from it) are the same as if every collected class was tried '
     'one by one without any index. Values of any kind (other types, aliases, remapped, unhashable, not convertible) given in the '
     'description are handled without error.',
     ['inputs', 'programs', 'histories', 'configurations'], 'every set of classes, every fasttrack list, every history of the collector, '
     'every description',
     'The tests index two attributes of fixed classes; the index is a cache whose consistency depends on the history of the collector and '
     'on every conversion rule.',
     [COLL, CORE, UTIL], [('index of the classes', COLL + ': Collector._fasttrack_index, get_fasttrack_subset'),
                          ('maintenance of the index', COLL + ': Collector.add, pop, clear, discard_*'),
                          ('conversion of the values', CORE + ': Footprint / FootprintBase')],
     'stateful property-based testing, differential against class by class resolution',
     'Random histories of a collector; the answer with an index is compared to the classes tried one at a time.')

prop('C08', 'Footprints merge and inherit as the union of their pieces',
     'The footprint of a class is the merge of those of its base classes (from the last base to the first one), then of its own pieces in the order they '
     'are given: attributes are merged property by property (the last one given prevails, except remap entries and conversion arguments that are merged key by key), '
     'and the only clauses, priority level and info likewise. The result does not depend on the form of the pieces '
     '(dictionary, footprint object, decorative footprint, list), decorators apply to the very class that uses them, in order, and neither '
     'the parents nor the pieces are modified. What the introspection methods tell (attributes, mandatory, optional, values, '
     'access, level, info) is the definition actually in force, and the short names of methods, when requested, are plain equivalents of the long ones. The user is warned of exactly the attributes whose type is not always a refinement of the one '
     'given before.',
     ['inputs', 'programs'], 'every hierarchy of classes and every list of footprint pieces in every form',
     'The tests inherit from one or two fixed classes; merging is an algebra over all definitions and hierarchies.',
     [CORE, UTIL], [('merge of the pieces', CORE + ': Footprint.__init__, FootprintBaseMeta.__new__'),
                    ('dictionary merge', UTIL + ': dictmerge, list2dict'),
                    ('decorative footprints', CORE + ': DecorativeFootprint')],
     'property-based testing against a reference model',
     'Random hierarchies (up to 5 classes, several bases) and pieces; the merge is recomputed by the reference model.')

prop('C09', 'Exactly the concrete, valid classes are collected',
     'A concrete class is collected under each of its (lower case, plural form) tags, and under no other; an abstract one is collected nowhere as a candidate '
     'and can not be instantiated. A definition that is invalid (attribute named after its collector, explicit footprint without mandatory attribute, unknown '
     'access mode, values that can not be converted, failing decorator) is refused with an error, and leaves no class registered anywhere.',
     ['inputs', 'programs'], 'every class definition (tags, abstract, explicit, attributes, inheritance), every kind of invalidity',
     'The tests define a few classes of each kind; registration is a global side effect of every class definition.',
     [CORE, COLL], [('registration', CORE + ': FootprintBaseMeta.__new__'), ('collectors', COLL + ': Collector.add, tag_clean')],
     'property-based testing against a reference model',
     'Random definitions over several tags, with one or several injected faults; contents of every collector compared to the model.')

prop('C10', 'Attributes obey their access mode along the life of an object',
     'A read-only attribute (rxx) always keeps its resolved value: it can neither be assigned nor deleted; a rwx attribute can be assigned (the value is converted to '
     'the declared type, and refused when it is not an authorised one) but not deleted; '
     'a rwd one can be both, and once deleted it can not be read until it is assigned again. Each operation only affects the given object and the given '
     'attribute, a refused operation changes nothing, and a subclass may change the access mode of an inherited attribute for itself only. Weak variants '
     '(rxx-weak, etc.) give access to the very same object without keeping it alive.',
     ['histories', 'programs'], 'every history of reads, assignments and deletions on several instances with any access mode',
     'The tests perform a few operations on one instance; isolation and refusal are properties over histories.',
     [ACC, CORE], [('descriptors', ACC + ': FootprintAttrDescriptor*'), ('installation', CORE + ': FootprintBaseMeta')],
     'stateful property-based testing against a dictionary model',
     'Random histories on 3 instances of a class and of a subclass.')

prop('C11', 'Copies, pickles, clones and exports are faithful and independent',
     'An object restored from pickle, copied (shallow or deep), or cloned has the same class and the same attribute values (same access rights, unset ones still unset) as the '
     'original one; a clone also takes the given new values, which are resolved like any description, and inherits its other values from the original. Changing the '
     'attributes of either object afterwards does not affect the other one. The dictionary, shallow and export views contain exactly the attributes '
     'with their current values (with dedicated export methods applied to exported values).',
     ['inputs', 'histories'], 'every class definition, every attribute value, every protocol, every later change',
     'The tests copy and pickle one object whose attributes are plain strings.',
     [CORE, ACC], [('state of an object', CORE + ': FootprintBase.__getstate__, __setstate__, __copy__, __deepcopy__'),
                   ('clones', CORE + ': FootprintBase.footprint_clone, footprint_almost_clone'),
                   ('views', CORE + ': FootprintBase.footprint_as_dict, footprint_as_shallow_dict, footprint_export')],
     'property-based testing: round-trips over histories',
     'Random definitions and values; all the pickle protocols; random changes after each copy.')

prop('C12', 'Living objects are tracked, found and reused accurately',
     'A collector knows exactly the living objects of its classes: those created by any means and still referenced, none of the dead ones. grep (of a collector, or over all of '
     'them) returns exactly the living objects whose attributes fulfil all the conditions, and default() reuses a living object that suits the '
     'description (when there is one), and otherwise loads a new one exactly like load().',
     ['histories', 'inputs'], 'every history of creation, copy, change and destruction of objects, and every set of conditions',
     'The tests count the objects of one collector after a few creations; tracking is an invariant over histories.',
     [COLL, CORE, PROX], [('instances', COLL + ': Collector.newobsitem, instances, grep, default'), ('observer board', CORE + ': FootprintBase')],
     'stateful property-based testing against a list model',
     'Random histories of object life cycles over several collectors.')

prop('C13', 'pickup accounts for every key of a description',
     'pickup returns a description where the object found is stored under the name of the collector, and the keys it has used are removed; all the other '
     'keys are still there, with their values, except internal ones. When an object is already there, it is kept and nothing is looked for; when nothing is found, '
     'the entry is None and no other key is lost. load returns the very object that pickup would have built, and never alters the '
     'values it is given.',
     ['inputs', 'programs'], 'every set of classes and every description',
     'The tests pick up one or two objects with a couple of keys.',
     [COLL, CORE], [('pickup', COLL + ': Collector.pickup, pickup_and_cache'), ('used keys', CORE + ': FootprintBase.footprint_couldbe')],
     'property-based testing against a reference model',
     'Random classes and descriptions with used, unused, aliased, internal and colliding keys.')


prop('C14', 'Selection reports state the actual reasons of every rejection',
     'When a selection is reported, every class that was examined appears once under its full name: a class that is selected with no reason at all, and a class that is rejected with '
     'at least one reason, all of them true (the attribute, the kind of failure and the offending value or clause are the actual ones), and complete when no fast key is involved. '
     'Depending on the report level, nothing is logged, only the requests that found nothing are, or all of them; whynot (case-insensitive) and the printed summaries, in any style, '
     'tell the same reasons. Finding nothing leads to a warning unless the collector was told otherwise.',
     ['inputs', 'programs', 'configurations'], 'every set of classes, every description and every report level and style',
     'The tests print one report for a single class and description.',
     [REPT, CORE, COLL], [('reasons', CORE + ': Footprint.resolve, checkonly (report.add)'), ('on-error level', COLL + ': Collector.find_all'),
                          ('whynot', REPT + ': FootprintLog.whynot')],
     'property-based testing against a reference model',
     'Random classes with several failing attributes or clauses; the reasons are recomputed by the reference model.')

prop('C15', 'Settings about reports, docs, speed or order never change a result',
     'The report level, style and length, the documentation level, short method names, fast mode and fast keys, the logging level, the order in which classes, attributes and description '
     'keys are given, a shared resolution cache and repetition change neither the set of classes that match a description, nor the attributes, nor the class of '
     'the object that is loaded (up to classes that are equally good), nor whether a request is refused. The description given by the caller is not altered either.',
     ['configurations', 'inputs', 'histories'], 'every couple of settings or orders, every set of classes and description',
     'The tests run under a single configuration.',
     [CORE, COLL, CONF, REPT], [('fast keys and fast mode', CORE + ': Footprint.resolve, _resolve_keys'), ('requeue when reporting on error', COLL + ': Collector.find_all, find_any'),
                                ('settings', CONF + ': FootprintSetup')],
     'metamorphic property-based testing',
     'Random worlds observed twice, under the standard and altered configurations.')

prop('C16', 'The report log keeps the last entries, and its views agree',
     'A report log holds the entries in the order in which they were added, never more than its maximum length (the last ones), and refuses an entry about a class or an attribute that '
     'comes before its collector or class. All the views of the last entry (dictionary with or without stamps, XML, flat report in any order, factorized report in any order, '
     'light dump, whynot) show the same classes, attributes, reasons and arguments, whatever happened to the classes in the meantime; a null report accepts '
     'anything and says nothing.',
     ['histories'], 'every history of entries, clears, reductions and readings',
     'The tests read the views of a single, fixed log; bounds and consistency are invariants over histories.',
     [REPT], [('nodes', REPT + ': FootprintLog, FootprintLogCollector, FootprintLogClass, FootprintLogAttribute'), ('views', REPT + ': FlatReport, FactorizedReport')],
     'stateful property-based testing against a list model',
     'Random histories of log operations; each view is parsed back and compared with the model.')

prop('C17', 'Sets of levels behave as ordered lists of names',
     'A set of priority (or visibility) levels is a list of distinct names, handled regardless of the case: extensions, insertions before or after another level, moves, removals, freezes, restorations and '
     'resets have the effect of the corresponding list operation, and an impossible one is refused without any effect. Levels, even those obtained earlier, compare (to each '
     'other and to names) according to the current order of their set, and a copy of a set is independent from it.',
     ['histories'], 'every history of operations on a set of levels',
     'The tests perform a fixed sequence of moves; consistency between order, ranks and levels is an invariant over histories.',
     [PRIO, DOC], [('operations', PRIO + ': PrioritySet'), ('comparisons', PRIO + ': PriorityLevel'), ('module functions', PRIO + ': set_before, set_after; same in ' + DOC)],
     'stateful property-based testing against a list model',
     'Random histories over eight names, on new and predefined sets.')

prop('C18', 'Expansion is exactly the cartesian product of what can be expanded',
     'Expanding a description gives one description for each combination of the values of its lists, tuples, sets, ranges (bounds included) and comma separated strings, '
     'however they are nested, in the order of the keys and of the values, numbered from 1; dictionaries keyed on another entry are replaced by what suits the '
     'final value of that entry (descriptions that need more than 24 successive expansions may be refused). The dedicated FP types and anything else are left alone, the order of the keys does not matter to the set of results, '
     'the initial description is unaltered, and the results are independent from each other.',
     ['inputs'], 'every description (any nesting, any order of keys)',
     'The tests expand a handful of descriptions with one or two keys.',
     [UTIL, STD], [('expansion loop', UTIL + ': expand'), ('copies', UTIL + ': inplace')],
     'property-based testing against a recursive reference model',
     'Random descriptions with at most 7 keys, nesting up to 3 and about 600 combinations.')

prop('C19', 'Globs select exactly the files that match, and give the right parts',
     'Expanding a description that contains named glob patterns gives one description for each existing path (sorted) that fully matches the pattern, and nothing else; any other '
     'string that quotes a name gets the part of the path that matched it, and other values (including protected strings) keep their value and type. Patterns with duplicated names, unbalanced brackets or '
     'invalid expressions are refused with a ValueError.',
     ['inputs', 'configurations'], 'every pattern and every content of the directory',
     'The tests use one directory with regular names and four patterns.',
     [UTIL], [('pattern analysis', UTIL + ': _parse_globs'), ('replacement', UTIL + ': inplace'), ('selection', UTIL + ': expand')],
     'property-based testing: differential against an independent matcher, in scratch directories',
     'Random directories (up to 15 names, 2 levels) and patterns (up to 3 names), relative and absolute.')

prop('C20', 'The FP types behave as the builtin ones, and can be hashed and copied',
     'FPDict, FPList, FPSet, FPTuple and FPStr objects behave as the builtin object with the same content, whatever operations are performed; in addition, they are '
     'hashable consistently with equality, they are never expanded, and their copies (copy, deepcopy, pickle) have the same type and content and are independent. FPRegex objects give '
     'the same matches as the compiled expression, even after a copy. Exports and listings give the whole content without giving access to the object.',
     ['inputs', 'histories'], 'every content and history of modifications, every expression, flags and text',
     'The tests build one object of each type.',
     [STD, UTIL], [('containers', STD + ': FPDict, FPList, FPSet, FPTuple, FPStr'), ('expressions', STD + ': FPRegex'), ('helpers', UTIL + ': list2dict, inplace')],
     'stateful differential property-based testing against the builtin types',
     'Random contents, up to 10 operations, all the pickle protocols.')

prop('C21', 'All the entry points to the collectors give the same answers',
     'Loading, picking up, reusing or looking for objects gives the same result through the functions of the package, the proxy (singular or plural names), the collector itself, or any '
     'object populated as a static proxy (before or after the collector was created, and without replacing what it had unless requested). A collector takes, when it is created, the settings in force at that time. Settings have their documented values in a fresh process (FOOTPRINT_DOCSTRINGS and FOOTPRINT_SHORTNAMES set two of them). The listings of collectors, classes and living objects '
     'agree with each other, unknown names are reported as such, and a copy of the settings has the same content but is independent.',
     ['histories', 'configurations'], 'every history of class definitions, requests and changes of settings',
     'The tests use one or two entry points with a single collector.',
     [CORE, PROX, CONF, COLL], [('module functions', CORE + ': load, pickup, default, grep, collected_classes'), ('proxy', PROX + ': FootprintProxy'),
                                ('static proxies and settings', CONF + ': FootprintSetup, add2proxies')],
     'stateful differential property-based testing',
     'Random histories with up to 6 collectors; every entry point is called for each request.')

prop('C22', 'Filters, discards and level changes act on exactly the intended classes',
     'Filtering a collector by package, flag or level gives exactly the classes that fulfil the criterion; discarding removes exactly these ones from that collector (and no other), and tells each of them when asked to. '
     'Changing the level by package changes exactly the classes of the package, neither their children nor their parents elsewhere. The maps of attributes, lists of values and printed '
     'tables describe exactly the classes currently there, and later selections only consider these classes with their current levels.',
     ['histories', 'programs'], 'every set of classes and every history of administration commands',
     'The tests discard a few classes of a static collector.',
     [COLL, CORE, PRIO], [('filters and discards', COLL + ': Collector.filter_*, discard_*, reset_package_level'), ('attribute maps', COLL + ': build_attrmap, show_attrmap, get_values'),
                          ('module functions', CORE + ': collected_priorities, reset_package_priority')],
     'stateful property-based testing against a set model',
     'Random histories over 3-9 classes in two collectors.')

prop('C23', 'The generated documentation is complete, ordered and faithful',
     'With documentation on, the documentation of a class is its own text followed by the description of its footprint: every attribute (inherited ones included) exactly once, ordered by visibility, '
     'decreasing order number (bounded to 100) and name, with its type, access, information, default, values, remap, and then the only clauses, decorators and aliases, '
     'each section being there if and only if there is something to tell. With documentation off, the text is left alone; making the documentation never changes the footprint.',
     ['inputs', 'configurations'], 'every footprint definition, every order of the visibilities and documentation level',
     'One test compares the text generated for a two-attribute footprint.',
     [DOC, CORE], [('formats', DOC + ': _formating_basic, _formating_sphinx_v1'), ('docstrings', CORE + ': FootprintBaseMeta.__new__')],
     'property-based testing: the generated text is parsed back and compared with the definition',
     'Random definitions with up to 8 attributes.')


# ---------------------------------------------------------------------------------------------

def main():
    done = sorted(x[:-3].upper() for x in os.listdir(os.path.join(HERE, 'fpv', 'props')) if x.startswith('c'))
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            anchors = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']], hook_needed=None)
            if p['state']:
                anchors['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in p['state']]
            if p['observe']:
                anchors['observe_at'] = p['observe']
            fh.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                     quantifier=dict(over=p['over'], text=p['text']),
                                     why_tests_cant=p['why'], anchors=anchors)) + '\n')
    py = '/opt/venv/bin/python run.py '
    checks, na = [], []
    for p in P:
        if p['id'] in done:
            checks.append(dict(property=p['id'], quick_cmd=py + p['id'] + ' --tier quick',
                               thorough_cmd=py + p['id'] + ' --tier thorough',
                               evidence_file='evidence/{:s}.json'.format(p['id']),
                               technique=p['technique'], level='exploration', level_note=p['note']))
        else:
            na.append(dict(property=p['id'], reason='check not built yet'))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
        json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python run.py SELFTEST', checks=checks, not_applicable=na,
                       notes='No hook is needed in /repo: every check drives the public API in-process, importing '
                             '/repo/src directly (pure Python, nothing to build).'), fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
