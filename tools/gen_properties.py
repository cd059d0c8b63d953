#!/usr/bin/env python3
"""Source of properties.jsonl (python3 tools/gen_properties.py > properties.jsonl)."""
import json

I = 'src/footprints/__init__.py'
COL = 'src/footprints/collectors.py'
ACC = 'src/footprints/access.py'
PRI = 'src/footprints/priorities.py'
REP = 'src/footprints/reporting.py'
UTI = 'src/footprints/util.py'
STD = 'src/footprints/stdtypes.py'
CFG = 'src/footprints/config.py'
PRX = 'src/footprints/proxies.py'
DOC = 'src/footprints/doc.py'


def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = list(observe)
    a['hook_needed'] = None
    print(json.dumps(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                          why_tests_cant=why, anchors=a), ensure_ascii=True))


P('C01', 'An attribute accepts exactly the conforming values',
  "A class accepts a description if and only if every attribute gets a value that, after its remap chain and its "
  "conversion to the declared type (with the declared constructor arguments; a subclass test for class-valued "
  "attributes), belongs to the allowed values (if any) and not to the outcast ones. The resulting object holds exactly "
  "that converted value with that type; anything else is rejected (no object from a load, a fatal error from a direct "
  "instantiation), never an unrelated crash or an endless loop.",
  ['inputs', 'configurations'],
  "For every attribute specification (type, args, values, outcast, remap, optional, class-valued) and every input value "
  "(native, textual, unhashable, None, 'None', wrong type).",
  "The tests resolve a few hand-written footprints with a few values; the combinations of remap, type, values and "
  "outcast and unusual inputs (unhashable values, cyclic remaps, duplicates after conversion) form a product they do "
  "not sample.",
  [I], [('Footprint.resolve', I), ('Footprint.__init__ (reclassing of values and outcast)', I),
        ('Footprint.in_values', I)],
  observe=['footprints.load', 'class instantiation'])

P('C02', 'Attribute values come from the right source',
  "The value of an attribute comes from the first available source among: its own name in the description, one of its "
  "aliases, the setup defaults (whatever the case of the key) and, for an optional attribute only, its footprint default "
  "(evaluated at lookup time when it is a computed default), else unset (seen as None). None given for an optional "
  "attribute counts as not given, and a mandatory attribute without any value rejects the class. The attributes counted "
  "as given are exactly those taken from the description or from the setup defaults.",
  ['inputs', 'histories', 'configurations'],
  "For every combination of description, alias, setup defaults and footprint default of each attribute, and after any "
  "history of changes of the setup defaults.",
  "Tests check isolated precedences; the full product (None, case, aliases, live changes of the defaults) is not covered.",
  [I, COL, CFG], [('Footprint._firstguess', I), ('ResolveCache', COL), ('FootprintSetup.defaults', CFG)],
  observe=['Collector.find_all', 'footprints.load', 'class instantiation'])

P('C03', 'Substitutions are exact, order independent and always end',
  "Any [name] in a value is replaced, verbatim, by the final value of that attribute, or else by the extra value of "
  "that name, through the given chain of properties or methods and with the given format; [name#text] falls back to the "
  "text; extra values come, by decreasing precedence, from the objects of the description and the callback, the rest of "
  "the description, and the setup defaults (extended mode). The result does not depend on the names of the attributes, "
  "their definition order or optional status, nor on their number. A reference to nothing raises an unreachable "
  "attribute error and a cycle a maximum iterations error: the resolution always ends.",
  ['inputs', 'configurations'],
  "For every set of attributes with templates referring to each other (chains, stars, rings, self references) in any "
  "processing order, every source of extra values and every form of reference.",
  "Tests exercise single substitutions in one processing order; the order in which attributes are resolved depends on "
  "names and optional status, so order independence and termination need every order.",
  [I, UTI], [('Footprint._replacement', I), ('Footprint._process_replm', I), ('Footprint._findextras / _addextras', I),
             ('FoxyFormatter', UTI)],
  observe=['Collector.load', 'class instantiation'])

P('C04', 'The only clauses restrict exactly as declared',
  "A class with only clauses is a candidate if and only if, its attributes being resolved, every clause is satisfied: "
  "the actual value of the attribute (or else of the parameter of that name in the setup defaults, whatever its case) "
  "equals one of the allowed values (a string is one value), matches one of the regular expressions, is greater or "
  "equal to (after_) or strictly lower than (before_) one of the bounds. A parameter without value does not satisfy a "
  "clause; it rejects the class without any error, in every reporting mode.",
  ['inputs', 'configurations'],
  "For every combination of clauses, descriptions, setup defaults and reporting modes.",
  "Tests only call the internal check with a report at hand and few clauses.",
  [I], [('Footprint.checkonly', I), ('FootprintBase.footprint_couldbe', I)],
  observe=['Collector.find_all', 'Collector.find_any', 'Collector.load'])

P('C05', 'The candidates are exactly the matching concrete classes',
  "The candidates found for a description are exactly the non-abstract classes of the collector that accept it, each "
  "once, each with its own resolved values. Whether a class is a candidate depends neither on the other classes, the "
  "order of definition or iteration, the reporting mode, the fast mode, nor the fast keys; the description is left "
  "untouched. A lookup for any or for the best one succeeds if and only if there is a candidate, and gives one of them.",
  ['inputs', 'configurations', 'programs'],
  "For every set of classes, iteration order, reporting mode, fast mode, fast keys, setup defaults and description.",
  "Tests look at small fixed sets of classes in the default mode and in whatever order the set gives.",
  [COL, I], [('Collector.find_all / find_any', COL), ('FootprintBase.footprint_couldbe', I), ('Footprint.resolve', I)],
  observe=['Collector.find_all', 'Collector.find_any', 'Collector.load'])

P('C06', 'The selected class has the highest priority, then the most inputs',
  "Among the candidates, the selected class has the highest priority level and, among equals, the largest number of "
  "attributes given by the description or the setup defaults (footprint defaults do not count), whatever the definition "
  "or iteration order. All the ways to load agree. A warning is issued if and only if the two best candidates have the "
  "same priority level.",
  ['inputs', 'configurations', 'programs'],
  "For every set of classes (priority x attributes), iteration order and description.",
  "Iteration order over the set of classes is arbitrary: a test observes only one of them.",
  [COL, I], [('Collector.find_best', COL), ('FootprintBase.footprint_weight', I)],
  observe=['Collector.find_best', 'footprints.load', 'footprints.pickup', 'proxy'])

P('C07', 'Fasttrack never changes the outcome of a lookup',
  "Whatever the attributes set as fasttrack on a collector, whenever they are set, and whatever classes are defined, "
  "added, discarded or cleared before or after, the candidates for any description are the same as without fasttrack.",
  ['histories', 'inputs', 'programs'],
  "For every history of class definitions, additions, removals and changes of fasttrack, and every description (values "
  "to be converted, remapped, substituted, unhashable, given by alias or by default).",
  "The index is maintained incrementally: tests follow one history with plain values.",
  [COL], [('Collector.fasttrack', COL), ('Collector._upd_fasttrack_index / _fasttrack_subsetting', COL)],
  state=[('fasttrack index', 'classes by value of the fasttrack attributes', COL)],
  observe=['Collector.find_all'])

P('C08', 'Pickup consumes exactly the keys of the selected class',
  "After a pickup, the description holds the selected object (or None) under the tag of the collector, without the "
  "keys that are attributes or aliases of the class of this object and without any key starting with an underscore; "
  "everything else is left as it was, and nothing else is consumed when no class matches. An object already given "
  "under the tag is kept, without any lookup. Load returns that object and leaves the arguments of the caller untouched.",
  ['inputs', 'configurations', 'histories'],
  "For every description (attributes, aliases, extra, hidden keys, already given object), every class set, and chained "
  "pickups of several collectors on the same description.",
  "Tests check one or two descriptions.",
  [COL, I], [('Collector.pickup', COL), ('FootprintBase.footprint_cleanup', I), ('Footprint.track', I)],
  observe=['footprints.pickup', 'Collector.pickup', 'Collector.load'])

P('C09', 'Live objects are tracked exactly, reused only when compatible',
  "Every collector of a class knows exactly its live objects, however they were created (load, instantiation, copy, "
  "deep copy, clone, unpickling), and forgets them when they die. Default returns a live, reusable, compatible object "
  "if there is one and else loads a new one; grep returns exactly the live objects having all the requested values. "
  "The hook footprint_riseup is called exactly once for each new object, and the observers of the class are told of every new "
  "object, and of the explicit removal of that very object.",
  ['histories'],
  "For every history of creations, copies, attribute changes, deletions, defaults and greps over several collectors.",
  "The set of live objects depends on the whole history; tests have one short history.",
  [COL, I], [('Collector.newobsitem', COL), ('Collector.default', COL), ('Collector.grep', COL),
             ('FootprintBase.footprint_riseup / __setstate__', I), ('FootprintBase.footprint_compatible', I)],
  state=[('instances', 'weak set of live objects of a collector', COL)],
  observe=['Collector.instances', 'footprints.default', 'footprints.grep'])

P('C10', 'Access modes are enforced, writes are validated and isolated',
  "A read-only attribute can neither be set nor deleted, a read-write one can be set but not deleted, a read-write-delete "
  "one can be set, deleted and set again, and a weak one behaves the same without keeping its value alive. A write is "
  "either refused without any effect, or leaves a value that conforms to the footprint (type conversion, values, outcast) "
  "or None. No operation on an object affects another one.",
  ['histories', 'inputs'],
  "For every sequence of gets, sets and deletes on the attributes of several objects of the same class, for every access mode.",
  "Tests perform one set and one delete on one object.",
  [ACC, I], [('FootprintAttrDescriptor classes', ACC), ('footprint_setattr / footprint_delattr', I)],
  state=[('attributes', 'values of the attributes of an object', I)], observe=['attribute access'])

P('C11', 'Footprints are inherited and merged consistently, in isolation',
  "The footprint of a class is the merge of those of its direct bases and of its own ones: attributes, clauses and other "
  "entries add up, and on conflict the class prevails over its bases, a later local footprint over an earlier one, and "
  "the first base over the next ones. Defining a class modifies neither the footprints of its bases nor the objects used "
  "to define it, and no change of one footprint shows in an unrelated one.",
  ['programs', 'configurations'],
  "For every hierarchy (chains, several bases, diamonds) and every list of local footprints.",
  "Tests cover a few hierarchies and do not look at the bases afterwards.",
  [I, UTI], [('FootprintBaseMeta.__new__', I), ('Footprint.__init__', I), ('dictmerge / list2dict', UTI)],
  observe=['footprint_retrieve', 'footprint_mandatory', 'footprint_values'])

P('C12', 'A priority set is an ordered set of distinct levels',
  "Under any sequence of extensions, insertions, reranks, removals, freezes, restores and resets, a priority set holds "
  "each level once, in the order implied by the sequence: an insertion is immediately before or after its reference, a "
  "rerank moves a level by the given shift within the limits, a restore gives back the frozen order, the others keep "
  "their relative order. Level objects compare as their current rank; a refused operation leaves the set untouched.",
  ['histories'],
  "For every sequence of operations up to a depth, on levels and through the set, by name or by level object.",
  "Tests follow a few fixed sequences.",
  [PRI], [('PrioritySet', PRI), ('PriorityLevel', PRI)],
  state=[('levels', 'ordered list of the names of the levels', PRI)], observe=['PrioritySet', 'PriorityLevel'])

P('C13', 'Priority and collector changes take effect at once',
  "After any change of the priority order, of the level of a package, or of the content of a collector, the next lookup "
  "selects according to the new order and content. At any time the filters by level split the classes of a collector in "
  "two complementary parts, filters by package or flag give exactly the classes that satisfy them, and discards remove "
  "exactly what the matching filter gives.",
  ['histories', 'configurations'],
  "For every sequence of reranks, package resets, additions, discards and lookups, including classes that inherit their "
  "priority level.",
  "Tests use a single change and a single lookup.",
  [COL, PRI, I], [('Collector.filter_* / discard_*', COL), ('reset_package_priority', I), ('PriorityLevel.rank', PRI)],
  observe=['Collector.find_best', 'Collector.filter_higher_level', 'Collector.discard_lower_level'])

P('C14', 'A class is registered as declared, or not at all',
  "A concrete class is registered in each of its collectors and nowhere else; an abstract one is never a candidate nor "
  "instantiable. A definition is refused (explicit class without mandatory attribute, attribute or alias named as one "
  "of its collectors, invalid values) without leaving any trace in any collector. The decorators of a decorative "
  "footprint are applied in order to the class that uses it, and not to its subclasses.",
  ['programs', 'configurations'],
  "For every class definition: abstract, explicit, collectors, attributes, aliases, decorators, inheritance.",
  "Tests check a few definitions, never what remains after a refused one.",
  [I, COL], [('FootprintBaseMeta.__new__', I), ('DecorativeFootprint', I), ('Collector.add', COL)],
  observe=['Collector contents', 'class definition'])

P('C15', 'Rejection reports are truthful and do not alter anything',
  "After a lookup, the last report of the collector lists exactly the candidate classes that were examined; a class "
  "that matches has no entry, and each rejected class has at least one, naming an attribute or clause that is really not "
  "acceptable with the right reason. The history of a light report never exceeds its bound, no report is made when "
  "reporting is off, and an on-error report appears only for failed lookups. The outcome is the same in any mode.",
  ['inputs', 'configurations', 'histories'],
  "For every class set, description, reporting mode, fast mode and sequence of lookups.",
  "Tests compare a few printed reports.",
  [REP, I, COL], [('FootprintLog', REP), ('Footprint.resolve (report.add)', I), ('Collector.find_all', COL)],
  observe=['Collector.report_log', 'Collector.report_last', 'Collector.report_whynot'])

P('C16', 'Report views always reflect the current log',
  "At any time every view of a report log (number of entries, last entry, dictionary with or without time stamps, XML "
  "document, why-not selection, printed forms) tells the same thing: exactly the entries recorded so far, in order, that neither the "
  "length bound, a clear nor a reduction to the last entry removed. An entry recorded out of context is refused "
  "without effect.",
  ['histories'],
  "For every sequence of additions, clears, reductions and views.",
  "Views are cached: only sequences that interleave writes and views can show a stale one.",
  [REP], [('FootprintLog', REP), ('StandardReport', REP)],
  state=[('log', 'bounded list of the entries', REP)], observe=['FootprintLog.as_dict', 'FootprintLog.as_xml'])

P('C17', 'Expansion is the exact product of the expandable values',
  "Expanding a description gives one description per combination of its lists, tuples, sets, ranges and comma separated "
  "strings, no more, no less, numbered from 1 without gap; a dictionary keyed by another key of the description is "
  "replaced by the entry of the actual value (as a string) of this key. Other values, including the protected containers, are kept "
  "as they are, the result does not depend on the order of the keys (but for the order of the items), and the original "
  "description is left untouched.",
  ['inputs'],
  "For every description made of expandable and non-expandable values, nested ones, and dictionary matchings, in any order of keys.",
  "Tests cover a dozen of descriptions in one key order.",
  [UTI], [('expand', UTI), ('inplace', UTI)], observe=['util.expand'])

P('C18', 'Expansion of file patterns finds exactly the matching files',
  "A value with named file patterns is replaced by each existing file that matches, in sorted order, and by nothing "
  "else; the matched parts replace, verbatim, the corresponding references in the other values of the description. "
  "Malformed or duplicated patterns raise a value error.",
  ['inputs', 'configurations'],
  "For every directory content (subsets of a set of names), pattern, and reference.",
  "Tests use one directory with five files.",
  [UTI], [('_parse_globs', UTI), ('expand', UTI), ('inplace', UTI)], observe=['util.expand'])

P('C19', 'Protected containers are well-behaved values',
  "A protected container compares and behaves as the builtin it stands for; equal hashable containers have the same "
  "hash, however they were built; it survives copy, deep copy and pickling with its type, and is never expanded. Used as "
  "an attribute value it is kept as is, or built from a plain container, and sets and regular expressions are exported as plain lists and tuples.",
  ['inputs'],
  "For every content up to a size, every construction order and every pair of contents.",
  "Hash and equality are relations over all pairs and construction orders.",
  [STD, UTI], [('FPDict, FPList, FPSet, FPStr, FPTuple, FPRegex', STD)], observe=['footprints.stdtypes', 'footprint_export'])

P('C20', 'Copies are equal, conforming and independent',
  "A copy, deep copy, clone or pickle round trip of an object has the same class and attribute values (but for the "
  "requested changes), unset attributes included. Later changes of the attributes of either "
  "do not show in the other (nor, after a deep copy or a pickle, in-place changes of a mutable value); dictionary views and exports hold all the "
  "attributes and, except for the shallow one, changing what they contain does not affect the object.",
  ['histories', 'inputs'],
  "For every object (attributes of every access mode, set, unset, changed, deleted, mutable), every sequence of copies "
  "and later changes.",
  "Tests make one clone and one deep copy.",
  [I, COL], [('FootprintBase.__getstate__ / __setstate__', I), ('footprint_clone', I), ('footprint_as_dict / footprint_export', I),
             ('Collector.almost_clone', COL)],
  observe=['copy', 'pickle', 'footprint_clone', 'footprint_as_dict', 'footprint_export'])

P('C21', 'The registry, the proxy and the module functions agree',
  "For any tag, whatever its case and plural, there is a single collector; the proxy, registered proxy objects and the "
  "module functions give access to that very collector and to its load function, for existing collectors and for those "
  "created later; a registered object keeps what it already has under these names, unless told otherwise. Listings of collectors, classes and objects are complete; an unknown name is not reported as existing "
  "and asking the proxy for it does not create anything.",
  ['histories', 'inputs'],
  "For every sequence of collector creations, class definitions, proxy registrations and accesses by every form of name.",
  "Tests create collectors in one order, before any access.",
  [PRX, COL, CFG, I], [('FootprintProxy', PRX), ('add2proxies / add_proxy', CFG), ('Collector.tag_clean', COL)],
  observe=['footprints.proxy', 'footprints.setup.add_proxy', 'collectors.get'])

P('C22', 'Docstrings describe every attribute, in order',
  "When docstrings are enabled, the documentation of a class, inherited attributes included, lists every attribute once with its type, access mode and description, its default "
  "when optional, its values and outcast, every alias and every only clause; in the structured format they are sorted by visibility level (as currently ordered), then decreasing "
  "order weight, then name. When disabled the original docstring is untouched; in every mode the original docstring is kept and "
  "the class behaves the same, and each attribute is documented by its own description.",
  ['programs', 'configurations'],
  "For every footprint (attributes x visibility x weight x optional x values x alias), hierarchy and docstring mode.",
  "Tests compare one docstring.",
  [DOC, I], [('format_docstring', DOC), ('FootprintBaseMeta.__new__', I)], observe=['class __doc__'])

P('C23', 'A lookup leaves no trace on later ones',
  "The outcome of a lookup (success, class, values, error) is a function of the description, the setup and the classes "
  "of the collector: it is the same whatever lookups, failed or not, instantiations, reports or resolutions were made before. "
  "Lookups modify neither the descriptions, the footprints of the classes, the setup nor the objects they refer to.",
  ['histories'],
  "For every sequence of lookups of various kinds (successful, rejected, raising) over a fixed set of classes.",
  "Resolution uses per-footprint caches and shared mutable structures: only histories can show a leak.",
  [I, COL], [('Footprint._firstguess_keys / _resolve_keys', I), ('ResolveCache', COL), ('Footprint.resolve', I)],
  state=[('cached keys', 'attributes and fast flags of a footprint', I)],
  observe=['Collector.find_all', 'Collector.load', 'class instantiation'])

P('C24', 'Flat and factorized reports lose nothing',
  "The flat and the factorized forms of a report hold, for any sequence of entries and any sort keys, every entry once, "
  "under the branch of its own keys. The factorized report lists first the entries of interest in their declared order; "
  "an entry without any of the ordering keys is refused.",
  ['inputs', 'configurations'],
  "For every set of entries and every list of sorting keys.",
  "Tests print one report.",
  [REP], [('FlatReport.reshuffle', REP), ('FactorizedReport', REP)],
  observe=['FlatReport.fulldump', 'FactorizedReport.orderedprint', 'FactorizedReport.dumper'])

P('C25', 'Listings tell what the classes accept',
  "The listings of a collector (map and keys of the attributes, values, printed forms) hold exactly, for its current concrete "
  "classes, every attribute (or those selected by names), its class, optional status, authorized and excluded values; those "
  "of a class (keys, aliases, mandatory attributes, values, access, tracked keys) tell exactly what it declares. A name is "
  "selected as a whole, never as a part of another one. The listings never fail because of the types of the values, and "
  "changing their result has no effect.",
  ['histories', 'inputs'],
  "For every set of classes of a collector, obtained by any history, and every selection of attributes.",
  "Tests list one collector, whose names do not overlap and whose values have the same type.",
  [COL, I], [('Collector.build_attrmap / show_attrmap / show_attrkeys', COL), ('Collector.get_values', COL), ('Footprint.track / allkeys / as_opts', I)],
  observe=['Collector.build_attrmap', 'Collector.show_attrmap', 'Collector.get_values', 'FootprintBase.footprint_values'])

P('C26', 'An object goes with its own attributes',
  "The test of a class (footprint_couldbe, in any reporting mode or cache), the compatibility test of an object and the lookup agree on any "
  "description. From the attributes of an object (alone or completed by any part of its description), its class is found again "
  "and an equal object is obtained, whether by a lookup, an instantiation, a clone or as the default of the collector; the object is "
  "compatible with a description exactly when the class gives these very values for it.",
  ['inputs', 'configurations'],
  "For every footprint, every object built from it and every description.",
  "It relates two resolutions of any footprint, tests check each one on a few descriptions.",
  [I, COL], [('footprint_couldbe / footprint_compatible', I), ('Collector.find_any / default', COL)],
  observe=['FootprintBase.footprint_couldbe', 'FootprintBase.footprint_compatible', 'Collector.find_all', 'Collector.default'])

P('C27', 'Setups hold what was set and are independent',
  "A setup gives back what was set, whatever the way (attribute, in place, at the derivation), and the collectors and lookups follow it at "
  "once; the keys of its defaults are in lower case. A setup derived to a new tag starts equal to its origin, with the changes asked; then "
  "a change of one never shows in the other. A process starts with the default settings and those of its environment. A collector takes the reporting mode of the setup when created, and keeps its "
  "own afterwards.",
  ['histories', 'configurations'],
  "For every sequence of changes, derivations, creations of collectors and lookups.",
  "Aliasing between setups appears only with changes made after a derivation.",
  [CFG, COL], [('FootprintSetup', CFG), ('Collector.__init__', COL)],
  state=[('settings', 'switches, defaults, callback, proxies of each tag', CFG)],
  observe=['footprints.setup', 'config.get', 'Collector.load'])

P('C28', 'The members of a class are those declared',
  "An attribute of the footprint is always reached by its own name on objects; the methods, properties and constants declared keep "
  "theirs. Short names (footprint_x as x) exist when asked, by the class or the setup, and only where they hide nothing that the class or its attributes declare. The class "
  "keeps its name, module and bases; dictionaries given as positional arguments act as keywords.",
  ['programs', 'configurations'],
  "For every combination of short name requests, attributes, members and bases.",
  "Tests define classes without clashes between members.",
  [I], [('FootprintBaseMeta.__new__', I), ('FootprintBase.__init__', I)], observe=['class members', 'object attributes'])
