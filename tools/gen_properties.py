"""Writes /verif/properties.jsonl (kept as code so that edits stay reviewable)."""
import json, os
P = []
R = 'records/record.py'; F = 'records/field.py'; S = 'records/select.py'; FI = 'records/fillers/filler.py'
G = 'records/fillers/get_filler.py'; TY = 'records/fillers/builtin_fillers/typing_fillers.py'
ST = 'records/fillers/builtin_fillers/std_fillers.py'; BV = 'records/fillers/builtin_validators.py'
V = 'records/fillers/validators.py'; C = 'records/fillers/coercers.py'; EX = 'records/extras.py'; TA = 'records/tags.py'
UT = 'records/fillers/util.py'; TC = 'records/utils/typing_compatible.py'


def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (len(title), title)
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))


p('C01', 'A built record holds every declared field, exactly as supplied or defaulted',
  'A record is created only if every field without a default was supplied and no unknown or duplicate argument was given; otherwise a TypeError is raised. In a created record every declared field holds the supplied value (after its declared processing), or, when omitted, the very default object declared, or the result of calling its default factory exactly once for that instance. A factory is never called for a supplied field, and defaults are stored as they are, without checking or coercion.',
  ['inputs', 'configurations'], 'every class shape (number of fields, field names including ones that look like parameter names, default/factory/required mix, frozen or not, inheritance) and every subset and order of keyword arguments',
  'Tests build three-field classes with two or three argument sets; they never vary field count, names or supplied subsets, nor count factory calls.',
  [R, F], [('keyword/required/optional resolution in the constructor', R + ' RecordBase.__new__'), ('default production', F + ' RecordField.make_default')],
  ['attributes of the created instance', 'calls of default factories', 'exceptions of the constructor'],
  [('_required_keys/_optional_keys', 'fields without/with defaults', R)])

p('C02', 'Hollow fields store any object untouched',
  'A field whose checking style is hollow and which declares no validators stores exactly the object it was given, for every type hint and every object, without calling, comparing, iterating, converting or copying it. By default (no style declared) every field of a record behaves this way, whatever its type hint says.',
  ['inputs', 'configurations'], 'every type hint (simple, nested generic, union, literal, non-type, forward reference) and every object, including ones whose special methods raise',
  'Tests store ints and strings in hollow fields of a few hints; transparency for hostile objects and arbitrary nesting is untested.',
  [FI, TY, G, R], [('hollow short-cut', FI + ' AnnotatedFiller.__call__/fill'), ('hollow unions and containers', TY), ('fallback for uninterpretable hints', G + ' DumbFiller')],
  ['identity of the stored object', 'special-method call log of probe objects'])

p('C03', 'A checked field never ends up holding a value outside its declared type',
  'If construction succeeds, each checked field holds a value of its declared type (exactly that type under strict checking), and so does every element, key, value and tuple position of parameterised containers, every literal, subclass and union alternative it names. A value that neither conforms nor is brought to the declared type by a declared coercer makes construction raise; it is never stored. This also holds for what coercers return: a coercer result outside the declared type is never stored.',
  ['inputs', 'configurations'], 'every nesting of supported type hints, both checking styles, every conforming, almost-conforming or alien value and every coercer behaviour (for validators that return values of the declared type)',
  'Tests try a few values per hint at depth one; soundness quantifies over all nestings, sizes and positions of one bad element, and over misbehaving coercers.',
  [FI, TY, ST, G], [('type check + coercer result re-check', FI + ' AnnotatedFiller.fill'), ('element checks', TY), ('per-type check', ST)],
  ['stored attribute vs an independent conformance predicate over the declared hint'])

p('C04', 'Conforming values are accepted and stored as the same object, unconverted',
  'A value that already conforms to a checked field (of the type or a subclass; exactly the type under strict checking; all nested elements conforming too) is accepted, and the stored object is that very object: no coercer runs on it and containers are not rebuilt. This holds whatever coercers are declared and however large or deeply nested the value is.',
  ['inputs', 'configurations'], 'every supported hint nesting and every conforming value, with coercers declared at any level',
  'Tests check equality for a few conforming values; identity and absence of coercer calls at any depth or size are not observed.',
  [FI, TY, ST], [('coercion only after failed type check', FI + ' AnnotatedFiller.fill'), ('identity short-cut in element processing', TY + ' inner_validator')],
  ['identity of stored object', 'log of coercer calls'])

p('C05', 'The nearest declared checking style decides, at every nesting level',
  'Each type level of a field (the field itself, elements, keys, values, tuple positions, union alternatives) is checked in the style declared on it; where none is declared, in the style of the enclosing union if that declares one, else in the record class default. A plain check accepts subclasses, a strict check only the exact type, hollow accepts anything; the record default never overrides an explicit style, and a style declared on a container does not leak to its elements.',
  ['configurations', 'inputs'], 'every combination of record default, explicit styles at each level of a nested hint, and probe values (exact type, subclass, other)',
  'Tests use one style at one level at a time with the record default left hollow or set to check once.',
  [FI, TY, R], [('style resolution at bind time', FI + ' AnnotatedFiller.bind'), ('token forwarding in unions', TY + ' UnionFiller.bind'), ('class default', R + ' default_type_check_style')],
  ['accept/reject decision and stored value for probe values'])

p('C06', 'Coercers run only after a failed check, in order, on the original value',
  'When a value fails its type check, the declared coercers are tried in declaration order, each on the original value, until one returns a value that passes the type check; that value is used and later coercers are not run. If none does, construction raises; a failed attempt leaves no trace in what later coercers receive. A composed coercer applies its parts from last to first, failing if any part fails.',
  ['inputs', 'configurations'], 'every list of coercers (succeeding, raising any exception, returning a wrong-typed or subclass value) and every value',
  'Tests use lists of one or two built-in coercers; they never observe the calls, nor a coercer that succeeds with the wrong type before one that works.',
  [FI, C, F], [('coercer loop', FI + ' AnnotatedFiller.fill'), ('composition', C + ' ComposeCoercer'), ('added in pre_bind', F + ' RecordField.add_coercer')],
  ['call log of coercers (order, argument identity)', 'stored value', 'exceptions'])

p('C07', 'Every validator runs, in order, on the checked value, and can veto or replace it',
  'After checking or coercion, each validator declared on a field runs exactly once, in declaration order, each receiving what the previous one returned, and the last result is what is stored. If any validator raises, no record is created. Assertion validators never change the value: they raise (or, in warning mode, warn or log exactly once and accept) exactly when their condition is false.',
  ['inputs', 'configurations'], 'every list of validators of every kind (calling, asserting, warning, logging, built-in), attached by annotation or added before binding, on plain, element, mapping, tuple and union levels',
  'Tests attach one validator at a time to simple fields and never log calls or mix kinds.',
  [FI, V, F, BV], [('validator loop', FI + ' AnnotatedFiller.fill'), ('assertion/warn', V + ' AssertValidation'), ('added in pre_bind', F)],
  ['call log of validators', 'warnings and logger records', 'stored value', 'exceptions'])

p('C08', 'Containers are processed per element, losing nothing and sparing the input',
  'For a checked container with processed elements, the stored container has the type, length, order, keys and configuration (bounded length, default factory) of the input, and each element is exactly what processing that element alone gives. If no element changes, the stored container is the input object itself. The input container is never modified, and one unacceptable element anywhere makes construction raise.',
  ['inputs', 'configurations'], 'every supported container type and subclass, size, nesting, and position of changed elements',
  'Tests use containers of two or three elements with at most two changed positions, and never check the input afterwards or str/Counter/bounded-deque inputs of abstract hints.',
  [TY], [('element loop and reconstruction', TY + ' GenericIterableFiller/TupleFiller/GenericMappingFiller/reconstruct')],
  ['stored container vs per-element reference', 'deep snapshot of the input before and after'])

p('C09', 'Unions take the best-matching alternative, independent of order, else raise',
  'A checked union field tries every alternative: exact type matches beat subclass matches, which beat coercions, which beat hollow alternatives; an alternative whose processing raises does not count. The stored value is the one of the single best alternative; if several best alternatives give different values construction raises, and if none succeeds construction raises. The outcome does not depend on the order in which alternatives are written.',
  ['inputs', 'configurations'], 'every set of alternatives (simple, container, literal, None, nested, with coercers and validators), every value and every order of alternatives',
  'Tests cover six unions with a handful of values and one order each.',
  [TY], [('best-kind selection', TY + ' UnionFiller.fill')],
  ['stored value/raise vs reference ranking', 'metamorphic comparison over permutations'])

p('C10', 'Built-in bound validators enforce exactly their documented bounds',
  'Clamp returns the value itself when inside the inclusive bounds and the nearest bound otherwise; Cyclic returns a value within [minimum, maximum) congruent to the input, unchanged if already inside; Within, FullMatch and Truth accept exactly the values satisfying their (inclusive/exclusive) bounds, whole-string pattern match, or truth test, and return them unchanged. All are idempotent, work for any ordered type, and impossible bounds are rejected at declaration.',
  ['inputs', 'configurations'], 'every bound combination (open-ended, equal, inclusive/exclusive) over ints, floats, fractions, dates, strings, and every value around the bounds, including extreme floats',
  'Tests use bounds 0/10/100 with ints and floats well inside or outside; extreme floats, open ends and other ordered types are not tried.',
  [BV, V], [('Clamp/Cyclic/Within/FullMatch/Truth', BV)],
  ['stored value or exception vs reference arithmetic'])

p('C11', 'Built-in coercers convert faithfully or refuse',
  'Each built-in coercer either yields the value its documentation defines or fails so the next coercer is tried: whole-number coercion never changes the numeric value (beyond float rounding noise) and integer-to-bytes coercion decodes back to the same integer; truth/falsish/map/class-method/loose/unpacking coercions equal the plain call they stand for, honouring their type constraints and extra arguments. Expression evaluation sees only the names given to it, and literal evaluation only literals.',
  ['inputs', 'configurations'], 'every built-in coercer with every argument form and any input value',
  'Tests give each coercer a few inputs; near-whole floats, negative/signed byte conversions, hostile strings and constraint edge cases are not covered.',
  [ST, C, UT], [('built-in coercers', ST), ('call/map/class-method/compose coercers', C)],
  ['stored value or exception vs reference function'])

p('C12', 'Frozen records cannot be changed after construction',
  'No attribute of an instance of a frozen record class can be set, replaced or deleted through normal attribute operations, whether the name is a field, an unknown name or an inherited one: each attempt raises TypeError and leaves every observable (fields, hash, equality, export, text form) unchanged. This holds for every frozen class however it was derived (from mutable parents, with mixins, with attribute overrides), and non-frozen classes derived from frozen ones are mutable.',
  ['histories', 'configurations'], 'every inheritance shape of frozen/mutable classes and every sequence of reads, hashes and attempted mutations',
  'Tests try a single assignment on a field of two classes; deletion, unknown names, mixins and histories are not covered.',
  [R], [('attribute guards installed at class creation', R + ' __init_subclass__/__setattr__')],
  ['exceptions of attribute operations', 'snapshot of observables before/after'],
  [('_frozen', 'class is immutable', R)])

p('C13', 'Equality is by class and field values, and hashing agrees with it',
  'Two records are equal exactly when they are of the same class and all fields are equal; equality is reflexive, symmetric and transitive over well-behaved values, and records never equal anything of another class. Comparing never raises for lack of hashability. Equal frozen records have equal hashes, a hash never changes over the life of a record, frozen records work as dict/set keys, and mutable records are unhashable.',
  ['inputs', 'histories', 'configurations'], 'every pair/triple of records over every class shape, values equal across types (1, 1.0, True), defaults present or not, unhashable values, any order of hashing, comparing and exporting before',
  'Tests compare a few points; hash/equality agreement across equal-but-different values, defaults and hashing histories is not tested.',
  [R], [('__eq__/__hash__ with cached hash', R)],
  ['results of ==, !=, hash, set/dict membership'],
  [('_hash', 'cached hash of a frozen record', R)])

p('C14', 'Ordered records compare like the tuple of their ordering fields',
  'For classes declared ordered, <, <=, > and >= between two instances give what comparing the tuples of their non-excluded fields, in field order (inherited fields first), would give; they are mutually consistent, transitive, and sorting gives the same result as sorting by that tuple. Fields marked as excluded never influence ordering but still count for equality. Classes not declared ordered, and operands of other types, raise TypeError.',
  ['inputs', 'configurations'], 'every set of fields, exclusions and inheritance, and every pair/list of instances',
  'Tests compare two pairs of one three-field class.',
  [R], [('ordering key and comparison methods', R + ' __ordering_key/__lt__/...')],
  ['results of comparisons and sorted()'])

p('C15', 'Exports contain exactly the selected fields, with the stored values',
  'Exporting to a dict yields, for each field and nothing else, the stored object itself, leaving out fields that equal their (non-factory) default unless defaults are requested, and fields bearing a blacklisted tag, except that whitelisted fields always appear. Keys come in field order, or ascending, descending, or by the given sort key. Exporting a foreign object through the class gives the same for its attributes, taking absent optional attributes as default and raising for absent required ones; JSON export equals encoding that dict.',
  ['inputs', 'configurations'], 'every class shape, tags, defaults, values equal to defaults, and every combination of export options given at call time or beforehand',
  'Tests exercise each option alone on a three- or four-field class.',
  [R, S, TA, F], [('option handling', R + ' RecordBase._to_dict'), ('exporter plumbing', S + ' Exporter/NoArgExporter')],
  ['resulting mapping (keys, order, value identity) vs reference'])

p('C16', 'Selections add, drop and rename exactly the named keys, or raise',
  'Applying a selection removes, renames and adds exactly the named keys in that order and leaves every other key and value alone: mandatory removals and renames raise if the key is missing, renames and additions raise if the target exists, the "maybe" forms skip instead when their source is missing or (for additions) the key exists. Merging selections acts as one selection with all their instructions, and a selection can be applied any number of times with the same effect, whatever iterable or mapping described it.',
  ['inputs', 'configurations', 'histories'], 'every selection (all six instruction kinds, any iterable form), every mapping, any merge grouping and any number of applications',
  'Tests apply a dozen selections to one mapping, each once, built only from lists, dicts and strings.',
  [S], [('Select.__init__/__call__/merge', S)],
  ['resulting mapping or exception vs reference'])

p('C17', 'Import, export and selection never alter their inputs or what they derive from',
  'Deriving a new selector or exporter with selections or options gives a new object and never changes the one it came from, the class, or other instances. Importing from mappings and objects, exporting, comparing and formatting leave the given mappings, objects and records as they were, and changing an exported dict never changes the record.',
  ['histories', 'inputs'], 'every sequence of derivations and calls over shared selectors, exporters, mappings and records',
  'Tests derive each selector once and drop it; none looks at inputs or earlier selectors afterwards.',
  [S, R], [('bound factories and exporters', S + ' Bound.select/export_with'), ('mapping copies', R + ' from_mapping/_to_dict')],
  ['snapshots of inputs, bound selectors results before/after'])

p('C18', 'Exported records import back as equal records',
  'For any record whose fields accept their own stored values, importing its dict export, its JSON export (for JSON-representable values, via text or stream), itself as an object, or evaluating its text form gives an equal record of the same class, with or without defaults in the export and with any sort order. A selection that renames or adds keys on export and the inverse selection on import cancel out.',
  ['inputs', 'configurations'], 'every class shape and field value, export option and selection/inverse pair',
  'Tests round-trip one or two points with fixed options.',
  [R, S], [('from_mapping/from_json/from_instance/to_dict/to_json/__repr__', R)],
  ['equality of the re-imported record'])

p('C19', 'Pickled records survive, even in another process',
  'Unpickling a pickled record, in the same or another interpreter process (with its own string-hash seed) and for every pickle protocol that supports it, gives a record of the same class with equal fields that behaves like one built there: equal to it, same hash, found in sets and dicts. Unpickling data that is not a record of the class parses it instead. Whether the record had been hashed, compared or exported before pickling makes no difference, nor does it matter what processing the fields of the class perform: the stored values themselves come back.',
  ['histories', 'configurations', 'inputs'], 'every record whose fields accept their own stored values, prior history, protocol, nesting and process hash seed',
  'Tests unpickle one mutable record in the same process; hash seeds and frozen records never cross a process.',
  [R], [('__getnewargs_ex__/to_pickle/from_pickle', R)],
  ['equality, hash and set membership in the unpickling process'],
  [('_hash', 'cached hash, process specific', R)])

p('C20', 'Copies equal the original and deep copies share nothing mutable with it',
  'A shallow copy of a mutable record is a distinct equal record holding the same field objects, and of a frozen record is the record itself. A deep copy is a distinct equal record of the same class in which every mutable value is a copy, with sharing between values (also with other objects deep-copied together) and cycles through containers preserved; the stored values are copied as they are, whatever processing their fields perform; changing a copy never shows in the original, in its class defaults or in later records.',
  ['inputs', 'histories', 'configurations'], 'every class shape and acyclic object graph of field values, any later mutation of either side (for fields that accept their own stored values or hold their default)',
  'Tests copy a two-node chain once; aliasing, defaults and later mutations are not examined.',
  [R], [('__copy__/__deepcopy__', R)],
  ['identity graph and equality of copies, observables after mutation'])

p('C21', 'Parsing succeeds exactly when exactly one registered parser accepts',
  'Parsing a value tries every registered parser of the class, built-in, declared or inherited, and returns the result of the only one that does not raise; if none succeeds it raises a parse failure, if more than one succeeds a TypeError. A function becomes a parser only by being marked as one, for the class and all its subclasses, producing instances of the class parse was called on.',
  ['inputs', 'configurations'], 'every set of parsers over any inheritance shape, each accepting or raising any exception per value, and every value',
  'Tests register one custom parser and try a few values.',
  [R, S], [('parser registry and parse', R + ' __init_subclass__/parse/parser')],
  ['result or exception vs the set of parsers that accept', 'call log of parsers'])

p('C22', 'A single positional argument is resolved unambiguously or refused',
  'With exactly one required field a positional argument fills it; where unary parsing is enabled (by default for classes not having exactly one required field) and no keywords are given, the argument is parsed. If both readings succeed a TypeError is raised, if exactly one succeeds its record is returned (even when that record is falsy), and if neither does an error is raised; positional plus keyword for the same field, more than one positional, or a positional where neither reading is allowed raises TypeError.',
  ['inputs', 'configurations'], 'every number of required fields, unary-parse setting, field processing outcome, post-construction outcome and parser outcome, with and without extra keywords',
  'Tests cover about six of the combinations.',
  [R], [('positional handling', R + ' RecordBase.__new__')],
  ['result or exception vs decision table'])

p('C23', 'Rejected input yields an error that names the field, and no half-made record',
  'When processing a supplied value fails, construction raises an error of the same type as the original error (or a ValueError when that type cannot be rebuilt from a message) whose message names the field and whose cause is the original error. No instance becomes visible and the post-construction step does not run; a later valid construction is unaffected. Unknown, missing and duplicate arguments raise a TypeError naming them. A type-check failure surfaces as TypeError and an assertion failure as ValueError or the configured error type.',
  ['inputs', 'fault_sequences', 'configurations'], 'every failing field position, every exception type raised by coercers, validators or element processing, at any nesting depth',
  'One test matches one field name in one message.',
  [R, FI, V], [('error translation', R + ' RecordBase.__new__')],
  ['exception type, message, cause', 'calls of post_new'])

p('C24', 'The post-construction hook runs once per new record, on complete data',
  'Whichever way a record is built (keywords, positional, parsing, importing, unpickling, copying), the post-construction hook of its class runs exactly once on each newly created instance, after all fields are filled, with every field readable. If it returns a record that record is the result (even if falsy), if it returns None the instance is; if it raises, construction raises that error.',
  ['inputs', 'configurations'], 'every construction path, hook behaviour (return, replace, mutate, raise) and class shape',
  'Three tests use keyword construction with hooks that sort or assert.',
  [R], [('post_new call', R + ' RecordBase.__new__')],
  ['call log of post_new with field snapshot', 'identity of the result'])

p('C25', 'Subclassing extends records without disturbing their parents',
  'A subclass has the fields of all its parents, in parent order, followed by its own, with the same processing, defaults and tags; redeclaring or doubly inheriting a field is refused. Creating, using or failing to create a subclass never changes the fields, behaviour, frozenness, ordering or parsers of its parents. Frozen, ordered, unary-parse and default checking settings belong to each class alone; class variables and mixin attributes never become fields; initialisers of mixins never run, and neither do initialisers, attribute setters or hash functions that a class overrides: creating such a class warns, creating any other class does not; fields can be looked up by tag on any class.',
  ['configurations', 'programs'], 'every hierarchy of records and mixins with any settings, and any order of creation and use',
  'Tests build two-level hierarchies with one field each and look at one attribute.',
  [R, F], [('__init_subclass__ inheritance of fields', R), ('FieldDict.filter_by_tag', F)],
  ['field listing, construction and behaviour of each class before/after'])

p('C26', 'Declarations that could not be honoured are rejected when the class is created',
  'Class creation raises for every declaration whose processing could not be carried out: coercers on hollow types, checked element types inside hollow or uncheckable containers, strict checks of abstract types, coercers that do not fit the type, checks or tokens on things that are not types, Final fields in mutable classes or without a type, field-less classes, inverted bounds, bad sub-keys, and changes to a field after its class exists. The same declarations without the offending part are accepted.',
  ['configurations', 'programs'], 'every position and nesting of an offending declaration within an otherwise valid class',
  'Tests try each offence once, at the top level of a one-field class.',
  [FI, TY, ST, G, R, F], [('bind-time consistency checks', FI + ', ' + TY + ', ' + ST), ('class-level checks', R + ' __init_subclass__')],
  ['exception or success of class creation'])

p('C27', 'Using a record class never changes how it behaves',
  'The outcome of constructing, exporting, comparing or importing depends only on the class declaration and the arguments, never on what was done with the class before: any operation gives the same result after any history of successful and failed uses, including uses nested inside validators, coercers or hooks, as it gives on a freshly declared class.',
  ['histories', 'fault_sequences'], 'every sequence of operations (successes, rejections, nested constructions) on one class',
  'Each test uses a class once or twice; hidden state that builds up needs long mixed histories to show.',
  [FI, TY, R, S], [('fillers are stateless after binding', FI + ', ' + TY), ('cached truthiness/hash', S + ', ' + R)],
  ['outcome of each operation in a history vs on a fresh class'],
  [('possible_values', 'table of literal values per type', TY)])

p('C28', 'Record classes and frozen records can be shared between threads',
  'When several threads build, export, compare, hash, order and import records of shared classes, and share frozen records and selectors, each operation gives the result it gives when run alone, under every interleaving, including switches inside validators, coercers, factories and hooks. No value ever appears in a record of another thread.',
  ['schedules'], 'every interleaving of operations on shared classes, frozen records, selections and exporters',
  'The tests are single-threaded.',
  [R, S, FI, TY], [('no shared scratch state', R + ', ' + FI), ('idempotent caches', R + ' __hash__, ' + S + ' Select.__bool__')],
  ['per-thread results vs sequential results; unique ids in values'])

p('C29', 'Replaced serialisation and regex back-ends are the ones used',
  'Replacing the json, pickle or re member of the extras module redirects every later JSON and pickle encoding and decoding done by records, and every pattern compiled afterwards, to the replacement, with the caller\'s arguments passed on and its result or error returned; the default back-end is then not used. Restoring the member restores the default, at any time, also for classes and exporters created earlier.',
  ['configurations', 'histories'], 'every entry point that encodes or decodes, every replacement and any order of class creation, replacement and use',
  'No test replaces an extra.',
  [EX, R, BV], [('late-bound extras', R + ' extras.json/pickle, ' + BV + ' extras.re')],
  ['call log of replacement back-ends, results'])

p('C30', 'Results do not depend on the interpreter\'s hash seed',
  'The same program building, exporting, printing, ordering and importing records gives the same values, key orders, text, JSON, order of callback and factory calls, and kinds of error in every interpreter process, whatever its string-hash seed.',
  ['configurations', 'programs'], 'every program over records and every hash seed',
  'Tests run under one hash seed.',
  [R, F], [('ordered field dictionaries', R + ' _fields')],
  ['trace digests across processes with different seeds'])

p('C31', 'Every import path applies the same processing as keyword construction',
  'Building a record from one or several mappings, from JSON text or stream, from the attributes of an object, or through parsing gives the same record, or the same kind of refusal, as passing the combined keys as keyword arguments (after any selection): no path skips checking, coercion, validation, required fields or unknown keys. Earlier mappings win over later ones and over keywords when importing mappings; extra mappings and keywords win over attributes when importing an object; a frozen instance imported as is may be returned itself.',
  ['inputs', 'configurations'], 'every class shape with processing, every source and combination of mappings, keywords, missing or surplus keys, and selections',
  'Tests import three-field hollow points from one mapping or object.',
  [R, S], [('from_mapping/from_instance/from_json(_io)', R), ('SelectableFactory.run', S)],
  ['result or exception class vs keyword construction'])

p('C32', 'Records and rejected values are released when dropped',
  'The library keeps no hidden references to values, records or errors: once a program drops a record, an accepted or a rejected input and the error raised for it, they can be garbage collected, and the number of objects kept alive does not grow with the number of constructions, rejections, exports or comparisons performed.',
  ['histories', 'fault_sequences'], 'every long-running sequence of accepted and rejected constructions, exports, hashes and selections',
  'Tests never look at object lifetimes.',
  [V, TY, R], [('no caches of instances', R), ('error instances are shared by validators', V + ' AssertValidation._raise'), ('literal tables', TY + ' LiteralFiller')],
  ['weak references to values, records and errors after collection'])

p('C33', 'Changing a mutable record changes that record only, and everything reflects it',
  'On a mutable record any attribute can be set; a new field value is stored as is and from then on is what reading, equality, ordering, exporting, text form, copying and pickling of that record use. No other record, default, or class is affected, apart from objects the program itself shares between them.',
  ['histories', 'configurations'], 'every sequence of assignments, comparisons, exports and copies over several live instances of mutable classes',
  'The mutability test is unconditionally skipped; no test mutates and then exports or compares.',
  [R], [('plain attribute storage', R + ' __init_subclass__/__new__')],
  ['observables of all live instances vs a dict model after each step'])

p('C34', 'Processing added while a class is created acts as if declared',
  'A validator, assertion or coercer that a class adds to one of its fields, or to any part of a field reached by sub-keys, while it is being created (pre_bind), whether by a call, as a decorator or as a decorator with arguments, with whatever extra arguments, acts exactly like the same processing written in the annotation of that place: the same results, order of callbacks, errors and number of calls per value. A decorated function is given back unchanged so that it can be decorated again.',
  ['inputs', 'configurations', 'programs'], 'every place of every field type, every way and order of adding processing to it, and every value',
  'Tests add one validator to one plain field and feed it two values.',
  [F, R, FI, TY], [('decorators of fields', F + ' add_coercer/add_validator/add_assert_validator'), ('sub-fillers by key', FI + ', ' + TY + ' sub_filler'), ('pre_bind before binding', R + ' __init_subclass__')],
  ['stored values, errors and callback log of a class with added processing vs its annotated twin; identity of the decorated function'])

p('C35', 'Exporters and factories a class declares work like the built-in ones',
  'A function that a class declares as exporter receives exactly the exported and selected mapping of the record, a factory exactly the class it is called on, both with the caller\'s arguments, once; the result or the very error comes back. A factory builds the class it is called on from the mapping returned, after selection, through all of the class\'s processing, and leaves that mapping unchanged. This holds when the member is inherited, overridden, reached through super(), an instance, another class, or a stored bound object. A shortcut is asked first, and only when nothing is selected. A factory marked as parser serves parsing.',
  ['programs', 'histories', 'inputs'], 'every class tree with such members, every chain of selections and export options, and every argument',
  'Tests declare one factory and one exporter on one class and call them with fixed arguments.',
  [S, R], [('descriptors bound per access', S + ' SelectableFactory/Exporter __get__'), ('shortcut before main function', S + ' SelectableShortcutFactory.run'), ('parsers by decorator', R + ' parser')],
  ['log of the functions called with identities of their arguments; result or error; class and values of the record built'])

p('C36', 'Tokens written by users are honoured at every place, and nothing else is',
  'A coercer or validator token whose class derives from the public token bases, given as an instance or as the class, is asked for its callback when the class is created, for every place it annotates, with the type stored there; each value of that place then goes through that very callback, in declaration order, and through no callback made for another place, however often the token is shared or composed and through subclasses as well. A token that cannot make its callback makes the class creation fail with its error. Annotation metadata of other libraries is neither called, compared nor otherwise relied on.',
  ['programs', 'inputs'], 'every nesting of annotated types, every sharing of tokens between places and classes, and every foreign metadata object',
  'Tests use the built-in tokens at top-level fields; no foreign metadata is ever given.',
  [FI, TY, S.replace('select.py', 'fillers/util.py'), S.replace('select.py', 'fillers/coercers.py'), V], [('tokens recognised by base class', 'records/fillers/util.py _as_instance'), ('callback per filler', FI + ' get_coercer/get_validator'), ('distribution over alternatives', TY + ' UnionFiller.bind')],
  ['log of requests (token, stored type) and of calls (callback, value)'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
