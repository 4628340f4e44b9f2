"""Writes /verif/properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mechanism, observe):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None)))


FILL = 'records/fillers/filler.py'
STD = 'records/fillers/builtin_fillers/std_fillers.py'
TYP = 'records/fillers/builtin_fillers/typing_fillers.py'
REC = 'records/record.py'
FLD = 'records/field.py'
SEL = 'records/select.py'
VAL = 'records/fillers/validators.py'
BVAL = 'records/fillers/builtin_validators.py'
COE = 'records/fillers/coercers.py'
GET = 'records/fillers/get_filler.py'

p('C01', 'A hollow field stores exactly the object it is given',
  'A field declared without type checking, coercion or validation stores the very object passed for it, whatever the '
  'type of the object and whatever the annotation is. Construction never fails, and never inspects or replaces the '
  'value, because of such a field.',
  ['inputs', 'configurations'],
  'for every argument (any type, falsy or truthy, equal or identical to the default, to None or to a sentinel-like '
  'object) and every supported kind of annotation',
  'tests pass a handful of ints, floats and strings to hollow fields; none quantifies over types, truthiness or '
  'identity of the argument',
  [FILL, GET, TYP, REC],
  [('hollow shortcut and hollow fill', FILL + ':AnnotatedFiller.__call__/fill'),
   ('filler for non-type hints', GET + ':DumbFiller'), ('argument storage', REC + ':RecordBase.__new__')],
  ['record attribute after construction'])

p('C02', 'Type checking accepts exactly the declared type',
  'A field with style "check" and no coercers accepts an argument if and only if it is an instance of the declared '
  'type; with "check_strict" if and only if its type is exactly the declared type. An accepted argument is stored as '
  'the same object; any other argument raises TypeError and no record is produced. Fields declared None, Ellipsis or '
  'Callable accept exactly None, Ellipsis and the callables. A field that names no style of its own follows the default style of the class that declares it.',
  ['inputs', 'configurations'],
  'for every argument type in a class lattice with subclasses, bool/int, None, Ellipsis, callables and containers, '
  'for plain classes, None, Ellipsis, Any/object, NewType, callable and abstract targets, all styles given per field '
  'or by class default',
  'unit tests try two or three arguments per target type; acceptance must hold for every (argument type, target, '
  'style) combination, including subclasses, bool-vs-int and earlier constructions',
  [FILL, STD, GET, TYP],
  [('type stage', FILL + ':AnnotatedFiller.fill'), ('instance tests', STD + ':SimpleFiller.type_check and friends'),
   ('style defaulting', FILL + ':AnnotatedFiller.bind')],
  ['construction outcome', 'record attribute'])

p('C03', 'Coercers run in order on the original argument; first good result wins',
  'Coercers of a checked field run only when the argument fails the type check, in the order they were given, each '
  'on the original argument; the first one that returns a value passing the field\'s type check supplies the value '
  'and the rest do not run. If none does, construction raises and no record is produced. A checked field without '
  'validators therefore never holds a value that its own type check would refuse.',
  ['inputs', 'configurations', 'fault_sequences'],
  'for every argument type, 1 to 4 coercers each of which may raise any Exception or return an arbitrary object of any '
  'type, both checking styles, several kinds of declared type',
  'tests use at most two concrete coercers and never one that returns a wrong-typed value before another one; the '
  'outcome depends on the whole sequence of coercer outcomes',
  [FILL, STD],
  [('coercion loop', FILL + ':AnnotatedFiller.fill'), ('coercer registration', FILL + ':AnnotatedFiller.apply/get_coercer')],
  ['arguments seen by coercers', 'record attribute', 'construction outcome'])

p('C04', 'Validators chain in order, once each, after the type stage',
  'After the type stage of a field has succeeded, every validator runs exactly once, in the order given, each on the '
  'result of the previous one, and the field stores the result of the last. If a validator raises, the later ones do '
  'not run and construction fails with an error of the same type, naming the field and chained to the original. '
  'Validators do not run on a value that failed the type stage, and they run on hollow fields too.',
  ['inputs', 'configurations', 'fault_sequences'],
  'for 1 to 4 validators given by Annotated tokens or added before binding, each returning an arbitrary object or raising '
  'one of several exception types, for every style and argument',
  'tests have one validator per field; order, threading of results and stop-at-first-error only show with several',
  [FILL, VAL, FLD, REC],
  [('validation loop', FILL + ':AnnotatedFiller.fill'), ('registration', FLD + ':RecordField.add_validator'),
   ('error wrapping', REC + ':RecordBase.__new__')],
  ['arguments seen by validators', 'record attribute', 'exception raised'])

p('C05', 'Literal and Type[...] fields accept exactly the declared values and classes',
  'A checked Literal field accepts an argument if and only if it equals one of the listed values of exactly its own '
  'type; a checked Type[X] field accepts exactly the classes that are X or a subclass of X (with "check_strict", only '
  'those whose metaclass is plain type). The decision depends only on the argument, never on values tried before; '
  'accepted arguments are stored as the same object.',
  ['inputs', 'configurations', 'histories'],
  'for every argument of type int, bool, str, None or unrelated, symbolic integers against symbolic literal values, '
  'every class in a lattice, both styles, and sequences of two constructions',
  'tests try five literal arguments once each; equality across bool/int/float and dependence on earlier arguments '
  'are not exercised',
  [TYP],
  [('literal membership', TYP + ':LiteralFiller'), ('subclass validator', TYP + ':TypeFiller')],
  ['construction outcome', 'record attribute'])

p('C06', 'Union fields choose the closest matching alternative',
  'A union field stores what the alternative with the closest match produced: exact type before subclass instance '
  'before coercion before unchecked, whatever the order in which the alternatives are listed. If two alternatives '
  'match equally closely the construction raises unless they produced the identical object; if no alternative '
  'accepts the argument it raises; alternatives that raise are otherwise ignored.',
  ['inputs', 'configurations', 'fault_sequences'],
  'for 2 to 4 alternatives over a class lattice, each with its own style, optional coercer and validator with '
  'arbitrary outcomes, every argument type and every order of alternatives, nested unions and Optional included',
  'tests fix the alternatives and arguments; the priority and tie rules quantify over all outcome combinations',
  [TYP, FILL],
  [('best match selection', TYP + ':UnionFiller.fill'), ('match kinds', FILL + ':TypePassKind')],
  ['record attribute', 'construction outcome'])

p('C07', 'Sequence, set and tuple fields fill every element in place',
  'A parameterised list/sequence/set/deque/tuple field fills every element with the element type\'s own checks, '
  'coercers and validators (per position for fixed-length tuples, whose length must match) and fails if any element '
  'fails. If no element changes, the very container passed is stored; otherwise a new container of the same type '
  'holds the filled elements in the original order with nothing lost, duplicated or left unfilled. The container '
  'passed in is never modified. (Containers that can be built from an iterable of their elements.)',
  ['inputs', 'configurations'],
  'for containers of length 0 to 5 with arbitrary elements, each element unchanged, changed, or '
  'refused, over list, tuple, set, frozenset, deque (with maxlen), str and user subclasses thereof, nested one level',
  'tests use lists of 2-3 elements with one mixed pattern; the splice around the first changed element must be right '
  'for every position and every pattern of changes',
  [TYP],
  [('element loop and splice', TYP + ':GenericIterableFiller/_split_at'), ('tuples', TYP + ':TupleFiller'),
   ('deques', TYP + ':GenericDequeFiller')],
  ['record attribute', 'argument container afterwards', 'construction outcome'])

p('C08', 'Mapping fields fill every key and every value',
  'A parameterised dict/mapping field fills every key with the key type\'s processing and every value with the value '
  'type\'s, and fails if any of them fails. If nothing changes, the very mapping passed is stored; otherwise a new '
  'mapping of the same type holds exactly the filled pairs in the original order (a defaultdict keeps its factory). '
  'The mapping passed in is never modified.',
  ['inputs', 'configurations'],
  'for mappings with 0 to 4 entries and arbitrary keys and values, each unchanged, changed or refused, over dict, '
  'OrderedDict, defaultdict, Counter, read-only mapping proxies and user subclasses, for Dict, Mapping and DefaultDict fields',
  'tests use one or two entries, value coercion only, and only dict or a matching defaultdict',
  [TYP],
  [('pairwise fill', TYP + ':GenericMappingFiller'), ('reconstruction', TYP + ':DefaultDictFiller.reconstruct')],
  ['record attribute', 'argument mapping afterwards', 'construction outcome'])

p('C09', 'Construction binds each field exactly once or fails',
  'Constructing with keyword arguments succeeds only if every name is a field and every field without a default is '
  'given; otherwise it raises TypeError. On success each given field holds its filled argument, each omitted field '
  'holds its default: the very default object, or the result of one fresh call of its factory, which is called for '
  'omitted fields only. Falsy, None or default-equal arguments are treated like any other.',
  ['inputs', 'configurations', 'histories'],
  'for classes with 1 to 6 fields in any mix of required, default and factory fields, every subset of names given '
  'plus unknown names, any argument values, and repeated constructions',
  'tests try a few argument sets on one 3-field class; the rule is over all subsets, all field mixes and all values',
  [REC, FLD],
  [('argument accounting', REC + ':RecordBase.__new__'), ('defaults', FLD + ':RecordField.make_default')],
  ['construction outcome', 'record attributes', 'factory calls'])

p('C10', 'A positional argument is the one required field or a parse, never both',
  'With exactly one required field a positional argument fills that field; when unary parsing is also on, the '
  'construction returns whichever of filling and parsing succeeds and raises TypeError if both do, or if the parse itself is ambiguous. With zero or '
  'several required fields a lone positional argument is parsed, and combined with keywords it is refused. Unary '
  'parsing is on by default exactly when the class does not have one required field.',
  ['inputs', 'configurations', 'fault_sequences'],
  'for classes with 0 to 3 required fields, unary_parse unset/on/off, keyword arguments present or not, filling, '
  'post-processing and parsing each succeeding or failing, and records and arguments that are falsy',
  'tests cover a handful of the outcome combinations and only truthy records',
  [REC],
  [('positional resolution', REC + ':RecordBase.__new__'), ('default of unary_parse', REC + ':__init_subclass__')],
  ['construction outcome'])

p('C11', 'parse succeeds only if exactly one registered parser does',
  'Parsing an object tries every registered parser of the class, inherited ones included; if exactly one returns '
  'without raising, its result is returned; if none does, ParseFailure is raised; if several do, TypeError (not '
  'ParseFailure) is raised. Exceptions of parsers do not escape.',
  ['inputs', 'fault_sequences', 'configurations'],
  'for 0 to 4 user parsers (marked with @parser outermost), own or inherited, each raising any Exception or returning any value (falsy and None '
  'included), together with the built-in mapping, instance and JSON parsers',
  'tests have one custom parser that succeeds; the exclusivity rule is over all combinations of outcomes and result values',
  [REC],
  [('parser registry', REC + ':__init_subclass__'), ('exclusive choice', REC + ':RecordBase.parse')],
  ['parse outcome'])

p('C12', 'post_new sees a complete record and may replace or veto it',
  'The instance hook runs exactly once per constructed record, after every field is set. If it returns None the '
  'instance itself is the result; if it returns anything else that object is the result, even a falsy one; if it '
  'raises, the exception propagates and no record is produced.',
  ['inputs', 'configurations', 'fault_sequences'],
  'for every hook outcome (None, the same record, another record, falsy records, mutation, any exception), frozen and '
  'mutable classes, keyword, positional and parsed construction',
  'tests have a mutating hook and an asserting hook on truthy records only',
  [REC],
  [('hook call', REC + ':RecordBase.__new__')],
  ['construction outcome', 'hook calls'])

p('C13', 'Equality is exact-type, field-wise; equal frozen records hash alike',
  'Two records are equal exactly when their classes are the same and all their fields are equal; comparison is '
  'symmetric, and never raises merely because a field value is unhashable. Equal frozen records have equal hashes, '
  'for as long as they live and after being copied, pickled or moved to a process with another hash seed. Mutable '
  'records are unhashable.',
  ['inputs', 'configurations', 'histories'],
  'for records of 1 to 4 fields with arbitrary field values (equal but distinct, equal to defaults, unhashable), '
  'frozen or not, subclasses, hash computed before or after copying, pickling and process change',
  'tests compare three records once; hash agreement over default-equal values, caching and pickling is untested',
  [REC],
  [('equality', REC + ':RecordBase.__eq__'), ('cached hash', REC + ':RecordBase.__hash__'),
   ('frozen set-up', REC + ':__init_subclass__')],
  ['==, !=, hash()'])

p('C14', 'A frozen record never changes',
  'No attribute of a frozen record, field or otherwise (the private hash cache excepted), can be assigned or deleted: the '
  'attempt raises TypeError and every field keeps its value. Frozenness is that of the class itself, whatever its parents are: mutable subclasses of '
  'frozen records can be assigned and frozen subclasses of mutable ones cannot. Assigning a field of a mutable '
  'record changes that field of that record only.',
  ['inputs', 'configurations', 'histories'],
  'for every field and non-field name, every value, frozen/mutable parent and child combinations, sequences of '
  'set/delete operations up to length 3 including attempts after hashing and comparing',
  'tests assign one field once; deletion, new attributes, and longer histories are untested',
  [REC],
  [('setattr guard', REC + ':RecordBase.__setattr__'), ('per-class installation', REC + ':__init_subclass__')],
  ['attribute values', 'exceptions'])

p('C15', 'Ordering is lexicographic over the non-excluded fields',
  'For an ordered class, <, <=, > and >= compare the tuples of the fields not excluded from ordering, in declaration '
  'order (inherited fields first), and so agree with each other. Comparing with something that is not an instance of the '
  'class, or records of a class not declared ordered, raises TypeError.',
  ['inputs', 'configurations'],
  'for records with 1 to 4 integer fields of any value, any subset of fields excluded, inherited fields, ordered or '
  'not, and foreign operands',
  'tests compare two pairs of points; ties on a prefix and the agreement of the four operators need all value combinations',
  [REC],
  [('ordering key', REC + ':RecordBase.__ordering_key'), ('operators', REC + ':__lt__/__le__/__gt__/__ge__')],
  ['comparison results'])

p('C16', 'Export contains exactly the fields the options select',
  'Exporting a record yields, for each field in declaration order, its current value under its name, leaving out fields equal '
  'to their (non-factory) default unless defaults are included and fields carrying a blacklisted tag (one Tag or a set of Tags); whitelisted names are always '
  'included. The sort option only reorders keys. Exporting a foreign object through a class reads the same fields, '
  'lets missing optional ones be absent (or default, if defaults are included) and raises AttributeError for a '
  'missing required one.',
  ['inputs', 'configurations'],
  'for records of 1 to 4 fields, every mix of defaults, factories and tags, every value (equal to default or not), '
  'every combination of include_defaults, blacklist, whitelist and sort, records and foreign objects',
  'tests sample a few option combinations on one class with one default',
  [REC, SEL, FLD],
  [('export', REC + ':RecordBase._to_dict'), ('default test', FLD + ':RecordField.is_default'),
   ('option passing', SEL + ':NoArgExporter/Exporter')],
  ['exported mapping'])

p('C17', 'A Select applies removals, renames and additions exactly as specified',
  'Applying a Select to a mapping removes, then renames, then adds the listed keys, in that order: mandatory removals '
  'and renames raise KeyError if the key is missing, mandatory additions raise ValueError if the key exists, a rename onto '
  'an existing key raises ValueError, and the "maybe" forms skip missing keys or existing targets of additions. Keys '
  'not mentioned keep their values. The result depends only on the mapping and the listed keys, not on how often '
  'the Select was used before or on the kind of iterable it was built from.',
  ['inputs', 'configurations', 'histories'],
  'for mappings over up to 4 key names with arbitrary presence and values, every combination of up to 2 entries in each of the six '
  'lists, given as tuple, list, mapping, single string or one-shot iterator, used repeatedly',
  'tests run a dozen hand-written selects; order of phases, clashes and reuse are combinatorial',
  [SEL],
  [('application', SEL + ':Select.__call__'), ('normalisation', SEL + ':Select.__init__'), ('truthiness cache', SEL + ':Select.__bool__')],
  ['resulting mapping', 'exception'])

p('C18', 'Selects and bound factories/exporters compose without side effects',
  'Merging Selects gives one whose every key list is the concatenation of the operands\', is associative, has the empty '
  'Select as identity and leaves the operands unchanged. select() and export_with() on a factory or exporter return a new '
  'bound object carrying the accumulated Select and options; the original one, other bound objects and the class '
  'behave as before.',
  ['inputs', 'configurations', 'histories'],
  'for chains of up to 3 merges/select/export_with calls with arbitrary Selects, on records and on classes, '
  'interleaved with calls of earlier bound objects',
  'tests merge one Select with the empty one and never reuse an intermediate bound object',
  [SEL],
  [('merge', SEL + ':Select.merge/_merge'), ('bound factories', SEL + ':SelectableFactory.Bound.select'),
   ('bound exporters', SEL + ':Exporter.Bound.select/export_with')],
  ['merged lists', 'results of bound calls'])

p('C19', 'Import factories build from exactly the given data and never alter it',
  'Building from mappings uses, for every key, the first mapping that has it and then the keyword arguments; building '
  'from an instance uses its attributes, overridden by mappings in turn and then by keyword arguments; building from JSON '
  'uses the decoded object. The selected keys become the constructor\'s keyword arguments, so unknown or missing names are refused in '
  'the same way. The mappings and objects passed in are left unchanged, and a frozen record built from an instance of '
  'its own class with nothing to change is that instance.',
  ['inputs', 'configurations'],
  'for up to 3 mappings and keywords with arbitrary overlapping keys and values, arbitrary foreign objects (any subset of '
  'attributes present), every Select operation, frozen and mutable classes',
  'tests use single mappings and one override; precedence with overlaps, missing attributes and non-mutation are sampled at most once',
  [REC, SEL],
  [('from_mapping/from_instance/from_json', REC), ('selection on import', SEL + ':SelectableFactory.run')],
  ['record produced', 'inputs afterwards'])

p('C20', 'Copies and serialised forms reproduce an equal record',
  'For every record whose fields accept their stored values unchanged, rebuilding it from its exported dict, its JSON form, its pickle, its repr (where values allow), '
  'copy.copy or copy.deepcopy gives a record of the same class equal to it. copy shares the field values and '
  'deepcopy shares no mutable value with the original while keeping the sharing structure within what is '
  'copied. A copy of a frozen record may be the record itself; a copy of a mutable one is a distinct object.',
  ['inputs', 'configurations', 'histories'],
  'for records of 1 to 4 fields with arbitrary values (equal to default, nested records, shared containers), frozen '
  'or mutable, with and without validators/coercers, mutated after construction or not, hashed before or not',
  'tests round-trip one or two concrete records without aliasing, defaults or nested values',
  [REC],
  [('copying', REC + ':__copy__/__deepcopy__'), ('pickling', REC + ':__getnewargs_ex__/from_pickle/to_pickle'), ('json', REC + ':to_json/from_json')],
  ['copies', 'loads(dumps())'])

p('C21', 'Assertion validators accept exactly the values that meet the condition',
  'Within accepts a value exactly if it lies inside the bounds with the stated inclusivity, Truth exactly if it is truthy, FullMatch '
  'exactly if the whole string matches the pattern, and a custom assertion exactly if its function says so. An accepted value is '
  'stored unchanged. A refused one raises the configured exception (ValueError by default), or, in warning mode, issues one warning through '
  'warnings or the given logger and is stored unchanged.',
  ['inputs', 'configurations'],
  'for all integers, rationals and IEEE doubles as values and bounds (NaN and infinities included), both inclusivity flags, open '
  'bounds, all strings up to 6 characters against several regular expressions, err as text/exception, warn on/off/logger',
  'tests check six integers; bounds hold for all values and boundary inclusivity only shows exactly at the bounds',
  [BVAL, VAL],
  [('Within.assert_', BVAL), ('FullMatch.assert_', BVAL), ('AssertValidation.inner/_raise', VAL)],
  ['record attribute', 'exception or warning'])

p('C22', 'Clamp and Cyclic bring every value into their interval',
  'Clamp stores the value itself if it lies within its (possibly one-sided) bounds and otherwise the nearest bound (numbers, finite). Cyclic stores a value in '
  '[minimum, maximum) that differs from the argument by a whole number of periods, and the argument itself if '
  'it is already inside. Bounds in the wrong order are refused for Clamp and Within when they are declared.',
  ['inputs', 'configurations'],
  'for all integers and rationals as values and bounds, and all finite IEEE doubles against fixed double bounds',
  'tests evaluate five integers; the interval property must hold at and around every multiple of the period, and under float rounding',
  [BVAL],
  [('Clamp.inner', BVAL), ('Cyclic.inner', BVAL), ('least/greatest', BVAL + ':_Least/_Greatest')],
  ['record attribute', 'declaration outcome'])

p('C23', 'Numeric coercers convert without losing or inventing value',
  'Whole turns a number into the integer it is equal to (or, for floats, the integer it is within rounding distance of) and refuses every '
  'other value; FromInteger gives False for values equal to 0, True for values equal to 1 and refuses all others; ToBytes produces the '
  'integer\'s encoding, which decodes back to the integer, and refuses non-integers and integers that do not fit.',
  ['inputs', 'configurations'],
  'for integers of up to 40 bits, all rationals with denominators up to 6, all IEEE doubles up to 2**20 in magnitude, complex '
  'numbers of such parts, signed and unsigned, both byte orders, fixed and automatic length, non-numbers',
  'tests convert about ten values; rounding and byte-length boundaries are not reached',
  [STD],
  [('Whole/ToBytes', STD), ('BoolFiller', STD)],
  ['record attribute', 'construction outcome'])

p('C24', 'Call-through coercers call their target exactly as declared',
  'Loose, LooseUnpack, LooseUnpackMap, CallCoercion, ClassMethodCoercion, MapCoercion, Falsish and ComposeCoercer apply exactly '
  'the call they describe: the declared target, with the argument (whole, unpacked, as keywords, or ignored) and the extra arguments given at '
  'declaration, inner coercers of a composition last to first. Constrained forms refuse, without calling the target, every '
  'argument that is not of the constrained types; MapCoercion looks keys up in its value map first, then its factories, and refuses others; '
  'Falsish refuses truthy arguments.',
  ['inputs', 'configurations', 'fault_sequences'],
  'for every argument type, unpacked arguments of length 0 to 4 with arbitrary element types, constraint tuples of length 0 to 3 and '
  'variadic, arbitrary extra arguments, targets that return anything or raise',
  'tests call int/float/range on single values; constraint checking must hold for every position and type',
  [STD, COE],
  [('Loose*', STD), ('CallCoercion/MapCoercion/ClassMethodCoercion/ComposeCoercer', COE), ('Falsish', STD)],
  ['calls received by the target', 'record attribute'])

p('C25', 'Subclasses extend records without disturbing their parents',
  'A record subclass has its parents\' fields (in base order) followed by its own, each behaving exactly as where it was declared, '
  'type-checking style, validators and default included; style, frozenness, ordering and unary parsing otherwise are those '
  'the subclass states for itself. Defining a subclass changes nothing in its parents, and redeclaring an inherited field, '
  'inheriting one name from two parents, or altering an inherited field in pre_bind is refused.',
  ['inputs', 'configurations', 'programs'],
  'for hierarchies of depth up to 3 and up to 2 bases with 1 to 3 fields per class, all option combinations per class, '
  'any argument values, class-variable and non-record mixins',
  'tests use one two-level hierarchy per aspect; options and fields of levels combine',
  [REC, FLD],
  [('field collection', REC + ':__init_subclass__'), ('bind only own fields', REC + ':__init_subclass__')],
  ['fields of classes', 'construction outcomes of parent and child'])

p('C26', 'A declaration that could not be enforced is refused at class creation',
  'Declaring coercers on an unchecked field, checked inner types inside an unchecked container, strict checking of '
  'an abstract type, checked parameters of generic classes whose parameters cannot be checked, tokens or checking on a hint that is not '
  'a type, a loose coercer on an abstract type, Final in a mutable class, or no field at all raises at class '
  'creation; so does changing a field after its class is created. Declarations without such a conflict are accepted, and '
  'their checks, wherever in the annotation they are written, take effect.',
  ['configurations', 'programs'],
  'for every combination of container kind, outer style, inner style, class default style, presence of coercers, abstractness and '
  'Annotated/Final/ClassVar nesting order',
  'tests list ten bad declarations; which combinations are refused and which are enforced is a matrix',
  [FILL, TYP, STD, FLD, GET],
  [('bind checks', FILL + ':AnnotatedFiller.bind'), ('container binds', TYP), ('Final/ClassVar handling', FLD + ':from_type_hint')],
  ['class creation outcome', 'enforcement on construction'])

p('C27', 'Field metadata reports tags and defaults truthfully',
  'Every field carries exactly the tags of its annotation, and filtering a class\'s fields by a tag gives exactly those carrying an '
  'equal tag, in order, for inherited fields too. A field has a default exactly if one was declared; is_default says whether a value '
  'equals a non-factory default; tags are equal exactly if their contents are, and then hash alike.',
  ['inputs', 'configurations'],
  'for up to 4 fields with arbitrary tag sets, tag contents of any hashable value, any default, any compared value, inherited or not',
  'tests filter one class by one tag; inherited fields and default comparison are untested',
  [FLD, 'records/tags.py'],
  [('tags', FLD + ':RecordField._apply/FieldDict.filter_by_tag'), ('defaults', FLD + ':has_default/is_default'), ('Tag', 'records/tags.py')],
  ['field attributes', 'filter results'])

p('C28', 'Evaluating coercers only see the declared names and only evaluate strings',
  'Eval evaluates string arguments, once, with no names available other than those declared (and the target type if asked for); '
  'LiteralEval evaluates strings with the literal evaluator only, repeatedly while the outcome is a string. Neither evaluates a non-string, and '
  'an evaluation that fails or gives a wrong type makes the coercion fail.',
  ['inputs', 'configurations', 'fault_sequences'],
  'for every argument type, every outcome of the evaluator (any value of any type, any Exception), every combination of declared names',
  'tests evaluate ten expressions that are well behaved',
  [STD],
  [('Eval', STD), ('LiteralEval', STD)],
  ['evaluator calls', 'record attribute'])

p('C29', 'Field errors keep their type, name the field and chain the cause',
  'When processing the argument of a field raises, construction raises an exception of the same type (ValueError if that type cannot be built '
  'from a message) whose message names that field and whose cause is the original exception; the other fields\' arguments do not change that. '
  'No record is produced, and the class stays usable: later constructions are unaffected.',
  ['inputs', 'configurations', 'fault_sequences'],
  'for every field of classes with 1 to 5 fields, any exception type including ones with unusual constructors, raised by type check, '
  'coercer, validator or nested record',
  'one test matches one field name once',
  [REC],
  [('error wrapping', REC + ':RecordBase.__new__')],
  ['exception type, message and cause'])

p('C30', 'Threads using the same classes, records and factories do not disturb each other',
  'Threads that construct, parse, coerce, validate, export, compare, hash, copy or pickle records of the same classes at the same time, use the same factories, exporters and selections, or define further '
  'classes, get the results they would get one after another, and leave the classes and the shared records as they were.',
  ['schedules', 'inputs'],
  'for every pair of operations, every point at which one thread can be made to wait for the other, and all arguments',
  'tests are single-threaded',
  [REC, SEL, FLD, FILL, TYP, STD],
  [('construction', REC + ':RecordBase.__new__'), ('hash cache', REC + ':RecordBase.__hash__'), ('parsing', REC + ':RecordBase.parse'), ('truth cache of selections', SEL + ':Select.__bool__'),
   ('filling', FILL + ':AnnotatedFiller.fill'), ('class definition', REC + ':RecordBase.__init_subclass__')],
  ['the results of both threads, the shared record and the class afterwards'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P), 'properties')
