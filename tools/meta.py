"""Regenerates properties.jsonl and MANIFEST.json (python3-vt tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

SCH, BASE, EXC, CTX, VAL, TV, CFG = ('oblate/schema.py', 'oblate/fields/base.py', 'oblate/exceptions.py',
                                     'oblate/contexts.py', 'oblate/validate.py', 'oblate/type_validation.py',
                                     'oblate/configs.py')
PRIM, NEST, TYP, STR = ('oblate/fields/primitive.py', 'oblate/fields/nesting.py', 'oblate/fields/typings.py',
                        'oblate/fields/structs.py')

# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], observe_at
P = []


def prop(pid, title, statement, over, text, why, files, mech, observe):
    assert len(title) <= 80, (pid, len(title))
    P.append({'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe, 'hook_needed': None}})


prop('P01', 'A schema admits exactly the valid data and holds exactly the right values',
     'Initializing a schema from a mapping succeeds if and only if every given key names a field (or extra keys are '
     'ignored), every required field is given, and every given value is accepted by its field and validators. On success '
     'every given field holds exactly its deserialized value, every absent field with a default holds the default and every '
     'other field is unset. On failure nothing but ValidationError is raised (TypeError if the data is not a mapping).',
     ['programs', 'inputs', 'configurations'],
     'All schema definitions (every built-in and custom field kind, nesting, inheritance, keys, defaults, none/required, '
     'validators, ignore_extra) and all raw data for them.',
     'The tests initialize a dozen fixed schemas with a few values each; the property ranges over all combinations of field '
     'options and values.',
     [SCH, BASE, PRIM, NEST, TYP, STR],
     [('deserialization of all keys of the raw data', SCH + ': Schema._prepare_from_data'),
      ('deserialization of one value', SCH + ': Schema._load_field_value'),
      ('value_load of each field kind', 'oblate/fields/*.py')],
     ['Schema.__init__ result or exception', 'Schema.get_value_for', 'field attributes'])

prop('P02', 'Failed loads report every offending key, completely and exactly',
     'A ValidationError raised by initialization, update or assignment reports, for each offending key of the raw data, all of '
     'its errors with their documented messages, and reports no other key; errors of nested schemas appear under the path of '
     'the field that holds them. raw(), errors and the printed form of the exception present the same errors, none missing and '
     'none extra.',
     ['programs', 'inputs'],
     'All schema definitions and all raw data with any number and any combination of simultaneous errors, at any nesting depth, '
     'for initialization, update and assignment.',
     'Tests look at one or two errors at a time; losing, duplicating or misplacing an error needs combinations of several '
     'errors, repeated keys, multi-message errors and nesting.',
     [SCH, EXC, NEST],
     [('collection of errors', SCH + ': Schema._prepare_from_data, Schema._update_from_data'),
      ('flattening and rendering', EXC + ': ValidationError._flatten_errors, _raw_std, _make_message'),
      ('nested errors', NEST + ': Object.value_load')],
     ['ValidationError.raw()', 'ValidationError.errors', 'str(ValidationError)'])

prop('P03', 'Updates and assignments are atomic: all or nothing',
     'An update or assignment that fails, for whatever reason, leaves every value of the instance exactly as it was, and one '
     'that succeeds changes exactly the given fields to their deserialized values and nothing else. This holds after every '
     'operation of any sequence of updates, assignments, copies and dumps on an instance.',
     ['histories', 'inputs', 'fault_sequences'],
     'All operation sequences over instances of all schemas, including failures by invalid values, unknown keys, frozen fields '
     'in the middle of an update, foreign exceptions from user code and broken data.',
     'The tests do one failing update of one schema; rollback depends on what failed, when, and on the history before it.',
     [SCH, BASE],
     [('rollback', SCH + ': Schema.update'), ('assignment', BASE + ': Field.__set__')],
     ['Schema.get_value_for', 'Schema.dump'])

prop('P04', 'Update, assignment and initialization judge a value alike',
     'A value given for a field is accepted, deserialized and validated in the same way, with the same messages, whether it is '
     'given on initialization, through update or by assigning the attribute. In particular None, raw validators, validators and '
     'unknown keys are treated alike on all three paths.',
     ['programs', 'inputs'],
     'All fields with all options and validators, and all values, given through the three paths.',
     'No test compares the paths with each other; they are separate code paths in the library, and each is tested with a handful '
     'of values.',
     [SCH, BASE],
     [('eager validators on update', SCH + ': Schema._load_field_value'),
      ('lazy validators on initialization', SCH + ': Schema._prepare_from_data'), ('assignment', BASE + ': Field.__set__')],
     ['result or error of the three operations'])

prop('P05', 'Frozen schemas and frozen fields never change once initialized',
     'After initialization no update, assignment or combination of them changes the value of a frozen field or any value of a '
     'frozen schema, even if the new value is invalid or equal to the current one. Each such attempt raises FrozenError whose '
     'entity is the frozen field or schema and leaves the other fields as they were, while fields that are not frozen stay '
     'changeable.',
     ['histories', 'configurations', 'inputs'],
     'All placements of frozen fields and frozen configurations (inherited, overridden, copied instances and fields, renamed '
     'keys) and all sequences of updates and assignments.',
     'Tests try one assignment and one update on one frozen field and one frozen schema.',
     [SCH, BASE, CFG],
     [('guards', SCH + ': Schema.update, Schema._update_from_data'), ('guard', BASE + ': Field.__set__')],
     ['FrozenError.entity', 'Schema.get_value_for'])

prop('P06', 'dump emits exactly the selected set fields and changes nothing',
     'dump() returns a new dictionary with, for each set field selected by include or exclude (all if neither is given, names '
     'that are not fields are irrelevant), the serialized current value under the dump key of the field, and nothing else. If '
     'serialization of some fields fails, one ValidationError reports all of them, those of nested schemas under their path; '
     'giving both include and exclude is a TypeError. Dumping never changes the instance.',
     ['programs', 'inputs', 'histories'],
     'All schema definitions, all instances in any state reached by updates, all include/exclude sequences, and any set of fields '
     'whose serialization fails.',
     'Tests dump three fixed schemas; selection, dump keys, unset fields, None, and several failing fields are not combined.',
     [SCH, NEST],
     [('selection and serialization', SCH + ': Schema.dump, Schema._dump_fields'), ('nested', NEST + ': Object.value_dump')],
     ['Schema.dump result', 'ValidationError.raw()'])

prop('P07', 'Dumping and loading again gives an equal instance',
     'For a schema whose dump keys are its load keys and whose fields serialize back to something they accept, loading the dump '
     'of an instance succeeds and gives an instance with equal values in every field, and dumping that gives an equal '
     'dictionary. This holds for nested schemas and after any updates.',
     ['programs', 'inputs', 'histories'],
     'All such schemas, nested to any depth, and all instances in any reachable state.',
     'No test loads what was dumped.',
     [SCH, BASE, NEST, PRIM, TYP, STR],
     [('serialization', SCH + ': Schema._dump_fields'), ('deserialization', SCH + ': Schema._prepare_from_data')],
     ['Schema(dump).dump()', 'Schema.get_value_for'])

prop('P08', 'Primitive fields: exact acceptance in strict, documented coercion otherwise',
     'A strict String, Integer, Float or Boolean field accepts exactly the instances of str, int, float or bool and keeps them '
     'unchanged, and rejects everything else. With strict=False it also accepts exactly what str(), int() or float() convert, or '
     'for Boolean what str() turns into one of the configured true or false words, holds the converted value, and reports every '
     'failure of conversion as a validation error of that field, never as another exception.',
     ['inputs', 'configurations'],
     'All values whose str() works (numbers of any size, unicode digits, bytes, subclasses, objects whose conversions to '
     'numbers fail in any way, ...) and all '
     'configurations of strict, true_values and false_values.',
     'Tests use two or three values per field kind; conversion has many edge cases (bool is an int, falsy words, failures other '
     'than ValueError).',
     [PRIM],
     [('conversion', PRIM + ': String/Integer/Float/Boolean._process_value')],
     ['loaded value and its type', 'ValidationError.raw()'])

prop('P09', 'Type expressions accept exactly the conforming values',
     'TypeExpr, Union, Literal, Any, Dict, List, Set and TypedDict fields, and validate_types, accept a value if and only if it '
     'conforms to the given type expression: every element, key and value at every depth is checked, and tuples match in length '
     'and position. Accepted values are kept as they are, the same object.',
     ['inputs', 'programs'],
     'All supported type expressions (typing and builtin generics, unions in any spelling, Optional, Literal, TypedDict, '
     'Sequence, Mapping, fixed and variable tuples, bare generics, Any, plain classes) nested to any depth, and all values.',
     'Tests check a single level with one good and one bad value; acceptance must hold for all nested combinations, positions and '
     'lengths.',
     [TV, TYP, STR],
     [('recursive validation', TV + ': TypeValidator._process_value and handlers'), ('fields', TYP), ('fields', STR)],
     ['field acceptance', 'TypeValidationError'])

prop('P10', 'TypedDict validation honours required, optional, unknown and inherited keys',
     'A dictionary is accepted for a TypedDict if and only if it has every required key, no key that is not declared, and a '
     'conforming value for each given key. Whether a key is required is decided per key, by Required and NotRequired markers and '
     'the totality of the class that declares it, over any inheritance; each missing, unknown or invalid key is reported.',
     ['programs', 'inputs'],
     'All TypedDict definitions (typing and typing_extensions, total and not, markers, up to three layers of inheritance, nested '
     'TypedDicts, unusual keys) and all dictionaries.',
     'Tests use one TypedDict of each totality without inheritance.',
     [TV, STR],
     [('key handling', TV + ': TypeValidator._handle_type_typed_dict'), ('field', STR + ': TypedDict')],
     ['field acceptance', 'error messages'])

prop('P11', 'validate_types reports exactly the offending keys',
     'validate_types raises TypeValidationError if and only if some key of the values is undeclared (unless ignore_extra), some '
     'declared key is missing (unless ignore_missing), or some given value does not conform to its type; the errors name exactly '
     'these keys, and neither argument is changed. Unsupported types never cause a rejection: they are skipped with a '
     'warning, once per type, and silently if the global configuration says so.',
     ['inputs', 'configurations', 'histories'],
     'All mappings of type expressions (supported or not) and values, all flag combinations, any order of calls and '
     'configurations.',
     'Tests call it with one mapping per flag; the warning bookkeeping is process-wide and depends on the history.',
     [TV, CFG],
     [('driver', TV + ': validate_types'), ('warnings', TV + ': TypeValidator._warn_unsupported')],
     ['TypeValidationError.errors', 'warnings'])

prop('P12', 'Prebuilt validators decide exactly their documented predicates',
     'Range accepts exactly the integers between its inclusive bounds (or of the given standard range), Length exactly the '
     'lengths between its bounds, Regex exactly what match, fullmatch or search accepts, Exclude everything but the given '
     'values, and Or what any of its validators accepts. A rejected value is reported with the documented (or configured) '
     'message.',
     ['inputs', 'configurations'],
     'All parameters (zero, negative, equal, swapped bounds, standard ranges with any step, patterns with flags, one or many '
     'excluded values, nested Or) and all values.',
     'Tests use one or two parameter sets per validator with a few values; bounds and falsy parameters need the whole range.',
     [VAL],
     [('predicates', VAL + ': Range, Length, Regex, Exclude, Or')],
     ['acceptance of a field with the validator', 'ValidationError.raw()'])

prop('P13', 'Validators run once each, on the right value, and only when they should',
     'For each given value every raw validator of its field runs once with the raw value, and every other validator once with '
     'the deserialized value, in order of registration, with the schema instance and the load context; validators that are not '
     'raw never run for a value that is None or failed to deserialize, and none run for fields that are not given. ValueError, '
     'AssertionError and FieldError from a validator become errors of that field while the other validators still run; return '
     'values are irrelevant and any other exception propagates as it is.',
     ['programs', 'inputs', 'fault_sequences'],
     'All fields with any number of validators registered in any way (constructor, add_validator, decorator by field or name, in '
     'subclasses, Validator classes), any outcome of each, on initialization, update and assignment.',
     'Tests register one or two validators and look at the resulting error; number, order and arguments of calls over '
     'combinations of outcomes are not observed.',
     [SCH, BASE, VAL],
     [('running', BASE + ': Field._run_validators'), ('scheduling', SCH + ': Schema._load_field_value, _prepare_from_data'),
      ('registration', BASE + ': Field.add_validator; ' + SCH + ': Schema.__init_subclass__')],
     ['log of validator calls', 'ValidationError.raw()'])

prop('P14', 'A nested schema behaves exactly as the schema on its own',
     'An Object field accepts a mapping if and only if its schema, initialized alone with the same init_kwargs, accepts it, then '
     'holds an instance equal to that one, and otherwise reports exactly the errors of that initialization under its own key, at '
     'any depth. An instance of the schema (or of a subclass) is kept as the same object, anything else is rejected, and dumping '
     'gives the dump of the held instance.',
     ['programs', 'inputs'],
     'All schemas, nested to any depth, all values, all init_kwargs; loading, updating, assigning and dumping.',
     'Tests nest one schema in one other; equality with the standalone behaviour is never checked.',
     [NEST, SCH, EXC],
     [('nesting', NEST + ': Object.value_load, Object.value_dump'), ('flattening', EXC + ': ValidationError')],
     ['Object field value', 'ValidationError.raw()', 'Schema.dump'])

prop('P15', 'Subclassing inherits and overrides fields without altering other schemas',
     'A schema has the fields of all its bases, with overriding following the method resolution order, and behaves as a schema '
     'defined in one piece with these fields. Defining a subclass, overriding its fields or adding validators there never changes '
     'how its parents, siblings or their instances behave.',
     ['programs', 'histories'],
     'All inheritance graphs (chains, diamonds, several bases, non-schema mixins) of schemas with overridden fields, keys and '
     'validators for inherited fields, in any order of definition and use.',
     'Tests define one parent and one child.',
     [SCH, BASE],
     [('field collection', SCH + ': Schema.__init_subclass__, Schema._own_inherited_field')],
     ['behaviour of every schema before and after each definition'])

prop('P16', 'A copied instance and its original never affect each other',
     'copy() gives an instance of the same schema with the same values, state and configuration, whose context belongs to the '
     'copy and says it is initialized. Whatever updates, assignments, state changes and copies follow on either of them are never '
     'visible in the other, and both keep behaving as the schema prescribes. (Values are shared, not copied: changing a value '
     'object itself is outside of this.)',
     ['histories'],
     'All schemas, all instances, and all interleavings of operations on any number of copies of copies.',
     'Tests copy once and update once.',
     [SCH, CTX],
     [('copying', SCH + ': Schema.copy'), ('context', CTX + ': SchemaContext._copy')],
     ['Schema.get_value_for, context.state, context.schema of all copies'])

prop('P17', 'Load, dump and data keys only rename',
     'Giving a field a load key, dump key or data key changes only the key under which its value is read from raw data, reported '
     'in errors, or written by dump; loading, updating, dumping, selecting and errors are otherwise those of the same schema '
     'without keys. Attributes, include/exclude and FrozenError refer to field names, and get_value_for accepts the field name '
     'or the load key.',
     ['programs', 'inputs'],
     'All schemas and all assignments of unique keys, including keys that are names of other fields (swaps), empty and unusual '
     'keys; all data.',
     'Tests use one load key and one dump key that clash with nothing.',
     [BASE, SCH, EXC],
     [('keys', BASE + ': Field.load_key, Field.dump_key'), ('lookup', SCH + ': Schema._get_field'),
      ('collection', SCH + ': Schema.__init_subclass__')],
     ['metamorphic comparison with the schema without keys'])

prop('P18', 'Every error names its true key, field, schema and context',
     'Each error in a ValidationError carries the raw-data key, the field, the schema instance and the load or dump context of '
     'the value that caused it, and the ValidationError carries the schema instance of the operation. This holds whatever '
     'happened before or happens in between: nested loads, operations of other schemas inside validators, hooks and default '
     'functions, failed operations, and operations in other threads.',
     ['histories', 'schedules', 'programs'],
     'All schemas and operations, with user code that itself loads, updates, assigns and dumps other schemas at every hook, '
     'histories of failing operations, and concurrent threads.',
     'Attribution travels through process-wide context variables; tests never run operations inside operations, after failures or '
     'in threads.',
     [EXC, SCH, BASE, NEST],
     [('context variables', 'oblate/utils.py'), ('error construction', EXC + ': FieldError.__init__'),
      ('set/reset', SCH + ': Schema.*'), ('set/reset', BASE + ': Field.__set__')],
     ['FieldError.key, .field, .schema, .context', 'ValidationError.schema'])

prop('P19', 'Error customisation is honoured for every error of every field',
     'format_error of a field is consulted for each library error of that field with its documented error code, and a context '
     'carrying the field, the schema instance, the offending value and the documented metadata; its result replaces the message, '
     'and None falls back to the default. Errors raised by user code keep their message, state and, for a list or tuple, become '
     'one error per message; all failures are raised as the configured validation error class, whose raw() may be overridden.',
     ['programs', 'inputs', 'configurations'],
     'All fields, all error situations, all customisations (string, FieldError with state or several messages, None), all '
     'operations, nested or not.',
     'Tests customise one error of a few fields with a string.',
     [BASE, EXC, CTX, CFG, PRIM, STR, TYP, NEST],
     [('dispatch', BASE + ': Field._call_format_error'), ('error context', CTX + ': ErrorContext'),
      ('class', CFG + ': GlobalConfig.validation_error_cls')],
     ['ErrorContext seen by format_error', 'FieldError.message/state', 'class of the exception'])

prop('P20', 'Defaults fill exactly the absent fields and unset fields stay unset',
     'A field that is absent on initialization takes its default, as given or, for a callable, what one call with the schema '
     'context and the field returns, without validation; a field that is given never does, whatever the value (None included), '
     'and updates never do. A field with a default is optional whatever required says; an optional field without one is unset: '
     'reading it raises FieldNotSet (an AttributeError naming the field and schema), get_value_for returns the given fallback, '
     'and it is not dumped.',
     ['programs', 'inputs', 'histories'],
     'All fields, all defaults (falsy, None, invalid, callable), all combinations of required and none, and all data, also '
     'followed by updates.',
     'Tests use one constant and one callable default.',
     [SCH, BASE, EXC],
     [('defaults', SCH + ': Schema._prepare_from_data'), ('unset fields', SCH + ': Schema.get_value_for'),
      ('option', BASE + ': Field.__init__')],
     ['Schema.get_value_for', 'FieldNotSet', 'log of default calls'])

prop('P21', 'Hooks and contexts see the operation as it is',
     'On initialization preprocess_data is called once with the given data and its result is what is loaded; the post-init hook '
     'runs once, after everything succeeded, and never if initialization failed. Each given value is deserialized by one '
     'value_load call and serialized by one value_dump call per dump, with a fresh context carrying the field, schema '
     'instance, raw value, dump selection and whether it is an update, and the validators of a value share the context and state '
     'of its deserialization; on initialization they run after every given value was deserialized. The state given to a schema is '
     'what its context exposes to all of them.',
     ['programs', 'histories', 'inputs'],
     'All schemas with custom fields, validators and hooks, at any nesting, all data, and all operation sequences.',
     'Tests check single attributes of one context in one situation.',
     [SCH, CTX, BASE],
     [('contexts', CTX + ': LoadContext, DumpContext, SchemaContext'), ('hooks', SCH + ': Schema._prepare_from_data')],
     ['arguments recorded by user code at every hook'])

prop('P22', "The caller's data, configuration and definitions are never modified",
     'Initialization, update, assignment, dump, copy and validate_types never modify the objects they are given, whether they '
     'succeed or fail: raw data and everything in it, include and exclude, default values, init_kwargs, type mappings, validator '
     'lists. Nor does using a schema change how it, or any other schema, behaves later: the same operation on the same input has '
     'the same outcome at any later time.',
     ['inputs', 'histories'],
     'All schemas, all inputs (nested containers of every kind, read-only mappings) and all histories of operations, successful '
     'or not.',
     'No test looks at the inputs afterwards or repeats an operation.',
     [SCH, TV, NEST, BASE],
     [('copies of working state', SCH + ': Schema._prepare_from_data'), ('copies', TV + ': validate_types')],
     ['inputs compared with a deep copy', 'repeated operations'])

prop('P23', 'Configuration is inherited, overridable and isolated',
     'A schema has the configuration defined in its body or else that of its base, and options that are not defined have their '
     'defaults; each option has its documented effect (ignore_extra, overridable per call, frozen, slotted, add_repr), and the '
     'configuration of a schema never affects parents, siblings or nested schemas. Global options act on every schema from the '
     'moment they are set, also when the global configuration object is replaced, and invalid values are refused.',
     ['configurations', 'programs', 'histories'],
     'All configurations over all inheritance chains and nestings, all parameters, and all sequences of changes of the global '
     'configuration.',
     'Tests set one option on one schema.',
     [CFG, SCH],
     [('resolution', SCH + ': _SchemaMeta.__new__'), ('options', CFG + ': GlobalConfig, SchemaConfig')],
     ['behaviour of schemas', 'repr', 'exceptions'])

prop('P24', 'Field copies and validator lists behave as independent lists',
     'add_validator, remove_validator, clear_validators and walk_validators behave as operations on two ordered lists, raw and '
     'not raw, and loading runs exactly the validators they hold at that time. copy() gives an unbound field with the same '
     'options and validators that can be used in any schema; changes of the validators of either are never seen by the other, and '
     'a field that is in a schema cannot be put into another one.',
     ['histories', 'programs'],
     'All sequences of validator operations and copies over any number of fields of all kinds, interleaved with loading.',
     'Tests add and remove one validator once.',
     [BASE],
     [('validator lists', BASE + ': Field.add_validator, remove_validator, clear_validators, walk_validators'),
      ('copying', BASE + ': Field.copy, Field._bind')],
     ['walk_validators', 'validator calls during loading', 'RuntimeError on reuse'])

prop('P25', 'Extended fields, validators and schemas compose with what they extend',
     'A field subclass whose value_load passes a transformed value to the inherited value_load, or transforms its result (and back '
     'in value_dump), loads, updates, assigns, rejects and dumps like the inherited field on the transformed value, with the same '
     'errors, at any depth; the held and dumped values are what the subclass returned. Errors that a subclass catches have no '
     'effect. Subclasses of prebuilt validators judge the value they pass on, and overridden __init__, update and dump of a schema '
     'are used for nested schemas too.',
     ['programs', 'inputs', 'histories'],
     'All fields, validators and schemas, all ways of extending them by delegation, and all values, nested and inherited.',
     'Tests define custom fields from scratch and extend no prebuilt one.',
     [PRIM, NEST, TYP, STR, BASE, SCH, VAL],
     [('the value to load', PRIM + ': value_load'), ('nested schemas', NEST + ': Object.value_load, value_dump'),
      ('results of value_load and value_dump', SCH + ': Schema._load_field_value, _dump_fields')],
     ['held values', 'dumped values', 'ValidationError.raw'])

prop('P26', 'Misuse is refused with the documented exception and changes nothing',
     'Definitions and calls that cannot be honoured are refused: contradictory or missing arguments of validators and fields, objects '
     'that are no validators, validators for unknown fields, fields that are in a schema already, unknown names, include together '
     'with exclude, invalid configuration values raise TypeError or RuntimeError; unimplemented methods raise NotImplementedError '
     'and a format_error of the wrong type TypeError. All existing schemas, fields, validators, configurations and instances stay '
     'as they were and work as before.',
     ['programs', 'histories'],
     'All kinds of misuse with all arguments, at any point of the use of any schemas.',
     'The refusing branches are excluded from the coverage of the tests (pragma: no cover).',
     [SCH, BASE, VAL, CFG, NEST, TYP, STR],
     [('refused definitions', SCH + ': Schema.__init_subclass__'), ('refused arguments', VAL + ': Range, Length, Regex'),
      ('refused configuration', CFG + ': GlobalConfig'), ('bound fields', BASE + ': Field._bind, add_validator')],
     ['exceptions', 'behaviour of existing schemas afterwards'])

prop('P27', 'Operations on different instances never influence each other',
     'Whatever operations other instances, of the same or other schemas, are in the middle of in other threads, an operation has the '
     'outcome it has alone: the same result or exception with the same errors, the same held and dumped values and the same calls of '
     'user code with the same arguments and contexts. This holds for every interleaving of initializations, updates, assignments, '
     'dumps, copies and type validations.',
     ['schedules', 'programs', 'inputs'],
     'All schemas and data, all operations of several threads on instances of their own, and all points of the code at which they are '
     'switched.',
     'No test runs two operations at the same time; state kept on a class, field, validator or in a module in the course of an '
     'operation shows only when another operation comes in between.',
     [SCH, BASE, EXC, CTX, VAL, TV],
     [('state of the current operation', 'oblate/utils.py: current_schema, current_field_key, current_context'),
      ('processing of data', SCH + ': Schema._prepare_from_data, Schema._update_from_data, Schema._dump_fields'),
      ('validation', TV + ': TypeValidator'), ('errors', BASE + ': Field._call_format_error')],
     ['results and exceptions of each thread', 'calls of user code'])

NOTE = ('Generated-input search: no violation among the cases generated from the seed (see the evidence for how many and of '
        'which classes), each decided by {}. Trusts the oracle in /verif/lib and CPython; says nothing about cases outside the '
        'generators, listed in DESIGN.md.')
ORACLE = {
    'P01': 'a reference model of schemas (lib/model.py)', 'P02': 'the reference model\'s error tree',
    'P03': 'the reference model stepped along an operation history', 'P04': 'comparison of the three paths and the model',
    'P05': 'the reference model and before/after snapshots over histories', 'P06': 'the reference model of dump',
    'P07': 'the round trip itself', 'P08': 'Python\'s own conversions as reference',
    'P09': 'an independent decision procedure for type expressions (lib/texpr.py)',
    'P10': 'an independent decision procedure for TypedDicts', 'P11': 'an independent model of validate_types',
    'P12': 'reference predicates', 'P13': 'a model of the expected validator calls',
    'P14': 'comparison with the standalone schema', 'P15': 'a flat re-definition and before/after comparison',
    'P16': 'a model of independent copies', 'P17': 'comparison with the schema without keys',
    'P18': 'attribution recorded in the generated program', 'P19': 'a model of the expected errors and contexts',
    'P20': 'a model of defaults', 'P21': 'a model of the expected hook calls', 'P22': 'deep snapshots and repetition',
    'P23': 'a model of configuration', 'P24': 'a list model',
    'P27': 'the same operations performed alone',
    'P25': 'comparison with the plain schemas on plain data', 'P26': 'before/after snapshots and the reference model',
}
TECH = {
    'P03': 'stateful model-based property testing', 'P05': 'stateful model-based property testing',
    'P07': 'round-trip property testing', 'P14': 'differential property testing', 'P15': 'metamorphic property testing',
    'P16': 'stateful model-based property testing', 'P17': 'metamorphic property testing',
    'P18': 'property testing with re-entrant hooks, histories and threads', 'P22': 'invariant property testing over histories',
    'P25': 'metamorphic property testing', 'P27': 'differential property testing over controlled thread schedules',
    'P24': 'stateful model-based property testing', 'P04': 'differential property testing',
}


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fp:
        for p in P:
            fp.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        pid = p['id']
        if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')):
            checks.append({
                'property': pid, 'quick_cmd': 'python3-vt check.py ' + pid,
                'thorough_cmd': 'python3-vt check.py %s --thorough' % pid,
                'evidence_file': 'evidence/%s.json' % pid,
                'technique': TECH.get(pid, 'model-based property testing') + ' (Hypothesis)',
                'level': 'exploration', 'level_note': NOTE.format(ORACLE[pid])})
        else:
            na.append({'property': pid, 'reason': 'The check is not built yet.'})
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fp:
        json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import hypothesis"', 'checks': checks,
                   'not_applicable': na}, fp, indent=1)
        fp.write('\n')


if __name__ == '__main__':
    main()
