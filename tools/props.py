"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
J = 'jsonclasses/jsonclassify.py'
I = 'jsonclasses/modifiers/instanceof_modifier.py'
M = 'jsonclasses/modifiers/'
P = []


def prop(id, title, statement, over, text, why, files, mech, bound, assume):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={'over': over.split(), 'text': text},
                  why_tests_cant=why,
                  anchors={'files': files,
                           'mechanism': [{'name': n, 'where': w}
                                         for n, w in mech]},
                  _bound=bound, _assume=assume))


prop('C01', 'Change tracking is complete and never reports untouched fields',
     'After any sequence of assignments, batch writes and in-place changes to '
     'lists and dicts at any depth, every field of a saved object whose value '
     'or stored reference key differs from its last unmodified state is '
     'reported as modified, and the object reports being modified. A field '
     'that was never touched since then is never reported, a brand new object '
     'reports nothing, and temporary fields are left out of the persisted '
     'report. A change in place is reported by the key path of the list or '
     'dict that was changed.',
     'histories', 'every history of writes to one object or to linked objects',
     'Tests sample single mutations; a missed notification needs a particular '
     'combination of field kind, nesting, mutator and previous writes.',
     [J, 'jsonclasses/olist.py', 'jsonclasses/odict.py'],
     [('attribute assignment hook', J + ':__setattr__'),
      ('owned container callbacks', J + ':__olist_add__ / __odict_add__'),
      ('key maintenance on unlink', J + ':__unlink_field__')],
     'all histories of depth 2 over ~110 operations on an object with every '
     'field kind, depth 3 per field group, depth 2-3 on linked object graphs',
     ['assigning a value equal to the current one is a no-op (by design)',
      'changes inside an embedded object are tracked by that object'])
prop('C02', 'Previous values and reset restore the last unmodified state',
     'For a class that enables resetting, after any sequence of changes to '
     'plain (non relationship) fields - including nested in-place changes of '
     'lists and dicts - the recorded previous value of each changed field '
     'equals its value at the last unmodified point, and resetting restores '
     'exactly those values and reports no modification. Primary keys and fields with a '
     'comparer record their previous value the same way without class wide '
     'resetting; other fields record none. Resetting a new object or a class '
     'that does not enable it is refused without changing anything.',
     'histories', 'every history of writes, unmodified marks and resets',
     'Tests reset after one or two writes; aliasing between the recorded and '
     'the live container needs deeper histories.',
     [J, 'jsonclasses/outils.py'],
     [('reset', J + ':reset'), ('snapshot before change',
                                J + ':__olist_will_change__'),
      ('snapshot on assignment', J + ':__setattr__')],
     'all histories of depth 3 per field group (plain, nested, any, union, '
     'temp, readonly)', ['relationship fields are outside this property'])
prop('C03', 'Owned lists and dicts behave exactly like builtin ones',
     'Every mutating operation on a list or dict held by an object - at any '
     'nesting depth, with any index, slice, iterable or keyword form - has the '
     'content, result, ordering and exception of the same operation on a '
     'builtin list or dict. Containers inserted later are tracked like the '
     'original ones, and other fields are not affected.',
     'histories inputs', 'every operation sequence, argument and nesting',
     'Unit tests check one call per mutator on one flat container; index '
     'arithmetic, one-shot iterables and nested insertion need the product.',
     ['jsonclasses/olist.py', 'jsonclasses/odict.py', 'jsonclasses/outils.py',
      J],
     [('list mutators', 'jsonclasses/olist.py:OwnedList'),
      ('dict mutators', 'jsonclasses/odict.py:OwnedDict'),
      ('re-owning inserted containers', J + ':__olist_add__')],
     'full mutator alphabet (about 70 list, 25 dict operations) to depth 2-4 '
     'on 7 container shapes x 4 ways of installing the container',
     ['value semantics: a container inserted twice becomes two containers'])
prop('C04', 'Both ends of a relationship always agree',
     'After any sequence of assignments and list operations on either end of a '
     'one-to-one, one-to-many or many-to-many relationship, an object is '
     'linked from one end exactly when it links back from the other end. '
     'Cardinality is respected - linking to a new partner takes the object '
     'away from its previous one - and relationships that were not addressed '
     'are unchanged, even between objects with equal content or without '
     'primary keys.',
     'histories', 'every sequence of link operations from both ends',
     'Tests link a couple of objects once; stealing, re-linking, slices and '
     'equal objects appear only in longer histories.',
     [J, 'jsonclasses/jfield.py', 'jsonclasses/cdef.py'],
     [('linking', J + ':__link_field__'),
      ('unlinking', J + ':__unlink_field__'),
      ('foreign field resolution', 'jsonclasses/jfield.py:_do_resolve_foreign')
      ],
     'all histories of depth 2-4 on 6 relationship shapes with 3-5 objects, '
     'with and without keys, new and saved',
     ['the same object is not inserted twice into one list'])
prop('C05', 'Stored reference keys follow the linked objects',
     'Whenever a reference that stores keys links objects, the stored key (or '
     'list of keys, in list order) equals the primary keys of the linked '
     'objects, however the link was made or removed - from either end, by '
     'assignment, batch write or in-place list operation - and the JSON output '
     'shows that key. Writing a key directly unlinks the object it no longer '
     'names, and keys whose objects are not loaded are kept. Input items '
     '{_add: key} and {_del: key} add and remove exactly that key.',
     'histories', 'every sequence of link, unlink and key operations',
     'Tests write keys once and in isolation; stale keys need interleavings '
     'of object and key operations.',
     [J, I], [('key writes', J + ':__setattr__'),
              ('key lists', J + ':__olist_add__ / __olist_del__'),
              ('output', I + ':tojson')],
     'all histories of depth 2-4 on 5 relationship shapes including direct '
     'key operations',
     ['assigning null to an unloaded reference may keep or drop its key'])
prop('C06', 'Same primary key means same object within one graph',
     'When an object is built from, or set with, nested input, occurrences of '
     'the same class and primary key denote one single object carrying the '
     'values of all occurrences, and different keys or classes denote '
     'different objects. Linking objects merges their object graphs so that '
     'every member of the graph sees the same members, and linking two '
     'different objects that claim the same primary key is refused.',
     'inputs histories', 'every nested input shape and link history',
     'Tests use one or two duplicate keys; identity depends on the position '
     'and order of all occurrences.',
     [I, 'jsonclasses/mgraph.py', 'jsonclasses/ograph.py'],
     [('input unification', I + ':transform'),
      ('marks', 'jsonclasses/mgraph.py:MarkClassTable'),
      ('merge', 'jsonclasses/ograph.py:merged_graph')],
     'all placements of up to 4 objects with 3 keys in 4 positions, with '
     'related classes and classes of the same name in other class graphs, '
     'all link sequences over 5 objects to depth 3',
     ['graphs are merged by two-sided relationships'])
prop('C07', 'Unlinked objects are remembered until saved with their owner',
     'Every object taken out of a relationship is listed, on both former '
     'partners, as unlinked under the relationship field until it is linked '
     'again or saved, and nothing else is listed. Saving an object also saves '
     'every object it lost (and what those lost in turn), each at least once, '
     'and leaves nothing listed on the saved objects.',
     'histories', 'every sequence of link, unlink and save operations',
     'Tests save after one unlink; skipped or leaked entries need several.',
     [J], [('bookkeeping', J + ':_add_unlinked_object'),
           ('cascade', J + ':save')],
     'all histories of depth 2-4 on 6 relationship shapes including save',
     ['storage is replaced by a recorder that marks the object unmodified'])
prop('C08', 'Untrusted input never writes protected fields',
     'Building an object from input or batch-setting it, including nested '
     'objects and reference keys and in any key casing, never writes a '
     'read-only or internal field, never changes a write-once field that '
     'already has a value, and never clears a write-nonnull field with null. '
     'All other allowed fields in the same input are written, and a trusted '
     'update can write all of them.',
     'inputs histories', 'every input, nesting and history of batch writes',
     'Tests cover one write rule on one flat field at a time.',
     [I, J], [('write rules', I + ':transform'),
              ('trusted update', J + ':update')],
     'all sequences of 3 batch writes over every subset of keys and values '
     'for each rule, flat, nested, in lists, and for reference keys', [])
prop('C09', 'JSON output never leaks protected fields',
     'The JSON output of an object contains no write-only, internal or '
     'temporary field and no key of a write-only reference, at any depth of '
     'embedded or linked objects, lists and dicts, unless write-only output '
     'was explicitly requested, which never reveals temporary fields. Every '
     'other non-null field is present with its value, and null fields are '
     'present exactly when null output is on.',
     'inputs configurations', 'every object shape and output option',
     'Tests check one level and one option.',
     [I, J], [('output filter', I + ':tojson')],
     'all combinations of rule x position (8 positions) x options x values',
     [])
prop('C10', 'Unknown input keys are rejected exactly when input is strict',
     'When input is strict, building or batch-setting an object with a key '
     'that names no field (in Python or JSON casing) and no reference key '
     'raises a validation error naming the key path, at any depth; when it is '
     'not strict the key is ignored and everything else is applied. Each '
     'object follows the setting of its own class (strict by default) unless '
     'the field holding it is marked strict, and every legal key is always '
     'accepted.',
     'inputs configurations', 'every key set, depth and strictness setting',
     'Tests cover one unknown key per setting.',
     [I, 'jsonclasses/cdef.py', 'jsonclasses/jconf.py'],
     [('check', I + ':_strictness_check'),
      ('legal names', 'jsonclasses/cdef.py:_resolve_ref_names')],
     'all class/field strictness settings x positions x key alphabets', [])
prop('C11', 'JSON output fed back as input reproduces the object',
     'For every object, building a new object from its JSON output yields '
     'equal field values (dates, datetimes, enums, nested containers, '
     'embedded objects and reference keys included; datetimes in UTC to the '
     'millisecond) and the same JSON output again. Output is plain JSON with '
     'keys in the configured casing, and input accepts both casings.',
     'inputs configurations', 'every value of every field type and casing',
     'Tests round-trip single types with one value.',
     [I, M + 'datetime_modifier.py', M + 'date_modifier.py',
      M + 'enum_modifier.py', 'jsonclasses/keypath.py'],
     [('output', I + ':tojson'), ('input', I + ':transform')],
     'product of value alphabets over all field types x casing configs', [])
prop('C12', 'Validation accepts exactly the values its rules allow',
     'For every built-in validation rule and parameter, validating an object '
     'succeeds exactly when the value satisfies the documented rule (null '
     'passes unless the field is required or present), whatever the value and '
     'its type, and a failure is always a validation error naming the field.',
     'inputs configurations', 'every rule, parameter and value',
     'Tests check one accepting and one rejecting value per rule.',
     [M], [('modifiers', M + '*_modifier.py')],
     'every validator x parameter grid x value alphabet (boundaries, empty, '
     'wrong types, null)', ['third party formats use a reference grammar'])
prop('C13', 'Transformations compute their documented result',
     'For every built-in transformation and parameter, setting a field yields '
     'the documented result for every input value, null stays null unless '
     'documented, chained transformations apply left to right, and the input '
     'object given by the caller is not changed.',
     'inputs configurations', 'every transformation, parameter and value',
     'Tests check one or two values per transformation.',
     [M], [('modifiers', M + '*_modifier.py')],
     'every transformer x parameter grid x value alphabet; all chains of '
     'length 3 of a transformer set', [])
prop('C14', 'Modifier chains run each phase exactly once and in order',
     'In any chain of modifiers, those before the eager point are applied and '
     'validated when a value is set, those between the eager point and the '
     'save point are applied when set and validated on validation, and save '
     'hooks and validations from the save point on run only when saving, each '
     'exactly once and in order. Validation alone never changes a value.',
     'programs', 'every chain of markers, transformers and validators',
     'Tests use fixed short chains.',
     [M + 'chained_modifier.py'],
     [('phases', M + 'chained_modifier.py:ChainedModifier')],
     'all chains of length <= 4 over a 7 symbol modifier alphabet', [])
prop('C15', 'Validation reports every failing path, or exactly the first',
     'Validating with all fields reports the key path of every invalid field '
     'at every depth - embedded and linked objects, lists, dicts - and no '
     'valid one; otherwise exactly one failing path is reported, the first in '
     'declaration order. An object is valid exactly when nothing is reported, '
     'the outcome does not change any value, and unmodified fields of a saved '
     'object are not revalidated.',
     'inputs configurations', 'every placement of invalid values and options',
     'Tests place one or two errors.',
     [I, M + 'collection_type_modifier.py', 'jsonclasses/vmsgcollector.py'],
     [('object', I + ':validate'),
      ('collections', M + 'collection_type_modifier.py:validate')],
     'all subsets of 8 error positions x option sources', [])
prop('C16', 'Saving and deleting run their steps in order and stop at failure',
     'Saving checks permission, runs create or update callbacks, validates, '
     'applies save-time values, then writes, and only then saves the objects '
     'it lost, in this order, each step once; deleting checks permission, runs callbacks and then deletes. When any '
     'step fails nothing after it happens - in particular nothing is written '
     'or deleted - and a later retry behaves like a first attempt.',
     'fault_sequences histories', 'every failing step and history',
     'Tests run the success path.',
     [J], [('save', J + ':save'), ('delete', J + ':delete')],
     'every subset of failing steps x new/saved x options, all histories of '
     'save/delete/modify of depth 3', ['storage is a recorder'])
prop('C17', 'Object permissions are enforced before any effect',
     'Creating, updating, deleting and reading an object succeeds only if '
     'every permission rule of the class for exactly that action allows the '
     'current operator; with rules and no operator it is refused. A refused '
     'action has no effect: no callback, no validation, no write, no output.',
     'inputs configurations', 'every rule list, verdict and operator',
     'Tests use single rules.',
     [J], [('guards', J + ':_can_cu_check_common')],
     'all lists of up to 3 rules with every verdict kind x 4 actions x '
     'operator present/absent', [])
prop('C18', 'Field permissions guard exactly their field and action',
     'A plain field with create, update or read permission rules can be saved '
     'with a value on a new object, saved after a change on a saved one, or '
     'included in the output only when its rules allow the operator, which '
     'they are asked with that value and the object owning it. Without an '
     'operator it is refused; unguarded fields, unchanged fields of saved '
     'objects and other actions are never refused.',
     'inputs configurations', 'every rule, verdict, state and operator',
     'Tests use one rule kind.',
     [M + 'cancu_modifier.py', M + 'canr_modifier.py'],
     [('create/update', M + 'cancu_modifier.py'),
      ('read', M + 'canr_modifier.py')],
     'all rule kinds x verdicts x new/saved/changed x operator x position of '
     'the object', ['relationship fields are outside this property: their '
                    'rules are asked with the linked object as owner'])
prop('C19', 'Class resolution is independent of definition order and isolated',
     'Classes and enums refer to each other by name within their class graph '
     'with the same behaviour for every order of definition and every order '
     'of first use. Names in different class graphs never interfere, a second '
     'class (or enum) of the same name in one graph is refused leaving the '
     'first intact, and using an unknown name is reported as an error until '
     'the name gets defined.',
     'programs histories', 'every definition order and first-use order',
     'Tests define classes in one order.',
     ['jsonclasses/cgraph.py', 'jsonclasses/cdef.py', 'jsonclasses/fdef.py',
      'jsonclasses/rtypes.py'],
     [('registry', 'jsonclasses/cgraph.py:CGraph'),
      ('late resolution', 'jsonclasses/cdef.py:_resolve_types')],
     'all permutations of definition order and of first-use order of a four '
     'class + enum system declared by annotations, by types chains and by '
     'shared types; all definition orders of two same-named systems in two '
     'graphs; all early uses before definitions are complete; all positions '
     'of a second definition', [])
prop('C20', 'Concurrent definition and first use of classes give the sequential results',
     'When several threads define classes of one graph, or use freshly '
     'defined classes for the first time, at the same moment, every operation gives the result it would give alone, '
     'under every interleaving, and the classes keep working afterwards.',
     'schedules', 'every interleaving within the preemption bound',
     'Tests are single threaded.',
     ['jsonclasses/fdef.py', 'jsonclasses/cdef.py', 'jsonclasses/jfield.py',
      'jsonclasses/cgraph.py'],
     [('lazy item types', 'jsonclasses/fdef.py:item_types'),
      ('lazy references', 'jsonclasses/cdef.py:_resolve_ref_types_if_needed')],
     'two real threads under a controlled scheduler: one preemption at the '
     'first execution of every source line per receiver object, for each '
     'pair of operations; two preemptions within the resolution code in the '
     'thorough tier',
     ['line granularity, global interpreter lock'])
prop('C21', 'Objects never share mutable state with inputs, outputs or peers',
     'Changing containers that were passed in, containers that were returned '
     'as JSON output, or default values seen on one object never changes '
     'another object, the class or later outputs, and changing the object '
     'never changes them.',
     'histories inputs', 'every container, direction and history',
     'Tests never mutate inputs or outputs afterwards.',
     [I, 'jsonclasses/outils.py', M + 'collection_type_modifier.py'],
     [('copy on set', 'jsonclasses/outils.py:to_owned_list'),
      ('output', I + ':tojson')],
     'every container path x mutation x entry point (build, set, assign, '
     'update, output, default)', [])
prop('C22', 'Cyclic object graphs are handled completely and terminate',
     'Validating, serialising for save, and producing output of any linked '
     'object graph terminates, and validation and save-time processing treat '
     'each reachable object exactly once with its own values. Output of a '
     'cycle stops at repeated classes instead of recursing.',
     'programs inputs', 'every graph shape up to the bound',
     'Tests use one two-object cycle.',
     [I, 'jsonclasses/mgraph.py'],
     [('visited marks', 'jsonclasses/mgraph.py:MGraph'),
      ('class chain', I + ':tojson')],
     'all link graphs over 3-4 objects of one class (single, list and join '
     'references), over three mutually linked classes, and through embedded '
     'objects, from every start object, with every single invalid or changed '
     'object; all chains of four classes whose links and reverses share names',
     ['changes inside embedded objects of persisted objects are not '
      'propagated by design'])
prop('C23', 'Equivalent type declarations behave the same',
     'A field declared by a plain annotation, a string annotation, an '
     'optional or union form, or the explicit chain accepts, rejects, '
     'converts and outputs exactly the same values.',
     'programs inputs', 'every declaration form and value',
     'Tests check definitions, one form at a time.',
     ['jsonclasses/rtypes.py'], [('parsing', 'jsonclasses/rtypes.py:to_types')],
     'all declaration forms of types up to nesting 2 x value alphabet', [])
prop('C24', 'Configuration and inheritance are isolated per class',
     'Every class setting applies to exactly the class that declares it, with '
     'the defaults of its graph otherwise, whatever other classes exist. A '
     'subclass has the fields of its bases plus its own, changing one never '
     'affects the other, and an abstract class cannot be instantiated while '
     'its subclasses can.',
     'programs configurations', 'every setting combination and class family',
     'Tests check one setting at a time.',
     ['jsonclasses/jconf.py', 'jsonclasses/cdef.py',
      'jsonclasses/jsonclass.py'],
     [('settings', 'jsonclasses/jconf.py:JConf')],
     'all on/off combinations of settings on base and subclass', [])
prop('C25', 'Operators are assigned and checked as declared',
     'Assigning an operator to a new object fills every operator-assigned '
     'reference key, directly or through its one- or two-argument '
     'transformer. Validation refuses a new object, or an object whose '
     'operator-assigned key was changed, when the operator does not satisfy '
     'it. A saved object is never reassigned, and clearing the operator '
     'changes no field.',
     'histories configurations', 'every history of operator assignments',
     'Tests assign one operator once.',
     [J, M + 'asop_modifier.py', M + 'asopd_modifier.py'],
     [('assign', J + ':opby'), ('check', M + 'asop_modifier.py')],
     'all histories of depth 3 over operators and states', [])
prop('C26', 'Picking and omitting select exactly the requested output',
     'After any sequence of picks and omits the JSON output of an object, '
     'wherever it is output, contains exactly the fields of the last pick '
     '(all fields without one) minus those omitted since, among the fields '
     'that are normally visible, with unchanged values. Other objects, the '
     'class and the values and state of the object itself are not affected.',
     'histories', 'every sequence of picks and omits',
     'Not covered by tests.',
     [J, I], [('pick', J + ':pick'), ('omit', J + ':omit'),
              ('output', I + ':tojson')],
     'all subsets of 8 fields, all sequences of length 2-3 over all '
     'subsets of 4 and 2 fields, all selections in nested objects', [])
prop('C27', 'Key path writes change exactly the addressed value',
     'Setting a dotted or bracketed key path changes exactly the addressed '
     'element of a nested list, dict or object - tracked as a modification '
     'of that field on the object owning it - and nothing else; a path '
     'through a missing value is refused without changing anything.',
     'inputs histories', 'every path, notation and object shape',
     'Tests set a few paths.',
     [J, 'jsonclasses/keypath.py'],
     [('key path set', J + ':_keypath_set')],
     'all paths up to length 5 in all mixed notations over one nested '
     'object, all pairs of 21 paths',
     ['values are given in their final form',
      'paths through any and union fields are not covered'])
prop('C28', 'Calculated fields always reflect the current values',
     'Reading or outputting a calculated field gives the value computed from '
     'the object at that moment, after any history of changes. Untrusted '
     'input never writes it; assigning it goes through its setter only, '
     'exactly once, and is refused when it has none, changing nothing. It '
     'is never stored and never listed as modified.',
     'histories', 'every history of writes and reads',
     'Tests read once.',
     [J, M + 'getter_modifier.py', M + 'setter_modifier.py'],
     [('read', J + ':__getattribute__'), ('write', J + ':__setattr__')],
     'all histories of depth 3 over 19 operations, base and subclass', [])
prop('C29', 'Save hooks run once, with the right value and owner',
     'Saving an object runs each save hook of its plain value fields, and of '
     'those of every linked or embedded object, exactly once in chain order, '
     'with the current (and previous) value of the field and the object '
     'owning it: hooks of new or changed objects always, write hooks for new '
     'objects and changed fields, update hooks for changed fields of saved '
     'objects, forced hooks even on unchanged objects, which are not touched '
     'otherwise. What a setting hook returns is stored after passing the '
     'checks behind it, or the save fails before anything is written.',
     'programs inputs', 'every hook, position and object state',
     'Tests attach one hook to a flat object.',
     [M + 'onsave_modifier.py', M + 'onupdate_modifier.py',
      M + 'onwrite_modifier.py', M + 'setonsave_modifier.py', I],
     [('save phase', I + ':serialize')],
     '16 hook kinds and arities x 6 positions x 7 x 7 object states, all '
     'chains of 3 hooks and checks, up to 3 objects below one root',
     ['storage is replaced by a recorder',
      'hooks on fields that hold objects are not covered'])
prop('C30', 'User configuration lookups return exactly the stored values',
     'Reading user configuration by any chain of underscored keys and '
     'indexes, however it is written, gives exactly the value in the '
     'configuration file; a string that is an environment reference gives '
     'the value of that variable as it is, and loading fails naming the '
     'variable when it is not defined; anything missing gives null.',
     'inputs', 'every configuration tree and access path',
     'Tests read a few keys.',
     ['jsonclasses/uconf.py'], [('lookup', 'jsonclasses/uconf.py')],
     'all trees of depth 2 (thorough: 3) over a small alphabet, all leaf '
     'kinds and key spellings, all spellings of all paths of length 3',
     ['scratch directory'])
prop('C31', 'Defaults fill exactly the fields the input leaves out',
     'Building an object gives each field missing from the input its default '
     '(plain, computed or chain default, passed through the rest of its '
     'chain), evaluated anew per object and never shared between objects. '
     'Given non-null values, including falsy ones, are never replaced by '
     'defaults; a field protected from input gets its default. The same '
     'holds for every object created from nested input. Batch-setting leaves '
     'all fields it does not name as they are.',
     'inputs', 'every subset of given fields and default kind',
     'Tests check one default.',
     [I, M + 'default_modifier.py', 'jsonclasses/cdef.py'],
     [('fill', I + ':_fill_default_value')],
     '26 default kinds alone and in pairs, all combinations of 5+5 of '
     'them over missing/given/falsy/null, nested objects, time stamps',
     ['null given to a field with a chain default is not covered'])
prop('C32', 'Uploads are stored once, under a fresh name, in the configured place',
     'Uploading a file with any file name through the local uploader stores '
     'exactly the given content in one new file inside the configured '
     'directory, never outside it and never over an existing file, keeps the '
     'lower-cased extension, and returns the public URL of that file. The '
     'cloud uploader sends it once to the configured bucket under such a '
     'name. Each configured name gets its own uploader; unknown or '
     'incomplete configurations are refused.',
     'inputs histories', 'every file name and upload history',
     'Tests do not touch the uploader.',
     ['jsonclasses/uploaders.py'], [('store', 'jsonclasses/uploaders.py')],
     'all file names of up to 3 (thorough: 5) tokens over a path alphabet, '
     'all upload histories of length 2',
     ['runs unprivileged in a scratch directory; the cloud client is a '
      'recorder'])

prop('C33', 'Loading related objects asks for exactly the stored keys and reports no change',
     'Including a reference field asks the storage layer one question: by the '
     'stored key, the stored list of keys, or the primary key of this object '
     'under the key name of the field at the other end (through a join table '
     'too). The answer is assigned to the field and linked back, nothing else '
     'of the object changes, and its new and modified status and modified '
     'fields are the ones it had. Completing a partial object fetches once, '
     'a full object never, with the status preserved. A chain that walks '
     'over a reference loads it only when it is not loaded yet. Fetching by '
     'a field value asks once for the declared class with the value of the '
     'object owning the field, and validation fails when there is none. '
     'Clearing temporary fields empties exactly these.',
     'inputs histories', 'every reference kind, key state, stored content and object status',
     'Tests have no storage layer; include is not called at all.',
     [J, 'jsonclasses/modifiers/fobj_modifier.py'], [('load', J)],
     'all stored contents of 0-2 matching, 0-1 foreign and 0-1 unkeyed rows '
     'x 6 reference kinds x 5 object states x key naming strategies x '
     'reset_all_fields x one or two loads',
     ['storage layer is an in-memory stub with the documented query methods'])

prop('C34', 'Definitions report exactly the declared marks',
     'The definition of a field reports exactly the marks given in its '
     'declaration, wherever in the chain they stand: type, storage, keys and '
     'join table of a relationship, delete rule (an explicit one wins over '
     'the nullify default of links), read and write rules (the last one '
     'counts), index and unique marks with all their names, enum input forms '
     '(added up) and output form (the last one), required, nullability, '
     'operator, authorization and copy marks. Extending a chain never changes '
     'the chain it extends. The definition of a class lists its fields under '
     'exactly the groups their marks put them in, in order of declaration, '
     'with the reference key names of its naming strategies, and a reference '
     'field knows the field at the other end of its relationship and no '
     'other one.',
     'inputs', 'every chain of marks, class and pair of related fields',
     'Tests check one mark at a time on one field; marks interact through '
     'copied definitions, and pairs of fields between the same classes are '
     'told apart by their names alone.',
     ['jsonclasses/fdef.py', 'jsonclasses/cdef.py', 'jsonclasses/jfield.py',
      'jsonclasses/types.py'],
     [('define', 'jsonclasses/types.py'), ('cdef', 'jsonclasses/cdef.py')],
     'all chains of up to 2 of 40-60 marks before or after 4 base types (1 '
     'for the other 11), up to 3 (thorough 4) within related groups, classes '
     'of 1 and 9 fields under 2 naming configurations; all combinations of '
     'up to 2 (thorough 3) relationships of 8 kinds between two classes or a '
     'class and itself, in both orders of fields and classes',
     ['enum input marks follow the enum type; a class has one primary field'])

prop('C35', 'Custom functions are told the right value, owner, root and path',
     'A custom function given to any modifier - transformations, validations, '
     'comparisons, computed parameters, permission rules, save hooks, output '
     'formats, as a function or as a chain - is asked in its step about every '
     'value its modifier stands for, wherever it is: in a field, an item of a '
     'list or dict at any depth, a union, in an embedded or linked object. '
     'It is given exactly that value, the object owning the field, the '
     'object the operation was started on, its current operator, and the path '
     'from there to the value in field names and in output names.',
     'inputs', 'every kind of function, position, operator and object state',
     'Tests give functions to single fields of one object and ignore most of '
     'what they are told.',
     ['jsonclasses/ctx.py', 'jsonclasses/modifiers/instanceof_modifier.py',
      'jsonclasses/modifiers/collection_type_modifier.py'],
     [('context', 'jsonclasses/ctx.py:Ctx')],
     '22 kinds of functions and steps, 10 shapes of nested data (thorough: '
     'all pairs of them joined too), 3 operators, 3 histories of the object '
     'and 3 starting objects',
     ['comparing and writing hooks are placed on fields only'])

LEVEL_NOTE = ('exhaustive explicit-state exploration of the real code against '
              'a reference model within the stated bounds')


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'checks'))
            if f[0] == 'c' and f[1:3].isdigit()}
    drop = set()
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            if p['id'] in drop:
                continue
            f.write(json.dumps({k: v for k, v in p.items()
                                if not k.startswith('_')}) + '\n')
    checks, na, meta = [], [], {}
    for p in P:
        i = p['id']
        if i in drop:
            continue
        meta[i] = {'bound': p['_bound'], 'assumptions': p['_assume']}
        if i not in have:
            na.append({'property': i, 'reason': 'check under construction'})
            continue
        checks.append({
            'property': i, 'quick_cmd': f'./check.sh {i} quick',
            'thorough_cmd': f'./check.sh {i} thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': TECH.get(i, 'explicit-state model checking of the '
                                  'implementation: exhaustive bounded '
                                  'exploration of operation histories with '
                                  'replay on real objects against a reference '
                                  'model'),
            'level': 'model_checking',
            'level_note': LEVEL_NOTE + ': ' + p['_bound']})
    man = {'version': 1, 'setup_cmd': 'true', 'checks': checks,
           'not_applicable': na,
           'notes': 'Every check imports the code from /repo and explores it '
                    'exhaustively within its bound; known-findings.txt lists '
                    'the repaired defects.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')
    with open(os.path.join(HERE, 'checks', 'meta.json'), 'w') as f:
        json.dump(meta, f, indent=1)
        f.write('\n')


ENUM = ('bounded exhaustive enumeration of inputs and configurations executed '
        'on the implementation and compared with a reference model')
TECH = {i: ENUM for i in ('C09 C10 C11 C12 C13 C14 C15 C17 C18 C19 C21 C22 C23 C24 '
                          'C26 C28 C29 C30 C31 C32 C33 C34 C35 C06').split()}
TECH['C20'] = ('stateless model checking: controlled scheduler enumerating '
               'all thread interleavings within a preemption bound on the '
               'implementation')
TECH['C16'] = ('exhaustive fault injection: every failing step of every '
               'bounded history, executed on the implementation')

if __name__ == '__main__':
    main()
