"""The properties: one source for properties.jsonl and MANIFEST.json (tools/build.py)."""

TECH = 'symbolic execution of the real source with SMT-discharged assertions (z3), replayed'
INPUTS, CONFIGS, HIST, PROGS = 'inputs', 'configurations', 'histories', 'programs'


def P(id, title, statement, over, text, why, files, mechanism, note, state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mechanism=mechanism, note=note, state=list(state))


CLAIMED = [
    P('C01', 'Joining fields into a path and splitting it is lossless',
      'Any sequence of non-empty field strings, whatever characters they contain (dots, quotes, '
      'backslashes, whitespace, any unicode), that is joined into a path splits back into exactly '
      'the same fields, for the default and for any other delimiter character.',
      [INPUTS], 'every tuple of field strings and every delimiter character that is not a quote or backslash',
      'The tests join a few hand-written fields; the escaping of quotes, backslashes and delimiters '
      'in combination is a property of all strings.',
      ['marsh/path.py'],
      [('join_fields/escape_field/split', 'marsh/path.py')],
      'up to 2 (thorough 3) fields of bounded length over all of unicode, exhaustive'),
    P('C02', 'Appending or prepending a field adds exactly that one field',
      'For any well-formed path and any non-empty field, appending (prepending) yields a path whose '
      'fields are the old fields followed (preceded) by that field, unchanged; an empty field adds nothing.',
      [INPUTS], 'every well-formed path string and every field string',
      'Tests use plain identifiers; fields with delimiters, quotes or backslashes and the empty path '
      'are only covered by samples.',
      ['marsh/path.py'], [('append, prepend, escape_field', 'marsh/path.py')],
      'paths and fields up to the stated lengths over all of unicode'),
    P('C03', 'Taking the first or last field off a path loses nothing',
      'For any well-formed path, taking the head (tail) returns the first (last) field, unescaped, and '
      'a remaining path with exactly the other fields in order, so a path can be consumed field by '
      'field and rebuilt.',
      [INPUTS], 'every well-formed path string',
      'The equivalence between path traversal and field splitting is over all strings.',
      ['marsh/path.py'], [('head, tail, split, prepend', 'marsh/path.py')],
      'all strings up to the stated length'),
    P('C04', 'Exactly the well-formed strings are paths, with the documented fields',
      'A string is accepted as a path if and only if every quote is closed and no escape is dangling; '
      'its fields are the delimiter separated parts with quotes and escapes resolved and empty parts '
      'dropped, and any other string is refused with a path error.',
      [INPUTS], 'every string and delimiter',
      'The accepted language and its reading is defined over all strings; tests list examples.',
      ['marsh/path.py'], [('split and its scanner', 'marsh/path.py')],
      'compared with an independent grammar on all strings up to the stated length'),
    P('C05', 'Overriding sets exactly one path and leaves its input unchanged',
      'Setting a value at a path returns an element in which selecting that path gives the value and '
      'every other path is unchanged, creating missing mappings on the way and accepting only existing '
      'or next indices for sequences. The input element is never modified, and an impossible path is '
      'refused with a path error.',
      [INPUTS], 'every nested element, path and value',
      'Tests override a few fixed dictionaries; aliasing, negative or out-of-range indices and odd '
      'keys are combinations over all trees and paths.',
      ['marsh/element.py'], [('override and its recursion', 'marsh/element.py')],
      'trees and paths up to the stated depth/width, keys up to the stated length'),
    P('C06', 'Combining overrides extend what is at the path at every depth',
      'A combining override concatenates sequences, unions mappings (the new value winning on '
      'shared keys) and otherwise replaces, at whatever depth the path points to; neither the element nor the value is modified.',
      [INPUTS], 'every element, path of any depth, and value',
      'Tests only combine at the root or one level; depth times shape combinations are unbounded.',
      ['marsh/element.py'], [('override(combine=True), merge', 'marsh/element.py')],
      'trees and paths up to the stated depth/width'),
    P('C07', 'Removing a path deletes exactly the addressed value',
      'Removing an existing path deletes that value and nothing else (later sequence items move up by '
      'one), the input is not modified, and a path that does not exist is refused with a path error. '
      'Setting a fresh key and removing it again restores the element.',
      [INPUTS], 'every element and path',
      'Tests remove a few keys; index arithmetic and aliasing are over all shapes.',
      ['marsh/element.py'], [('remove', 'marsh/element.py')],
      'trees and paths up to the stated depth/width'),
    P('C08', 'Merging keeps the last value given for every path',
      'Merging elements folds left to right: mappings are merged key by key at every depth, sequences '
      'are replaced or concatenated as asked, anything else is replaced by the later value. Merging '
      'with nothing or with an empty mapping is the identity and no input is modified.',
      [INPUTS], 'every sequence of elements',
      'Tests merge a few fixed dictionaries.',
      ['marsh/element.py'], [('merge', 'marsh/element.py')],
      'two trees of the stated depth/width, and folds of several flat mappings'),
    P('C09', 'Selecting walks a path step by step and errors say where it ended',
      'Selecting a path returns the addressed value or is refused with a path error naming the place '
      'at which the walk failed; the walked and remaining part of every step together are always the '
      'full path.',
      [INPUTS], 'every element and path',
      'Tests select a few existing keys and check that errors are raised, not where.',
      ['marsh/element.py', 'marsh/errors.py'],
      [('select, iterative_select', 'marsh/element.py'), ('PathError', 'marsh/errors.py')],
      'trees and paths up to the stated depth/width'),
    P('C10', 'Standardizing changes container types only; missing values are all found',
      'Converting an element to standard containers keeps every key, value and their order at every '
      'depth and leaves the input alone, and an element is reported as having a missing value exactly '
      'when a missing value occurs somewhere in it.',
      [INPUTS], 'every nested element of mappings, sequences, dataclasses and terminals',
      'Structure-preservation over all trees; tests use a handful of trees.',
      ['marsh/element.py', 'marsh/utils.py'],
      [('standardize, has_missing, element type guards', 'marsh/element.py')],
      'trees up to the stated depth/width'),
    P('C11', 'Parsing any text ends with a value or a parse error, nothing else',
      'For every text, each parser (element, terminal, string, sequence, mapping, override, config '
      'names) terminates with a JSON-like value or raises a parse error that is an error of this '
      'library; no other exception escapes. Applying a parsed override likewise only fails with an '
      'error of this library.',
      [INPUTS], 'every string given to every parser entry point',
      'Robustness against arbitrary text needs all strings; tests parse well-formed ones.',
      ['marsh/parse.py', 'marsh/errors.py'], [('element, terminal, sequence, mapping, override', 'marsh/parse.py')],
      'all strings up to the stated length over the syntactically relevant alphabet (all of unicode for terminals and strings)'),
    P('C12', 'Writing a value in command line syntax and parsing it is lossless',
      'Any element rendered in the documented syntax (quoted or escaped strings, brackets or '
      'parentheses, with or without insignificant whitespace) parses back to the same element; a '
      'quoted or escaped string never leaks into the syntax around it.',
      [INPUTS], 'every nested element of mappings, sequences, strings, integers, booleans and null, and every rendering style',
      'Tests parse fixed texts; the interaction of nesting, quoting, escaping and whitespace is over '
      'all elements.',
      ['marsh/parse.py', 'marsh/utils.py'], [('element, sequence, mapping, string, terminal', 'marsh/parse.py')],
      'trees up to the stated depth/width, strings over all of unicode up to the stated length'),
    P('C13', 'Unquoted text is typed by its spelling and numbers keep their value',
      'Unquoted text that spells an integer is exactly that integer however long, a decimal spelling is '
      'that number, null/true/false in any letter case are the constants, and everything else, as well '
      'as anything in quotes, is the text itself.',
      [INPUTS], 'every unquoted or quoted terminal text',
      'Rounding of long integers and the border between numbers and text is over all strings.',
      ['marsh/parse.py', 'marsh/utils.py'], [('terminal', 'marsh/parse.py')],
      'all texts up to the stated length; integers up to 20 (30) digits'),
    P('C14', 'An override argument denotes exactly one operation, path and value',
      'Any path, properly escaped, followed by any operator (=, +=, @, +@, or a leading ~) parses to '
      'that operation on that path with that value, and applying it equals performing the operation '
      'directly; config names are split at unescaped commas only.',
      [INPUTS], 'every path text, operator, value and name list',
      'Tests parse a few override strings; delimiters inside paths and values are over all strings.',
      ['marsh/parse.py', 'marsh/element.py'], [('override, config_names, Override.apply', 'marsh/parse.py')],
      'paths, values and elements up to the stated sizes'),
    P('C15', 'Casting between primitive types never changes a value silently',
      'An element unmarshaled as int, float, str or bool yields the equal value of exactly that type '
      'or is refused: decimals are never cut off, long integers never rounded, numbers other than 0 '
      'and 1 are no truth values, and numbers too large for the target are refused with a ValueError '
      '(an unmarshal error through unmarshal), never another exception.',
      [INPUTS], 'every primitive element (unbounded integers, all real floats, texts) and target type',
      'Exactness of conversions is a statement about all numbers and all texts.',
      ['marsh/utils.py', 'marsh/schema/types/primitive.py'],
      [('cast_primitive, str_to_int, str_to_bool, float_to_int', 'marsh/utils.py'), ('primitive schemas', 'marsh/schema/types/primitive.py')],
      'all integers and floats; texts up to the stated length, digit texts up to 20 (30)'),
    P('C16', 'Exactly the documented words are truth values',
      'A text is read as True exactly for 1, true, y, yes and on, as False exactly for 0, false, n, no and '
      'off, in any letter case; every other text is refused.',
      [INPUTS], 'every text',
      'The accepted language is over all strings; tests list the words.',
      ['marsh/utils.py'], [('str_to_bool', 'marsh/utils.py')],
      'all texts up to the stated length (all of unicode for short ones)'),
    P('C17', 'Bytes survive being written as text',
      'Any bytes marshal to URL-safe base64 text and unmarshal to the same bytes, with or without the '
      'padding, also inside mappings and sequences and as keys; different bytes give different texts.',
      [INPUTS], 'every byte string',
      'A round trip over all byte strings including those whose encodings use the special characters.',
      ['marsh/utils.py', 'marsh/schema/types/bytes.py'],
      [('bytes_to_base64, base64_to_bytes', 'marsh/utils.py'), ('bytes schemas', 'marsh/schema/types/bytes.py')],
      'byte strings up to the stated length'),
    P('C18', 'Literals and enums yield exactly their own members',
      'Unmarshaling as a literal or enum yields one of its members: names of an enum select their member '
      'first, otherwise the first member whose name or value the element equals after conversion to '
      'its type; every other element is refused with an unmarshal error.',
      [INPUTS], 'every element and literal/enum definition in the pool',
      'Which member is selected is a question about all elements; tests use the members themselves.',
      ['marsh/schema/types/literal.py', 'marsh/schema/types/enum.py'],
      [('literal schemas', 'marsh/schema/types/literal.py'), ('enum schemas', 'marsh/schema/types/enum.py')],
      'all integers and floats, texts up to the stated length'),
    P('C19', 'Structured types take exactly their own fields, by name or position',
      'For dataclasses, named tuples, typed dicts, fixed size tuples, classes and functions: values arrive at '
      'the fields (parameters) named by the mapping or by position in a sequence as in a Python call, '
      'missing ones take their default or are refused, and anything left over is refused. A value by '
      'position means the same as by name.',
      [INPUTS, CONFIGS], 'every element and every kind of field and parameter in the pool',
      'The assignment of values to all kinds of parameters, with any subset missing or superfluous, is a '
      'combination tests only sample.',
      ['marsh/schema/template/structured.py', 'marsh/schema/template/callable.py',
       'marsh/schema/types/dataclass.py', 'marsh/schema/types/namedtuple.py',
       'marsh/schema/types/typeddict.py', 'marsh/schema/types/tuple.py', 'marsh/schema/_functional.py'],
      [('StructuredUnmarshalSchema', 'marsh/schema/template/structured.py'),
       ('CallableUnmarshalSchema', 'marsh/schema/template/callable.py')],
      'elements with up to the stated number of misfits; field names and unknown keys of bounded length'),
    P('C20', 'A union yields the value of its first member accepting the element',
      'Unmarshaling as a union (typing.Union, Optional, X | Y, nested in containers) gives the value of '
      'the first member type, in the order written, that accepts the element, and is refused exactly '
      'when every member refuses; None is accepted exactly by unions including None.',
      [INPUTS], 'every element and union in the pool',
      'First-match semantics against all elements; tests show a few members.',
      ['marsh/schema/types/union.py', 'marsh/schema/template/union.py'],
      [('UnionUnmarshalSchema', 'marsh/schema/template/union.py')],
      'elements of the stated shapes, values symbolic'),
    P('C21', 'Unmarshaling any element gives a value or a marsh error, nothing else',
      'Whatever element is given for whatever supported type, unmarshaling ends with a value of that '
      'type or with an error of this library, never with another exception, and the error can be '
      'rendered.',
      [INPUTS], 'every nested element against every supported type',
      'Robustness against arbitrary elements; tests check expected misfits.',
      ['marsh/schema/_functional.py', 'marsh/schema/core/unmarshal.py', 'marsh/errors.py', 'marsh/schema/types'],
      [('all unmarshal schemas', 'marsh/schema/types'), ('errors', 'marsh/errors.py')],
      'elements up to the stated depth and width against some fifty types'),
    P('C22', 'An unmarshal error names the path of the value that is wrong',
      'When an element has one offending value, the path of the error splits into exactly the '
      'keys and indices leading to it, whatever characters the keys contain.',
      [INPUTS], 'every element with one misfit anywhere, every key text',
      'Location of errors for arbitrary keys (dots, quotes) and depths.',
      ['marsh/errors.py', 'marsh/schema/template', 'marsh/schema/types', 'marsh/path.py'],
      [('prepend', 'marsh/errors.py')],
      'types nested up to three levels, keys over ascii of bounded length'),
    P('C23', 'A marshaled value is read back as the same value',
      'Any value of a supported, unambiguous type marshals to an element that unmarshals, as that type, to '
      'an equal value of the same class, at any nesting and with any kind of mapping key.',
      [INPUTS], 'every value of the types in the pool',
      'Round trip over all values; tests use a few per type.',
      ['marsh/schema/types', 'marsh/schema/core/marshal.py', 'marsh/schema/_functional.py'],
      [('marshal/unmarshal schemas', 'marsh/schema/types')],
      'values of the stated shapes with symbolic leaves'),
    P('C24', 'Marshaling gives a plain element with the contents of the value',
      'Marshaling any value yields only standard mappings with string keys, sequences and primitives, with '
      'every content at its place and order; marshaling the result again changes nothing; the value is '
      'not modified and shares no mutable container with the result; a value without a marshal schema '
      'is refused wherever it is nested.',
      [INPUTS], 'every nested value of supported containers, records and leaves',
      'Structure preservation over all nestings; tests use a few values.',
      ['marsh/schema/types', 'marsh/schema/core/marshal.py'],
      [('marshal schemas', 'marsh/schema/types'), ('MarshalSchema', 'marsh/schema/core/marshal.py')],
      'values up to the stated depth and width'),
    P('C25', 'Annotated constraints hold for every value they are attached to',
      'Wherever Annotated attaches a constraint (Positive, Negative, Unsigned, Populated or an own one) - to a '
      'type, container item, key, union member, dataclass field, named tuple or typed dict field, '
      'parameter, also with postponed hints - unmarshaling yields only values satisfying it and '
      'refuses exactly those elements whose value does not.',
      [INPUTS, CONFIGS], 'every element and every place an annotation can be written',
      'Every place times every value, including the boundary; tests check one or two values at the top level.',
      ['marsh/annotation.py', 'marsh/schema/types/annotated.py', 'marsh/utils.py'],
      [('AnnotatedUnmarshalSchema', 'marsh/schema/types/annotated.py'), ('get_attribute_types', 'marsh/utils.py')],
      'all numbers; containers up to the stated width'),
    P('C26', 'A default is the value where none is given, and only there',
      'Without an element (absent, missing marker) a schema with a default yields that very object, one with a '
      'default factory calls it once per use; an element that is given is read as if there were no default. '
      'Fields left out take their declared default.',
      [INPUTS, CONFIGS], 'every supported type, default and element',
      'All types times all default values times all elements.',
      ['marsh/schema/core/unmarshal.py', 'marsh/schema/types', 'marsh/schema/template'],
      [('has_default, get_default', 'marsh/schema/core/unmarshal.py')],
      'some fifty types; elements of the stated shapes'),
    P('C27', 'Namespaces resolve to exactly the components registered at the time',
      'After any history of creating and deleting namespaces and registering and replacing '
      'components, every lookup (find, subclasses, namespaces over a class, unmarshaling by name, '
      'marshaling with its name) answers according to what is registered at that moment, and refused '
      'registrations change nothing.',
      [HIST, INPUTS], 'every history of namespace operations and every component name',
      'Cached lookups have to be invalidated by every operation; histories are unbounded.',
      ['marsh/schema/namespace.py', 'marsh/schema/types/namespace.py'],
      [('Namespaces, Namespace', 'marsh/schema/namespace.py')],
      'histories up to the stated number of steps with symbolic component names, lookups after each',
      [('namespaces', 'registered components', 'marsh/schema/namespace.py')]),
    P('C28', 'Unmarshaling does not depend on what was unmarshaled before',
      'The result for a type and element is the same whatever types were built, used, failed or '
      'cleared from caches before, also for types that compare equal but read differently (member order of '
      'unions and literals, 1/True/1.0, members of different enums, same-named classes of different '
      'modules), for schemas built earlier, and for schemas registered late.',
      [HIST, INPUTS], 'every history of types from pools of easily confused types, every element',
      'Caches and recursion memory are only correct if no two different types share an entry; tests use '
      'one type at a time.',
      ['marsh/schema/core/unmarshal.py', 'marsh/utils.py', 'marsh/schema/core/base.py'],
      [('UnmarshalSchemaMeta.__call__, _build', 'marsh/schema/core/unmarshal.py'), ('cache, ValueCache', 'marsh/utils.py')],
      'histories of two uses plus interference, elements of the stated shapes',
      [('_cached_build, _recursive_cache, type_cache', 'memory of built schemas', 'marsh/schema/core/unmarshal.py')]),
    P('C29', 'A priority order always honours priorities and relations',
      'After any sequence of additions, replacements and deletions with any priorities and any relative '
      'priorities, the order lists higher priorities first, keeps the order of addition among equals, '
      'places a new value according to its relations, refuses circular or duplicate additions without '
      'changing anything, and removing values leaves the order of the others.',
      [HIST, INPUTS], 'every sequence of operations and every integer priority',
      'Ordering under combinations of priorities and relations; tests use a few fixed priorities.',
      ['marsh/utils.py'], [('PriorityOrder', 'marsh/utils.py')],
      'up to four values with symbolic priorities and all relations among them'),
    P('C30', 'SafeDict and value caches behave like dictionaries for every key',
      'With hashable, unhashable and equal-but-differently-typed keys, after any history of '
      'operations a SafeDict has the items, order, length and lookups of a dictionary keyed by equality, '
      'and a value cache finds exactly the values stored under equal (for typed: equal and same-typed) keys '
      'and counts its hits and misses; a disabled cache stores nothing.',
      [HIST, INPUTS], 'every history of operations and all key values',
      'Hash collisions between equal and unequal keys, order after replacement and removal.',
      ['marsh/utils.py'], [('SafeDict, ValueCache', 'marsh/utils.py')],
      'histories up to the stated length, symbolic keys of many kinds',
      [('items', 'contents of the dictionary', 'marsh/utils.py')]),
    P('C31', 'A cached callable returns what the uncached callable would',
      'Calls through the cache decorator (function, method with each binding mode, pool, typed, size '
      'limited, safe) return the result of the call with the same arguments, compute at most once while '
      'an entry is kept, never share entries between different arguments, bindings or objects, '
      'pass exceptions on without storing them, and follow clearing and switching off.',
      [HIST, INPUTS], 'every history of calls, argument values and forms',
      'Key construction must separate all argument combinations; tests call with a few constants.',
      ['marsh/utils.py'], [('cache, ValueCache, make_hash_key, make_typed_hash_key', 'marsh/utils.py')],
      'histories up to the stated length with symbolic arguments'),
    P('C32', 'Readers of a shared iterator all see every item in order',
      'However reads of several iterators over the same cached one-shot iterator are interleaved, including '
      'ones that start late or are nested, each sees exactly the items of the source in order, '
      'and the source is advanced at most once per item, only on demand.',
      [HIST, INPUTS], 'every interleaving of readers',
      'Interleavings are unbounded; the naive implementation loses items only under some.',
      ['marsh/utils.py'], [('IterableFromIterator', 'marsh/utils.py')],
      'up to three readers and the stated number of steps and items'),
    P('C34', 'An entry point calls its function once, with the right arguments',
      'The function gets for each parameter the value of the command line, else the one of the call, else '
      'its default, by any mix of named, mapping and sequence overrides; it is called exactly once, its '
      'result or exception is passed on; with a wrong configuration or a request for help it is not called '
      'and the process exits (status 1 for errors, 0 for help). A caller who gives one argument both by '
      'position and by name gets a TypeError.',
      [INPUTS], 'every signature kind with every split of the arguments between call and command line',
      'The sources combine in many ways and with any values; tests sample a few.',
      ['marsh/entry_point.py', 'marsh/schema/argument.py', 'marsh/_functional.py'],
      [('EntryPoint', 'marsh/entry_point.py'), ('ArgumentsUnmarshalSchema', 'marsh/schema/argument.py')],
      'the signatures listed in harness/c34.py, two or three arguments on either side, values symbolic'),
    P('C35', 'The configuration is exactly the overrides, applied left to right',
      'Starting from nothing, every override assigns, combines, removes or loads at its path in the order '
      'given; interpolations are resolved on the end result, after which the top-level _meta_ is gone; '
      'an override that cannot apply refuses the whole configuration.',
      [INPUTS, HIST], 'every sequence of overrides',
      'A history of operations on a growing structure; tests apply a few fixed ones.',
      ['marsh/entry_point.py', 'marsh/parse.py', 'marsh/element.py', 'marsh/config.py'],
      [('EntryPoint.load_config', 'marsh/entry_point.py'), ('override.apply', 'marsh/parse.py')],
      'sequences of up to the stated number of overrides over a set of paths, symbolic paths and texts'),
    P('C36', 'Config files are found by name, ambiguity refused, loaded in order',
      'A name with or without extension finds the one supported file of that name in its directory, whatever '
      'else is there; several candidates or none are refused with an error; several configs '
      'are merged in the order given; writing a config and loading it gives its content back.',
      [INPUTS], 'every directory content and every name',
      'File names and directory contents are arbitrary; tests use a handful of friendly ones.',
      ['marsh/config.py'], [('find_config_path, load, write, register', 'marsh/config.py')],
      'directories of up to two files with symbolic names, two configs at a time'),
    P('C37', 'A run happens in its output directory and always leaves it again',
      'With an output directory the function runs in it (created when needed, dates filled in), config files '
      'are still found from where the program started, and however the run ends, normally, by an exception, '
      'exit or interrupt, the working directory is what it was; '
      'the configuration written is the one used and can be run again.',
      [INPUTS, 'fault_sequences'],
      'every output path and every way a run ends',
      'Tests look at successful runs; the guarantee matters when the run fails.',
      ['marsh/entry_point.py', 'marsh/config.py'], [('EntryPoint.maybe_change_cwd', 'marsh/entry_point.py')],
      'output paths up to the stated length over a small file tree; nesting up to three'),
    P('C38', 'Slice syntax denotes exactly the slice written',
      'A text start:stop:step with optional parts (spaces around them allowed), or the sequence or mapping '
      'of the parts, gives exactly that slice, and every other text is refused.',
      [INPUTS], 'every text and every list or mapping of parts',
      'The accepted language and its reading is over all strings.',
      ['marsh/schema/types/slice.py'], [('slice schemas', 'marsh/schema/types/slice.py')],
      'all texts up to the stated length'),
    P('C33', 'Casting equals unmarshaling the marshaled value; keyword arguments win',
      'cast(type, value) gives exactly what unmarshaling the plain element of the contents of the value gives, '
      'is the identity (up to a new equal value) on values of the type itself, and cast_args gives the arguments of '
      'a callable the same way. unmarshal(type, element, name=value, ...) is unmarshaling the element with those '
      'fields set, where values may be elements or objects; the element and the arguments are never modified.',
      [INPUTS, 'configurations'], 'every value and element of the stated types, every choice of fields given by keyword',
      'Conversions are defined by an equation between three functions, over all values.',
      ['marsh/_functional.py', 'marsh/schema/template/structured.py'],
      [('cast, cast_args, unmarshal', 'marsh/_functional.py')],
      'records, sequences, mappings and unions of the pool, to the stated widths; text of up to three characters'),
    P('C39', 'Help documents exactly the fields of a configuration, at every path',
      'Selecting a path of a type or callable gives the schema of exactly the field there and an error exactly when '
      'there is no such field. Its documentation lists each of its fields, in order, with its type and its default; '
      'fields are expanded down to the depth asked for and no further; fields expanded are exactly the fields of '
      'their type; the components of a namespaced type are selected by name and listed. Values given in a call are shown as the defaults of the parameters they are passed to, and are not '
      'modified. The printed text has every listed field once with path, type and default, in order, loses no words and keeps to '
      'the width. The help of a program has the name, description and epilog given for it, else those of what it runs, and the '
      'fields down to the depth given for it.',
      [INPUTS, 'configurations'], 'every path text, depth, width and call of the stated types',
      'Help has to agree with the configuration for every path, call and depth.',
      ['marsh/schema/template/structured.py', 'marsh/doc/terminal.py', 'marsh/schema/argument.py', 'marsh/entry_point.py',
       'marsh/schema/types/namespace.py'],
      [('select and doc of schemas', 'marsh/schema/template/structured.py'), ('terminal help', 'marsh/doc/terminal.py')],
      'paths up to four characters (six in the thorough run), the types of the harness; descriptions read from docstrings '
      'are not part of it, nor is the expansion of types documented before (they are references)'),
    P('C40', 'Caches never change what marsh does',
      'Clearing, switching off, switching on or looking at the caches, at any point, never changes a result, an error or a '
      'component found: types are read afterwards as if nothing was cached. A pool reaches each of its caches by name and '
      'nothing else: what is done to the pool is done to all of its caches, a cache switched off computes each time and counts '
      'nothing, a cleared one is empty, and the counts of hits, misses and entries are those of its use.',
      [INPUTS, 'histories'], 'every such history and every input value',
      'Results must not depend on what was cached before; cache control has to be safe to use anywhere.',
      ['marsh/utils.py', 'marsh/schema/core/base.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/namespace.py'],
      [('CachePool, CallableCache, ValueCache', 'marsh/utils.py'), ('schema caches', 'marsh/schema/core/base.py')],
      'pools: histories of four operations (five in the thorough run); types: two types after each other with one operation '
      'before each; namespaces: histories of three steps'),
    P('C41', 'Containers of the user are read and written like the builtin ones',
      'A type which is a subclass of a builtin or abstract container, or which only behaves like one, accepts exactly the '
      'elements the builtin type accepts and is made of the same items in the same order; elements made of any '
      'such containers unmarshal to the same values, with errors at the same paths, as those of plain lists and dictionaries; '
      'marshaling them gives the same elements, anything to iterate over gives the sequence of what it yields, and keys are '
      'written as the text of what they marshal to. What the constructor of a container refuses is an unmarshal error for '
      'the container, which tells the reason.',
      [INPUTS, 'programs'], 'every element of the stated shapes in every combination of the stated containers',
      'Structural typing of containers is a documented guarantee; any container has to work wherever a list or dict does.',
      ['marsh/schema/types/sequence.py', 'marsh/schema/types/mapping.py', 'marsh/schema/types/protocol.py', 'marsh/utils.py'],
      [('sequences', 'marsh/schema/types/sequence.py'), ('mappings', 'marsh/schema/types/mapping.py')],
      'up to three items; containers: those of the harness (user subclasses, UserList, deque, structural classes, proxies); '
      'protocol-only classes without type arguments are built from their constructor'),
    P('C42', 'Values with several written forms have exactly the value of each form',
      'A complex number is read from a number, a text of a number, up to two parts in a sequence or parts by name, and has exactly '
      'these parts; date and time classes are made of exactly the parts given by position or name, and of the time of a '
      'timestamp; a logger is the one of the name, at the level given; a set has exactly the values of the items; a missing key of '
      'a default mapping has a new zero value and keys given have theirs. Alone and within lists, mappings, options and fields alike.',
      [INPUTS], 'every value of the stated forms',
      'Types with several written forms have to give the same value for all of them.',
      ['marsh/schema/types/complex.py', 'marsh/schema/types/datetime.py', 'marsh/schema/types/logger.py', 'marsh/schema/types/set.py',
       'marsh/schema/types/defaultdict.py'],
      [('complex', 'marsh/schema/types/complex.py'), ('dates', 'marsh/schema/types/datetime.py')],
      'integers below 2**52, texts up to three characters (four in the thorough run); builtin dates and timestamps: those of the '
      'harness (datetime is not encoded; what is passed to it is, through subclasses); dates in free text are read by dateparser, '
      'not covered'),
    P('C43', 'The tree of a config directory shows each config once, where it is',
      'The names and the drawn tree of a directory contain exactly the files whose extension a config format is registered for, '
      'without the extension, and exactly the directories that have such a file somewhere below, each below the directory it is '
      'in; every line is joined to the entry it belongs to by the branches drawn, with one last branch for each directory.',
      [INPUTS, 'configurations'], 'every directory of the stated shapes and every name of its entries',
      'What the tree lists has to be what can be loaded, whatever the files are called.',
      ['marsh/config.py'],
      [('tree, tree_names', 'marsh/config.py')],
      'up to three entries (four in the thorough run) with symbolic names, directories in directories; names without line breaks; '
      'a stand-in file system'),
    P('C44', 'Registered schemas are used for exactly what they match, everywhere, at once',
      'A schema registered by the user is used from that moment for exactly the types or values it matches: directly, in '
      'fields, containers, options, defaults and components, whatever was built before; of several that match the one '
      'registered with the highest priority is used; schemas that wrap others are built around the ones of lower '
      'priority; a value no schema matches is not written but refused, and all else is read and written as before.',
      [INPUTS, 'histories', 'configurations'], 'every order of registering and using, every priority, place and element stated',
      'Extension by registered schemas is a documented feature; order of use and registration must not matter.',
      ['marsh/schema/core/base.py', 'marsh/schema/core/unmarshal.py', 'marsh/schema/core/marshal.py', 'marsh/schema/namespace.py',
       'marsh/schema/_functional.py'],
      [('SchemaRegistry', 'marsh/schema/core/base.py'), ('register', 'marsh/schema/_functional.py')],
      'two schemas registered, with symbolic priorities, one use before each; the places of the harness'),
    P('C45', 'Type variables and protocols stand for exactly the types they admit',
      'A type variable reads every element, in every place and with every default, exactly like its bound, or like the union of '
      'its types in their order; one without either is refused. A runtime checkable protocol reads an element as the first of '
      'float, int, bool, bytes, mapping, sequence, str and complex that implements it and accepts the element, what comes out '
      'implements the protocol, and an element none of them accepts is refused with an unmarshal error.',
      [INPUTS], 'every element of the stated shapes, every type variable, protocol and place of the harness',
      'What a placeholder stands for must not depend on the element or on where the placeholder is used.',
      ['marsh/schema/types/typevar.py', 'marsh/schema/types/protocol.py', 'marsh/schema/types/union.py'],
      [('TypeVarUnmarshalSchema', 'marsh/schema/types/typevar.py'), ('ProtocolUnmarshalSchema', 'marsh/schema/types/protocol.py')],
      '25 type variables and 22 protocols, one or two misfits per element, texts up to two characters (four in the thorough run); '
      'protocols without type arguments'),
    P('C46', 'An error says what is wrong and where, and a run that fails shows it',
      'Passing through the context of each enclosing field, an error of marsh gathers the path to what is wrong, a path that '
      'splits back into exactly those fields, while its message and every other exception stay as they are. Its text shows the '
      'message, the path and the first foreign cause; an unmarshal error holds and names the very element and type that did not '
      'match, whichever kind of type it is, and a value that is not given is said to be missing. A '
      'command line run whose configuration is wrong calls nothing, prints the reason and where, and exits with status 1, '
      'unless MARSH_FULL_ERROR asks for the exception itself.',
      [INPUTS, 'configurations'], 'every message, field and element of the stated sizes, every nesting of errors and wrong command line of the harness',
      'Users find their mistakes by these paths; one that is lost or misquoted points at the wrong place.',
      ['marsh/errors.py', 'marsh/entry_point.py', 'marsh/path.py'],
      [('MarshError.prepend', 'marsh/errors.py'), ('prepend', 'marsh/errors.py'), ('maybe_handle_error', 'marsh/errors.py'), ('EntryPoint', 'marsh/entry_point.py')],
      'up to two fields of two characters (three of three in the thorough run), 19 kinds of type with their wrong elements at three depths, 15 '
      'kinds of missing value, 16 wrong command lines, six kinds of error; errors raised by '
      'omegaconf for interpolations it cannot resolve are passed on as they are'),
    P('C47', 'Logging is configured once, as asked, before the function runs',
      'An entry point that sets up logging accepts exactly the documented levels, in both ways to write an option and wherever '
      'it stands, and passes the level and format, or their defaults, to logging once, before the function is called with its '
      'configuration; other levels end the run with status 2 and nothing done. Help and wrong configurations never call the '
      'function. An entry point not asked to set up logging leaves it alone and refuses the options.',
      [INPUTS, 'configurations'], 'every format text, level and form of the options, together with overrides',
      'Options combine with each other and with overrides in many ways; a silently ignored level hides messages.',
      ['marsh/entry_point.py', 'marsh/_functional.py'], [('EntryPoint.__call__, get_arg_parser', 'marsh/entry_point.py')],
      'format texts of two characters (four in the thorough run), three entry points; what logging does with its arguments is not part of it'),
    P('C48', 'The generated reference lists every documented schema once, in order',
      'Markdown sections, reStructuredText sections and tables made from a schema family, a registry or any iterable contain '
      'exactly the schemas that document a type, each once, in the order of the source, with their full description; underlines '
      'are as long as the heading, and a table has one line per cell, every cell text complete with line breaks as spaces.',
      [INPUTS, 'configurations'], 'every name, description, title and cell text, every number and order of schemas',
      'The reference is generated from what users register: names and descriptions are arbitrary.',
      ['marsh/doc/markdown.py', 'marsh/doc/restructuredtext.py', 'marsh/doc/common.py'],
      [('format_types', 'marsh/doc/markdown.py'), ('format_types, format_table, format_types_table', 'marsh/doc/restructuredtext.py'),
       ('get_registered_schemas', 'marsh/doc/common.py')],
      'up to two schemas with texts of two characters (three of three in the thorough run); type names of one line'),
    P('C49', 'The helpers for tests pass exactly when what they state holds',
      'marshal_succeeds and unmarshal_succeeds pass exactly when the value is written or read as stated, and return it; '
      'marshal_fails and unmarshal_fails pass exactly when it is refused and, if a cause is stated, an error of that type is '
      'among those that led to it; otherwise they fail the test. catch_cause lets other errors through.',
      [INPUTS], 'every value, element and stated result of the shapes of the harness, every chain of errors',
      'A helper that passes too easily makes every test of a user meaningless.',
      ['marsh/testing.py'], [('marshal_succeeds, marshal_fails, unmarshal_succeeds, unmarshal_fails, catch_cause', 'marsh/testing.py')],
      'eight types, texts of one character (three in the thorough run), chains of two errors (three)'),
    P('C50', 'Help describes types and fields in the words written for them',
      'The description of a field is the one its class gives: in its docstring, else below its annotation, else that of the nearest '
      'ancestor which describes it, also for nested and local classes; fields nobody describes have none. A type is described by the short '
      'and long text of its docstring, or all of it if these can not be told apart; docstrings that python generated for '
      'dataclasses and named tuples are not shown.',
      [INPUTS, 'configurations'], 'every outcome of parsing the docstrings, every class hierarchy of the harness',
      'Docstrings come in any form and at any level of a hierarchy; the wrong words mislead users of the command line.',
      ['marsh/utils.py', 'marsh/schema/template/structured.py', 'marsh/schema/types/dataclass.py', 'marsh/schema/types/namedtuple.py'],
      [('get_attribute_description, get_description, extract_description', 'marsh/utils.py'), ('doc_description', 'marsh/schema/types')],
      'thirteen types, docstrings of up to two parameters; the parsing of docstring styles by docstring_parser is replaced by '
      'every possible outcome'),
    P('C51', 'The types met so far are known newest first, whatever comes and goes meanwhile',
      'A collection of types holds exactly the types added which still exist and are not to be skipped, the one added last first; typing '
      'hints are no types. Types may be added, dropped and cleared at any moment, also while the collection is iterated: every '
      'iteration ends, yields nothing twice and nothing that was never there, and yields all types that stayed, newest first.',
      [HIST], 'every history of additions, removals and iterations of the stated length',
      'Forward references are resolved by these types, and reading types adds to them while that goes on; the order decides between '
      'types of the same name.',
      ['marsh/utils.py', 'marsh/schema/core/unmarshal.py'], [('WeakTypeCache', 'marsh/utils.py')],
      'histories of five operations (six in the thorough run) on two or three objects, classes and functions; one iteration at a time; '
      'an object is dropped when python frees it, which for classes is at the next collection'),
    P('C52', 'A parse error shows where in the text it is',
      'The rest of the text a parse error names is an end of the text given, and the mark in its message is below the first character of that rest in '
      'the part of the text shown, however long the text is; what is left out of it is marked. After a complete value, the first '
      'character that does not belong there is the one marked.',
      [INPUTS], 'every text of the stated size, at the start, in the middle and near the end of short and long texts',
      'Overrides are typed by hand; a mark below the wrong character misleads exactly when the text is long.',
      ['marsh/parse.py'], [('ParseError.__str__, parsing', 'marsh/parse.py')],
      'two symbolic characters (four in the thorough run) in ascii, up to 40 items before (200) and 80 characters after; no line breaks'),
    P('C53', 'Names that are not known are refused, and only known ones suggested',
      'Fields, arguments, paths, namespaces, components, literals and config files are reached by exactly their own names; any other '
      'name ends in the error stated for it, which shows the name. What is suggested instead is a name that is known there, and the one '
      'meant whenever a single letter of it is wrong, missing, too many or swapped with the next.',
      [INPUTS], 'every text of the stated size, every such slip at every place',
      'Typing errors are the most common errors of users of a command line or config; being led to a name that does not exist costs most.',
      ['marsh/utils.py', 'marsh/schema/template/structured.py', 'marsh/schema/namespace.py', 'marsh/schema/types/namespace.py',
       'marsh/schema/types/literal.py', 'marsh/config.py'],
      [('get_closest, get_closest_error_message', 'marsh/utils.py'), ('lookups of names', 'marsh/schema, marsh/config.py')],
      'three symbolic characters (four in the thorough run) or one slip in names of four and five letters; difflib is run from its own source'),
    P('C54', 'Behind annotations, type variables and wrappers a type is shown as itself',
      'Annotated types, bound or constrained type variables and registered wrapper schemas, in any combination, lead to the same schema at every path, '
      'or end in the same error, and have the same text, type, default, description, documentation and help at every depth as the type they '
      'are for, on their own and as a part of containers, fields and arguments. Showing a schema always ends, also for types that hold themselves.',
      [INPUTS, CONFIGS], 'every path of the stated size, every combination of type, disguise, place and depth of the harness',
      'Each kind of disguise forwards a dozen operations by hand; one that is forgotten hides fields or defaults from the help.',
      ['marsh/schema/types/annotated.py', 'marsh/schema/types/typevar.py', 'marsh/schema/core/unmarshal.py'],
      [('AnnotatedUnmarshalSchema', 'marsh/schema/types/annotated.py'), ('TypeVarUnmarshalSchema', 'marsh/schema/types/typevar.py'),
       ('WrapperUnmarshalSchema', 'marsh/schema/core/unmarshal.py')],
      'paths of two characters (three in the thorough run) on seven types, none on 26 types; up to two disguises at once; for types met before '
      'only that showing them ends'),
    P('C55', 'Namespaces and components are mappings of what was added, in that order',
      'After any history of namespaces added and deleted and components registered and replaced, the length, order, keys, values, items, '
      'membership, get and indexing of all namespaces, and of every namespace, are those of a dictionary with the same history; names that are '
      'taken are refused without any change; a deleted namespace keeps its components, and the next one of its name begins empty; there is only '
      'one collection of namespaces, and its caches are listed for every namespace.',
      [INPUTS, HIST], 'every history of the stated length with any names',
      'What the names are equal to decides each step; a test knows only the names it uses.',
      ['marsh/schema/namespace.py'],
      [('Namespaces', 'marsh/schema/namespace.py'), ('Namespace', 'marsh/schema/namespace.py'),
       ('_SingletonMapping', 'marsh/schema/namespace.py')],
      'names of one or two characters; three additions or removals (four in the thorough run); no empty names'),
]

NOT_APPLICABLE = []
