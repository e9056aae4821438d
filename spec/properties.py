"""The properties: the ones with a check (PROPS), and those this technique family cannot decide (NOT_CLAIMED)."""

TESTS_NOTE = 'The existing tests run a sample of the public calls with a few argument combinations; '

PROPS = [
    {
        'id': 'C01',
        'title': 'What an object stores in its XML is restored, unaltered, to the same attribute',
        'statement': 'For every kind of object the library writes to XML and loads back, each data item of the object which is written to '
                     'the XML is read back, from the element it was written to, into the same attribute of the object. Neither direction '
                     'rounds, truncates, negates, rescales, swaps or silently drops the item or its unit, whatever its value.',
        'over': ['inputs', 'histories'],
        'forall': 'every stored class, every element its XML writer can emit under any combination of attributes, every value of the items',
        'why': TESTS_NOTE + 'round trips are tested for some classes with values that survive rounding, swapping or defaulting.',
        'files': ['resqpy'],
        'mechanism': [('xml writers', 'create_xml methods of the object classes'), ('loaders', '_load_from_xml methods and constructors')],
        'technique': 'abstract interpretation of each class\'s XML writer and loader to element paths and attribute provenance, then '
                     'matching of the two sides',
        'note': 'Element paths, provenance and the transformations applied are derived per class; which items are matched is held '
                'against a reviewed table (spec/c01.json). Array contents in hdf5 are C02; property parts are C14.',
    },
    {
        'id': 'C02',
        'title': 'HDF5 arrays are written, referenced and loaded under one name',
        'statement': 'Every array that an object\'s XML refers to in the HDF5 file is written to the file under that name and owner by the same '
                     'kind of object, and every array written is referred to. Loading the object puts each array back in the attribute it '
                     'was written from, with no loss of number type, scaling or sign change on the way.',
        'over': ['inputs', 'histories'],
        'forall': 'every stored class with array data, every array it can write or refer to under any combination of attributes',
        'why': TESTS_NOTE + 'an optional array written under a different name, or with a narrower type, is only noticed when that option is '
               'used and stored, reloaded and compared.',
        'files': ['resqpy'],
        'mechanism': [('array registration', 'write_hdf5 methods'), ('references', 'create_xml / hdf5 dataset reference helpers'),
                      ('loading', 'load_array_lazily and the classes\' loaders')],
        'technique': 'abstract interpretation of the registered, referenced and loaded array names per class and attribute provenance',
        'note': 'Names computed at run time are compared by their constant pieces. Element types are compared where they are '
                'declared in the source.',
    },
    {
        'id': 'C03',
        'title': 'Every reference between objects is mirrored by a matching relationship',
        'statement': 'Whenever writing an object\'s XML makes a reference to another object, a relationship is also recorded on both sides, the '
                     'referring object in its source role and the referred-to object in the matching destination role. This holds for every '
                     'reference that any kind of object can write, and whenever relationships are created, copied or read back.',
        'over': ['inputs', 'histories'],
        'forall': 'every reference any XML writer of the library can emit, every call which creates a relationship, on every option path',
        'why': TESTS_NOTE + 'a missing or reversed relationship leaves the file loadable and is only noticed by other software or by a later '
               'relationship based search.',
        'files': ['resqpy'],
        'mechanism': [('reference creation', 'resqpy/model/_xml.py'), ('relationship creation', 'resqpy/model/_xml.py, _catalogue.py'),
                      ('writers', 'create_xml methods')],
        'technique': 'abstract interpretation of xml writers pairing reference events with relationship events, and role-pair matching at every '
                     'relationship call site',
        'note': 'Identity of the referenced object is by symbolic provenance of the uuid or root. The chronostratigraphic references that the '
                'writers cannot relate (no object exists in the API) are listed as known findings.',
    },
    {
        'id': 'C04',
        'title': 'Objects are named consistently by one RESQML type',
        'statement': 'Each kind of object is written, catalogued, referred to, searched for and loaded under one and the same RESQML object type, '
                     'and under its own unique identifier. No search or comparison of object types anywhere in the library uses a name that is not '
                     'a RESQML type or a spelling that could never match.',
        'over': ['inputs', 'programs'],
        'forall': 'every stored class, every reference written, every type based search or comparison in the source',
        'why': TESTS_NOTE + 'a misspelt type name in a search simply yields no parts, with no error.',
        'files': ['resqpy'],
        'mechanism': [('object types', 'resqml_type of each class'), ('catalogue', 'resqpy/model/_catalogue.py'),
                      ('writers', 'create_xml methods')],
        'technique': 'abstract interpretation of xml writers for declared types and constant propagation of type strings to every type sink, '
                     'checked against the RESQML vocabulary',
        'note': 'The vocabulary and allowed content type per reference are a reviewed table (spec/c04.json). Type strings computed at '
                'run time from data are not judged.',
    },
    {
        'id': 'C05',
        'title': 'The views of a model\'s catalogue always agree with each other',
        'statement': 'Whatever sequence of adding, copying, duplicating, patching, relating and removing of parts is applied to a model, '
                     'every part is either present in all the views of the catalogue (by part name, by uuid, relationships, list of contents to be '
                     'stored) or in none, and a removed part leaves no trace in them. Relations are symmetrical: if one object is recorded as '
                     'referring to another then the other is recorded as referred to by it, soft relations are recorded both ways and only '
                     'where neither refers to the other, and queries for related objects return the kind of relation asked for.',
        'over': ['histories', 'inputs'],
        'forall': 'every history of public catalogue operations, every path through each of them',
        'why': TESTS_NOTE + 'catalogue invariants must survive every interleaving of operations; tests look at a handful of short sequences.',
        'files': ['resqpy/model'],
        'mechanism': [('part bookkeeping', 'resqpy/model/_forestry.py'), ('relation sets', 'resqpy/model/_forestry.py, _xml.py'),
                      ('queries', 'resqpy/model/_catalogue.py')],
        'technique': 'interprocedural path-effect analysis of every public model operation, and symbolic mirror-image matching of relation set updates',
        'note': 'Paths that raise are not judged. Which effects belong to each public operation is a reviewed table (spec/c05.json).',
    },
    {
        'id': 'C06',
        'title': 'Unsaved changes to a model are always flagged',
        'statement': 'Every operation that changes what would be stored for a model (parts, relationships, contents list, or the text of existing '
                     'XML) leaves the model flagged as modified, on every path. The flag is lowered only by initialising, loading, or storing, and '
                     'a store lowers it only after actually writing; a request to store only if modified skips writing only when nothing has '
                     'been modified.',
        'over': ['histories', 'inputs'],
        'forall': 'every public operation of a model, and every other function which edits the XML of existing parts, on every normal path',
        'why': TESTS_NOTE + 'a path which forgets to flag the change loses data only when followed by a conditional store.',
        'files': ['resqpy/model', 'resqpy/property', 'resqpy/grid'],
        'mechanism': [('modified flag', 'resqpy/model/_model.py'), ('mutators', 'resqpy/model/_forestry.py, _xml.py, _hdf5.py')],
        'technique': 'interprocedural path-effect analysis: content change implies flag raised, on every path of every mutator',
        'note': 'Operations documented as part of loading are exempt. Edits of XML are recognised by assignment to node text/attributes and '
                'adding/removing sub-elements of nodes found in the catalogue.',
    },
    {
        'id': 'C19',
        'title': 'Every call the library makes to itself is well formed',
        'statement': 'Whatever public function is called and whatever options are chosen, no path through the library calls one of '
                     'its own functions, methods or constructors with an argument it does not accept, without one it requires, '
                     'or by a name that does not exist, and no path refers to a name that is defined nowhere. Nor does any path iterate '
                     'over, index, call, add or look up a method of a value whose only possible built-in types do not allow it.',
        'over': ['inputs', 'programs'],
        'forall': 'every call expression and name in every function of the package whose target can be resolved statically, on every '
                  'path including error and rarely used option paths',
        'why': TESTS_NOTE + 'a malformed call in an unsampled branch compiles and only fails when that branch is first taken.',
        'files': ['resqpy'],
        'mechanism': [('function and class signatures', 'resqpy/**'), ('module import aliases', 'resqpy/**/__init__.py')],
        'technique': 'whole-program name and call-target resolution with signature conformance over the syntax tree',
        'note': 'Decides every call whose target resolves (module functions, class constructors, self/super methods, methods of '
                'locally typed objects); calls on values of unknown type are not judged. Python dynamic features (setattr, '
                '__getattr__) are assumed not to add attributes beyond those found in the source.',
    },
    {
        'id': 'C10',
        'title': 'Options given to a function reach the functions it delegates to',
        'statement': 'Where a function or class of the library hands one of its own arguments (or object attributes) on to another library function, '
                     'as a given argument of it, that holds on every path and for every value: the argument is never dropped, replaced by an '
                     'unrelated or fixed value, or exchanged with another argument. The only exceptions are paths on which the value is already '
                     'known, such as being absent.',
        'over': ['inputs', 'programs'],
        'forall': 'every parameter of every function which flows into a parameter of another library function, at every call site of it',
        'why': TESTS_NOTE + 'most options are exercised with their default values only, for which a dropped or fixed argument makes no difference.',
        'files': ['resqpy'],
        'mechanism': [('delegating calls', 'resqpy/**')],
        'technique': 'interprocedural argument-flow analysis (parameter to callee parameter) against a reviewed flow table',
        'note': 'Flows are flow-insensitive within a function apart from unconditional overwriting; what the value is used for, and '
                'calls whose target cannot be resolved, are not judged. The reviewed flow table is spec/c10.json.',
    },
    {
        'id': 'C11',
        'title': 'Every argument of a function keeps its influence on the outcome',
        'statement': 'Every argument a library function accepts has an influence on its outcome (a value returned, an attribute set, data written, '
                     'an array filled in, or an error raised), unless it is documented as not used. An argument that contributes to, or decides, a '
                     'particular part of the outcome (each item of a returned tuple taken separately) goes on doing so, and one that every returned '
                     'value reflects is reflected on every path. No argument is overwritten, under some condition, by a value that has nothing to do with it.',
        'over': ['inputs', 'programs'],
        'forall': 'every parameter of every function and method, and every part of the outcome, over all paths and argument values',
        'why': TESTS_NOTE + 'an option that silently stops mattering only shows with a non-default value of that option, in the one outcome it used to affect.',
        'files': ['resqpy'],
        'mechanism': [('public functions and methods', 'resqpy/**')],
        'technique': 'interprocedural dependence (information flow) analysis with alias tracking, against a reviewed dependence table',
        'note': 'Decides whether there is an influence, not whether it is the right one. Calls with unknown targets are taken to depend on all '
                'their arguments; influences are judged over all paths together except for the every-path relation to returned values. The '
                'reviewed table is spec/c11.json.',
    },
    {
        'id': 'C12',
        'title': 'Default values are the documented ones and agree between related functions',
        'statement': 'Where the documentation of a function states the default value of an argument, leaving the argument out has the effect of '
                     'giving that value. A function that hands an optional argument straight on to another library function has the same default for '
                     'it, and methods of the same name in different classes have the same default for the same argument, apart from a few deliberate differences.',
        'over': ['inputs', 'programs'],
        'forall': 'every argument with a documented default, every optional argument handed on under its own name, every method shared by at least five classes',
        'why': TESTS_NOTE + 'most tests state the options they rely on, so a changed default shows only in the caller who leaves the option out.',
        'files': ['resqpy'],
        'mechanism': [('signatures and docstrings of public functions', 'resqpy/**')],
        'technique': 'docstring-to-signature conformance and default-value agreement over resolved call sites, on the syntax tree',
        'note': 'Defaults stated in prose that is not a literal are not judged. The deliberate differences present in the reviewed tree are listed in spec/c12.json.',
    },
    {
        'id': 'C15',
        'title': 'Arrays and containers given to a function are not modified; copies stay copies',
        'statement': 'Calling a library function leaves the arrays, lists and dictionaries passed to it, and those held by the objects passed to it, unchanged, except '
                     'where modifying them in place is the documented purpose of the function. Where a function returns an independent copy of such data, or '
                     'sets up a new object with a copy of it, later changes to the one do not show in the other.',
        'over': ['inputs', 'programs', 'histories'],
        'forall': 'every public function and method, every array or container argument, every array or container attribute of an argument or of the object itself',
        'why': TESTS_NOTE + 'tests look at what a function returns, and seldom at whether what was passed in, or the object copied from, is still as it was.',
        'files': ['resqpy'],
        'mechanism': [('in-place operations on arrays and containers, and the places where they are copied', 'resqpy/**')],
        'technique': 'interprocedural alias and mutation analysis (which arguments and attributes a value may share memory with), against a reviewed reference',
        'note': 'Deliberate in-place functions and caches present in the reviewed tree are listed in spec/c15.json. An attribute which the function itself, or one it '
                'calls, assigns is taken to be a cache.',
    },
    {
        'id': 'C21',
        'title': 'A zero index or value is never taken for one that was left out',
        'statement': 'Wherever the library accepts, stores or computes a number that may be absent (an index, realization or layer number, a limit, a constant or null value, '
                     'an angle, a thickness, and the like), zero counts as a number: what is done, returned, written or compared for zero is what is done for any '
                     'other value of that number, and not what is done when there is none.',
        'over': ['inputs', 'programs'],
        'forall': 'every argument, local value, function result and attribute which is a number or None, at every place where its truth decides something',
        'why': TESTS_NOTE + 'tests pass typical numbers or none at all, and zero is the one value which a test for truth confuses with none.',
        'files': ['resqpy'],
        'mechanism': [('tests of optional numbers', 'resqpy/**')],
        'technique': 'type inference of optional numbers from documented and annotated types, defaults, names and dataflow; truth tests of such values are violations',
        'note': 'Four places where zero and none rightly lead to the same are listed, with the reason, in checks/c21.py. Values whose type cannot be inferred are not judged.',
    },
    {
        'id': 'C13',
        'title': 'Equivalence of objects compares what tells them apart, and both ways',
        'statement': 'An object is equivalent to itself and never to none, and two objects of a kind for which all compared items are the same are equivalent. '
                     'Two objects of a kind which differ in an item by which objects of that kind are told apart, or of which only one (whichever) has that item, are not equivalent. '
                     'The answer is always true or false, never nothing or an error.',
        'over': ['inputs'],
        'forall': 'every kind of object with an equivalence test, each item compared, and differing, present in the first only, present in the second only, and all the same',
        'why': TESTS_NOTE + 'tests compare a few pairs of objects, usually with one obvious difference; the combinations of items and sides are not sampled.',
        'files': ['resqpy'],
        'mechanism': [('equivalence tests', 'resqpy/**/is_equivalent')],
        'technique': 'abstract evaluation of each equivalence test over symbolic objects, with one item differing or on one side only, to the set of possible outcomes; compared with the items which tell objects apart',
        'note': 'What tells objects apart is specified in spec/c13.json; how closely numbers must agree is not judged, nor the uuid shortcut for objects of different parts.',
    },
    {
        'id': 'C16',
        'title': 'What is done for one item, or in one call, does not leak into the next',
        'statement': 'Where the library handles several items one after another (parts, properties, wells, grids, surfaces, cells, lines, realizations), each is handled as it would be '
                     'alone: options, defaults, flags and partial results belonging to one item are not carried over to later ones. Nor does a call leave anything behind, in default '
                     'values of arguments or in data shared by objects or calls, that alters what later calls do, apart from the few documented global settings.',
        'over': ['inputs', 'histories'],
        'forall': 'every loop of every function, every variable set or changed in it, and every place where a function may change data that outlives the call',
        'why': TESTS_NOTE + 'tests mostly handle one item, or several alike, and each starts afresh; a leak shows only with a particular sequence of different items or calls.',
        'files': ['resqpy'],
        'mechanism': [('loops', 'resqpy/**'), ('module and class level data', 'resqpy/**')],
        'technique': 'loop-carried dataflow analysis (stale values reaching a use in a later iteration) against the reviewed set of carried variables; escape rules for mutable defaults and shared data',
        'note': 'What is meant to be carried (running totals, previous points, parser states) is listed in spec/c16.json. Leaks through the elements of an array or the state of another object are not judged.',
    },
    {
        'id': 'C14',
        'title': 'Selection yields what meets the criteria; metadata stays under its heading',
        'statement': 'Selecting parts of a model, or properties of a collection, yields exactly those which meet every criterion given, whatever the combination and mode of matching, '
                     'and an empty set of candidates yields nothing. '
                     'Each piece of metadata of a property (kind, facet, unit, time, realization, support and so on) given on adding it, copying it, importing it or '
                     'reading it back is recorded and reported as that piece of metadata, and as no other.',
        'over': ['inputs', 'histories'],
        'forall': 'every criterion of selection with the recorded value the same, different, related in part and absent, in each mode of matching; and every place where a record of a property is '
                  'made, read, copied or written',
        'why': TESTS_NOTE + 'tests select by a few criteria in a few modes, and check a few headings of a few properties.',
        'files': ['resqpy/property', 'resqpy/model', 'resqpy/grid', 'resqpy/unstructured', 'resqpy/well'],
        'mechanism': [('selection of parts', 'resqpy/model/_catalogue.py'), ('selection and records of properties', 'resqpy/property/_collection_*.py')],
        'technique': 'abstract evaluation of the selecting functions over symbolic records and criteria, compared with the table of what each criterion and mode selects; flow analysis of record '
                     'headings (positions of the record, arguments of the same meaning, accessors) over all of the package',
        'note': 'Selection through the relationships of parts, and the order of what is selected, are not judged. A heading computed in a way that cannot be followed is not judged.',
    },
    {
        'id': 'C20',
        'title': 'Cells are indexed in K, J, I order throughout, and space in x, y, z',
        'statement': 'Wherever cells, columns, pillars, faces or arrays of a grid are indexed, shaped, flattened or counted, indices and extents are used in the order K, J, I, each index '
                     'applies to the direction in which the array extends that way, and an index or extent in one direction is never compared with, assigned to or passed as one in another. '
                     'The same goes for x, y and z values passed as arguments or gathered into points. So results do not depend on a grid having the same extent in two directions.',
        'over': ['inputs'],
        'forall': 'every subscript, shape, flattening, comparison, assignment and argument involving indices or extents whose direction can be inferred',
        'why': TESTS_NOTE + 'tests use small grids, often with equal extents in two directions or symmetrical contents, for which exchanged directions give the same results.',
        'files': ['resqpy'],
        'mechanism': [('grid extents and cell indices', 'resqpy/grid/_grid.py'), ('all handling of cells', 'resqpy/**')],
        'technique': 'inference of the direction (as a unit of measure would be) of each index, extent and array dimension, with rules for where directions may meet',
        'note': 'Directions are inferred from the extents of grids, the recognised headings of sequences, loops, unpacking and arguments; an index whose direction cannot be inferred is not judged. '
                'The few places where another order is meant are listed, with reasons, in checks/c20.py.',
    },
]

NOT_CLAIMED = []
