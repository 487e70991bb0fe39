#!/usr/bin/env python3
"""What every check explores. Imported by check.py; run as a script it rewrites MANIFEST.json.

A job runs the harness `fn` once per configuration number; "a-b" is a range. `ids` and `kinds` say
which alarms of the harness belong to this property (a harness may serve several). `covers` are
situations which must have been reached, or the check gives no answer."""
import json, os, sys
SHAPES = ('every shape of the harness universe (harness/src/uni.rs: 22 primitives, enumerations, unions, options, newtypes, tuples, structures, arrays, lists, sets, maps, restricted strings and their nestings), '
          'with symbolic collection bounds')
VALS = ('values with symbolic scalars and characters, up to 2 items per collection (3 in thorough; 254 to 65536 in h_long), at most one node of any wrong kind or size inside (two in thorough)')
V_OUT = 'floating point, stand-alone unicode characters, self-referencing types; more than two deviations at once; whether set and map items come in ascending order (see C06)'
NF = ['0-19', '22-58', 60, '62-65', 1059, 1061]           # plain values; 20 and 21 are floats, which nothing conforms to
FLOATS = [20, 21]
ODD = ['100-156', 1157, 1158, 1159, 160, 1161, '162-165']  # one odd node
ODD_NF = ['100-119', '122-156', 1157, 1158, 1159, 160, 1161, '162-165']
T_NF = ['0-19', '22-65', '100-119', '122-165', '2000-2019', '2022-2056', '2062-2065', '1200-1219', '1222-1265']
T_ALL = ['0-65', '100-165', '2000-2056', '2062-2065', '1200-1265']
LONG = dict(fn='h_long', kinds=['assert'], covers=[1, 2], steps=400_000_000, quick=['10-16', '20-26'], thorough=['0-6', '10-16', '20-26', '30-36', '40-46', '50-56'])
DEC_T = ['0-65', '100-165', '200-265', '300-365', '400-465', '500-565', '600-665', '700-765', '800-865']
A_LONG = {'1': 'a long value which does not conform is accepted', '2': 'the accepted long value is not the given one', '3': 'a conforming long value is refused', '4': 'an accepted long value is not written',
          '5': 'the written bytes are not the strict encoding of the value', '6': 'the long value read back differs', '7': 'the written bytes of a long value are not read back'}
A_TYPIFY = {'1': 'a value which does not conform to the type is accepted', '2': 'the accepted value does not denote the given one', '3': 'a conforming value is refused'}

VP2 = [l * 1000 + k + 10 * j for l in (1, 2) for k in range(9) for j in range(9)]
VP3 = [3000 + k + 10 * j + 100 * i for k in range(9) for j in range(9) for i in range(9)]
TP2 = [l * 1000 + k + 10 * j for l in (1, 2) for k in range(7) for j in range(7)]
TP3 = [3000 + k + 10 * j + 100 * i for k in range(7) for j in range(7) for i in range(7)]

def agree(lengths):
    """configurations of C06: type + 100 x number of bytes"""
    out = []
    for t, r in lengths.items():
        a, b = map(int, r.split('-'))
        out += [t + 100 * n for n in range(a, b + 1)]
    return out


SPEC = {
    'C01': dict(
        bounds=f'{SHAPES}; {VALS}',
        outside='values of kinds whose reading is documented as not implemented (numbers over 64 bits, 24-bit signed, non-zero and float numbers, stand-alone unicode): for these only writing is decided; ' + V_OUT,
        asserts={'h_roundtrip': {'1': 'an accepted value is not written', '2': 'the value read back differs', '3': 'reading reports a supported kind as not implemented', '4': 'the written bytes are not read back'}, 'h_long': A_LONG},
        jobs=[dict(fn='h_roundtrip', kinds=['assert'], covers=[1, 2], quick=NF + ODD_NF, thorough=T_NF), dict(LONG, ids=[4, 6, 7])]),
    'C02': dict(
        bounds=f'{SHAPES}; every byte string of 0, 2 and 5 bytes (thorough: 0 to 8)',
        outside='kinds whose reading is documented as not implemented; longer byte strings; self-referencing types; lists of zero-sized items longer than 70000',
        asserts={'h_decode': {'1': 'reading a whole byte string disagrees with reading a prefix of it', '2': 'the value read is not the one the type system accepts', '3': 'the value read is not accepted for the type',
                              '4': 'the value read cannot be written', '5': 'the value read is written as different bytes', '7': 'reading a whole byte string disagrees with reading a prefix of it'}},
        jobs=[dict(fn='h_decode', kinds=['assert'], covers=[1, 2], quick=['0-65', '200-265', '500-565'], thorough=DEC_T)]),
    'C03': dict(
        bounds=f'{SHAPES}; {VALS}', outside=V_OUT, asserts={'h_typify': A_TYPIFY, 'h_long': A_LONG},
        jobs=[dict(fn='h_typify', ids=[1, 2], kinds=['assert'], covers=[1, 2], quick=FLOATS + NF + ODD, thorough=T_ALL), dict(LONG, ids=[1, 2])]),
    'C04': dict(
        bounds=f'{SHAPES}; {VALS}', outside=V_OUT,
        asserts={'h_typify': A_TYPIFY, 'h_encode': {'1': 'an accepted value is not written', '2': 'the written bytes are not the strict encoding of the value'}, 'h_long': A_LONG},
        jobs=[dict(fn='h_typify', ids=[2, 3], kinds=['assert'], covers=[1, 2], quick=NF + ODD, thorough=T_ALL),
              dict(fn='h_encode', kinds=['assert'], covers=[1], quick=NF, thorough=T_NF[:4] + T_NF[4:7]),
              dict(LONG, ids=[2, 3, 4, 5])]),
    'C05': dict(
        bounds=f'{SHAPES}; {VALS}; every byte string of 0, 2 and 5 bytes (thorough: 0 to 8); single allocations made while reading are limited to 64 KiB',
        outside='inputs longer than stated; panics documented as not implemented (floating point and stand-alone unicode characters)',
        jobs=[dict(fn='h_typify', kinds=['panic', 'hang', 'alloc'], covers=[1, 2], quick=ODD, thorough=T_ALL),
              dict(fn='h_roundtrip', kinds=['panic', 'hang', 'alloc'], covers=[1, 2], quick=NF, thorough=T_NF),
              dict(fn='h_decode', kinds=['panic', 'hang', 'alloc'], covers=[1, 2], quick=['0-65', '200-265', '500-565'], thorough=DEC_T),
              dict(fn='h_decode_units', quick=[0])]),
    'C14': dict(
        bounds='values of 2 levels (paths of 0 to 2 steps) and 3 levels (3 steps), each level a tuple, list, set, structure, map with number, enumeration, byte or text keys, or union, of 1 or 2 components (the innermost 2) with symbolic keys; embedded types of the same depth, each level any composite kind, with symbolic union tags; every path of that length, with symbolic field numbers, indices, key numbers and key bytes and names from a pool',
        outside='whether a number key also matches numbers stored as signed or big; longer paths; types given by reference other than embedded ones (only those can be followed)',
        asserts={h: {'1': 'the path leads to a different component', '2': 'a path which does not apply leads to a component', '3': 'a valid path is refused'} for h in ('h_vpath', 'h_tpath')},
        jobs=[dict(fn='h_vpath', covers=[1, 2], quick=[0] + VP2 + [3000, 3031, 3103, 3340, 3431, 3654, 3743], thorough=[0] + VP2 + VP3), dict(fn='h_tpath', covers=[1, 2], quick=[0] + TP2 + [3001, 3210, 3346, 3152], thorough=[0] + TP2 + TP3)]),
    'C15': dict(
        bounds='enumerations, unions, structures and tuples with 1, 2 and 3 members with symbolic names and tags, and with 254 and 255 members; every tag and position; every two-letter name (small definitions) or three of the names; classification of every type kind with symbolic codes, bounds, lengths and tags, up to 3 members (255 in structures and tuples)',
        outside='definitions in which names or tags repeat',
        asserts={'h_lookup': {'1': 'lookup by name', '2': 'tag by name', '3': 'member by name', '4': 'presence of tag', '5': 'name by tag', '6': 'member by tag', '7': 'number of members', '8': 'type at position', '9': 'name by position',
                              '10': 'type by tag', '11': 'type by position', '12': 'first and last variant', '13': 'item case at position', '14': 'order of iteration', '15': 'item cases in iteration', '16': 'number of iterated items'},
                 'h_class': {'1': 'cls', '2': 'number of references', '3': 'is_compound', '4': 'is_newtype', '5': 'is_option', '6': 'is_char_enum', '7': 'is_primitive / is_collection', '8': 'as_some', '9': 'as_wrapped_ty', '10': 'ty_at', '11': 'case_at',
                             '12': 'is_byte', '13': 'is_unicode_char', '14': 'is_byte_array', '15': 'is_primitive', '16': 'is_collection'}},
        jobs=[dict(fn='h_lookup', covers=[1], quick=['0-4', '10-14', '20-24', '40-44'], thorough=['0-4', '10-14', '20-24', '30-34', '40-44']), dict(fn='h_class', covers=[1], quick=['0-9'])]),
    'C16': dict(
        bounds='values of every kind with symbolic scalars, characters and tags and up to 3 components, in 0 to 2 single-field wrappers; every accessor with a symbolic position, a symbolic number key or a name from a pool; every conversion from native data with symbolic numbers and text of 2 characters',
        outside='more wrappers and components; unwrap_enum for enumerations other than Bool and Cls; text and byte strings over 2 characters; values the accessor is not meant for may be refused by a panic, as documented',
        asserts={'h_access': {'2': 'unwrap_uint', '3': 'skip_wrapper', '4': 'unwrap_num', '5': 'unwrap_string', '6': 'unwrap_bytes', '7': 'unwrap_tuple', '8': 'unwrap_struct', '9': 'unwrap_enum_tag', '10': 'unwrap_enum',
                              '11': 'unwrap_union', '12': 'unwrap_pos', '13': 'unwrap_key', '14': 'unwrap_option is None', '15': 'unwrap_option is Some', '16': 'unwrap_ord'}, 'h_native': {'1': 'the value does not denote the native data'}},
        jobs=[dict(fn='h_access', covers=[1], quick=['0-13']), dict(fn='h_native', covers=[1], quick=[0])]),
    'C17': dict(
        bounds='documents of nesting depth 2 with up to 3 items per list and table, with symbolic numbers over the whole 64-bit ranges, symbolic booleans, text of up to 2 symbolic ASCII characters and keys from a pool in two orders; YAML keys of other kinds',
        outside='floating point numbers, TOML dates (documented as not implemented) and YAML tags; parsing of the text of documents, which the serde libraries do; order of keys',
        asserts={'h_import': {'1': 'the value does not denote the document', '2': 'a key which is not text is changed'}},
        jobs=[dict(fn='h_import', covers=[1], quick=['0-3'])]),
    'C10': dict(
        bounds='libraries of three declarations of every kind (primitive, list, array, set, map, tuple, structure, union, enumeration, unicode character, newtype) with up to three references in total (four in the thorough run); each reference is any of: a declaration of the library (also itself), a name which is not declared, a type of a dependency or of an unknown library, or a definition embedded one to three levels deep which refers to such; array length symbolic, and with it the ids of types. Adding declarations and dependencies to a library: sequences of three additions with symbolic ids and array lengths',
        outside='more than three declarations or references; inline definitions nested deeper than three levels, which are refused; dependencies which no type uses; references to types which the imported part of a dependency does not list (their presence is decided on assembly, C11)',
        asserts={'h_compile': {'1': 'a library with unknown or circular references was compiled', '2': 'a correct library was refused', '3': 'name, dependencies or set of declarations changed', '4': 'a compiled definition is wrong', '5': 'the compiled library could not be converted back', '6': 'the library converted back differs from the original', '7': 'the error names a type which is not at fault'},
                 'h_populate': {'1': 'a repeated name or dependency was accepted', '2': 'a new declaration or dependency was refused', '3': 'the library does not have exactly the declarations and dependencies added'}},
        jobs=[dict(fn='h_compile', covers=[1, 2, 3], quick=[15, 27, 174, 19, 1385, 559, 491, 1677, 183, 1764, 94, 1118], thorough=[15, 27, 174, 19, 1385, 559, 491, 1677, 183, 1764, 94, 1118, 28, 340, 134, 116, 25, 157, 31, 80, 150, 102, 1566, 871, 1830, 1991, 70, 1189]),
              dict(fn='h_populate', covers=[1, 2], quick=[0])]),
    'C11': dict(
        bounds='three libraries with two declarations each, one of which all three declare identically; the other one of every kind with up to three references, each of which is any of: own declarations, declarations of the other libraries, definitions embedded one to three levels deep, or types nobody declares; references and dependencies with a right or a wrong id, symbolic in the last byte; six import sequences (all, some, repeated, in several orders), the same set also imported in the canonical order',
        outside='more than three libraries or two declarations per library; libraries which declare different types under the same library and type name; types whose ids collide (C07)',
        asserts={'h_assemble': {'1': 'assembly succeeded although types or dependencies are missing', '2': 'assembly failed although nothing is missing', '3': 'the error does not name what is missing', '4': 'a declared type is not present under its id with its definition', '5': 'a declared type is not present under its qualified name', '6': 'the outcome depends on the order of imports', '7': 'the assembled types are not exactly the declared and embedded ones'}},
        jobs=[dict(fn='h_assemble', covers=[1, 2, 3], quick=[2366, 2543, 4056, 859, 235, 1708, 1189, 43, 491, 600, 807], thorough=[2366, 2543, 4056, 3211, 859, 235, 1708, 1189, 43, 491, 600, 807, 252, 865, 194, 326, 1043, 695, 225, 366, 549, 0, 125, 915, 2536, 2717, 2873, 3380, 3042])]),
    'C07': dict(
        bounds='pairs of definitions of every kind: primitives with symbolic codes, enumerations, unions and structures with one or two members with names from a pool (one the start of another) and symbolic tags, tuples of one to three, arrays, lists, sets and maps with symbolic lengths and bounds, named or not; references are ids with a symbolic byte or definitions embedded up to two levels (three for the comparison of forms)',
        outside='the tree of unnamed wrappers; by-name references of the symbolic form, which are committed to by the name (their id is not used anywhere); ids of the references themselves are hashes, whose bytes cannot be chosen',
        asserts={'h_semid': {'1': 'different types have the same id', '2': 'the same type has different ids', '3': 'types which differ in how unnamed types are embedded into each other have the same id', '4': 'different types have the same id'},
                 'h_semid_forms': {'5': 'the id depends on the form of the definition', '6': 'the id depends on the library of a referenced type'},
                 'h_semid_lib': {'7': 'the id depends on the library in which the type is declared', '8': 'whether a type can be compiled depends on the library'}},
        jobs=[dict(fn='h_semid', covers=[1], quick=['0-99', 133, 144, 155, 166, 177, 188, 134, 135, 145, 157, 168], thorough=['0-199', 255]), dict(fn='h_semid_forms', covers=[1, 2], quick=['0-22', '26-28'], thorough=['0-29']),
              dict(fn='h_semid_lib', covers=[1], quick=[15, 174, 19, 183, 94, 1118, 491], thorough=[15, 27, 174, 19, 491, 183, 94, 1118, 28, 340, 134, 116, 25, 157, 31, 80, 150, 102, 70])]),
    'C09': dict(
        bounds='definitions of every kind with all of their details symbolic (as in C07) over each kind of reference, definitions embedded up to two levels; libraries of one or two types, up to two dependencies and external types with symbolic ids; symbolic libraries; type systems of one or two types and assembled ones. Arbitrary bytes: every byte string of up to 14 bytes (up to 10 where definitions may be embedded) read as a definition over each kind of reference, library, symbolic library, (symbolic) type system; and valid serialisations of these in which any three successive bytes (2 in symbolic libraries; thorough: 4) are replaced by arbitrary ones, also cut off behind them',
        outside='arbitrary bytes differing in more places from a valid serialisation; longer names and more types than stated',
        asserts={'h_trip': (A := {'1': 'the item read back differs', '2': 'reading back does not consume all bytes', '3': 'the item read back is written as different bytes', '4': 'the written bytes are not read back', '5': 'a small item is not serialised', '6': 'the serialisation is not read back'}), 'h_trip_lib': A,
                 'h_any_bytes': {'1': 'accepted bytes are written back as different bytes'}, 'h_any_window': {'1': 'accepted bytes are written back as different bytes'}},
        jobs=[dict(fn='h_trip', covers=[1], quick=['0-29', '113-117', '123-127', 119, 129], thorough=['0-29', '110-129', '210-212', '216-218', '220-222', '226-228']),
              dict(fn='h_trip_lib', covers=[1], quick=['0-39']),
              dict(fn='h_any_bytes', covers=[1, 2], quick=['0-14', '100-110', '200-209', '300-314', '400-414', 509, 614], thorough=['0-17', '100-112', '200-212', '300-317', '400-417', 509, 614]),
              dict(fn='h_any_window', covers=[1, 2], quick=[c for at in range(0, 800, 100) for c in [*range(3000 + (0 if at < 100 else 2) + at, 3010 + at), 3013 + at, 3014 + at, 3019 + at, 2024 + at, 2026 + at, 3034 + at, 2044 + at, 3054 + at, 3063 + at]], thorough=[c for at in range(0, 800, 100) for c in [*range(4002 + at, 4010 + at), *range(4012 + at, 4020 + at), *range(3022 + at, 3060 + at), 4063 + at]]),
              dict(fn='h_deep', quick=[100000])]),
    'C08': dict(
        bounds='pairs of libraries with names one of which is the start of the other, no to two dependencies with symbolic ids, one to three types with names from a pool and definitions of every kind with all details symbolic (nothing embedded, which C07 decides); each library put together in another order, with other names for its dependencies, and after serialisation; pairs of type systems of no to three types with symbolic ids, and of assembled ones of one type; the armored text of libraries with no to three dependencies, type systems and symbolic type systems with symbolic details',
        outside='which of several ids comes first (in the comparison of libraries, each digest of symbolic data is one arbitrary constant, different from that of different data); the base85 coding, which is replaced by another one',
        asserts={'h_libid': (A := {'1': 'different contents have the same id', '2': 'the same content has different ids', '4': 'the id is another one after serialisation, or the item is not serialised'}),
                 'h_libid_forms': {'3': 'the id depends on the order of assembly or on the names of dependencies', **A}, 'h_sysid': A, 'h_armor': {'5': 'the item read from its armored text is another one', '6': 'the armored text is not read'}},
        jobs=[dict(fn='h_libid', covers=[1], quick=[a + 10 * b for a in range(10) for b in range(a + 1)], thorough=['0-99']),
              dict(fn='h_libid_forms', covers=[1], quick=['0-9']), dict(fn='h_sysid', covers=[1], quick=[*range(0, 100, 11), 5, 64, '100-102', '110-112', '120-122'], thorough=['0-99', '100-102', '110-112', '120-122']),
              dict(fn='h_armor', covers=[1], quick=[c + 10 * k for c in range(4) for k in range(10)] + [c + 10 * k for c in (100, 101, 102, 103, 200, 201, 202) for k in range(10)])]),
    'C18': dict(
        bounds='every 256-bit id of each of the three kinds in every display style and as a resource name (urn), its JSON form with three symbolic bytes; every ASCII text of up to 4 characters (thorough 5), and the text of an id with any 2 (thorough 4) successive characters replaced, read as an id; every ASCII text of up to 5 characters read as a file format; qualified names of parts of 1 to 4 characters; versions with up to two fragments of each kind',
        outside='the checksum words (the digest behind them is one arbitrary constant, different for different ids); texts of which two characters of one checksum word are arbitrary; non-ASCII text',
        asserts={f: {'1': 'the text is read back as another item', '2': 'the text is not read back', '3': 'the text of one kind of item is taken for another, or two items have the same text', '4': 'text is accepted which is not a form of the item read', '5': 'the text is not the stated one', '6': 'the version is not read back from its serialisation'} for f in ('h_id_text', 'h_id_window', 'h_format', 'h_fqn', 'h_semver')},
        jobs=[dict(fn='h_id_text', covers=[1, 2], quick=['0-4', '10-14', '20-22', '30-32', '40-42', '50-52']),
              dict(fn='h_id_window', covers=[1, 2], quick=[0, 1, 2, 10000, 20000, 30000, 40000, 30001, 30002, *[20000 + 100 * at + k for at in range(1, 70) for k in (range(3) if at < 20 else [at % 3])], *[20000 + 100 * at + k for at in range(1, 44) for k in (range(30, 33) if at > 41 else [30 + at % 3])]],
                   thorough=['0-2', '10000-10002', '20000-20002', '30000-30002', '40000-40002', 50000, *[40000 + 100 * at + k for at in range(1, 68) for k in range(3)], *[40000 + 100 * at + k for at in range(1, 44) for k in range(30, 33)]]),
              dict(fn='h_format', covers=[1, 2], quick=['0-5']), dict(fn='h_fqn', covers=[1, 2], quick=[11, 12, 21, 22, 34, 43], thorough=[a * 10 + b for a in range(1, 9) for b in range(1, 9)]),
              dict(fn='h_semver', covers=[1, 2], quick=[0, 1, 2, 10, 20, 11, 12, 21], thorough=[0, 1, 2, 10, 20, 11, 12, 21, 22, 3, 30])]),
    'C12': dict(
        bounds='type systems of three types of every kind (primitive, list, array, set, map, tuple, structure, union, enumeration, unicode character), composites with 2, 3 or 255 members; every reference of a type symbolic among the three types and a missing one, so that all reference graphs including self and mutual references are covered; four sets of roots (none, one, two, one of them missing)',
        outside='type systems with more than three types, contents of types beyond their references',
        asserts={'h_extract': {'1': 'extraction succeeded although a needed type is missing', '2': 'a reachable type is missing', '3': 'a type which is not reachable is present', '4': 'a definition changed', '5': 'extraction failed although nothing is missing'}},
        jobs=[dict(fn='h_extract', covers=[1, 2], quick=[451, 471, 165, 2561, 2671, 348, 207, 609],
                   thorough=[0, 111, 444, 555, 666, 777, 451, 471, 165, 2561, 2671, 2765, 1456, 1567, 1777, 348, 207, 609, 738, 564, 475, 647, 756, 352, 2051, 2062, 2573, 1999])]),
    'C13': dict(
        bounds='the type universe of C01 (every kind, nested up to four levels) and ten larger types (255 fields, variants, nested options, newtypes and restricted strings), each with no, all, some or only the root type named; besides, every kind of root with all combinations of 18 kinds of components; list, set and map bounds, array lengths and tags symbolic over their whole range',
        outside='self-referential types (their tree is infinite), more than 255 nested wrappers, the order of attributes and the text formatting done by the vesper crate',
        asserts={f: {'1': 'number of listed items', '2': 'type of an item', '3': 'name of the type of an item', '4': 'depth of an item', '5': 'position, field name, variant or tag of an item', '6': 'wrappers of an item', '7': 'number of items in the layout', '8': 'nesting in the layout', '9': 'subject in the layout', '10': 'kind in the layout', '11': 'attributes (lengths, tags, names) in the layout'} for f in ('h_tree', 'h_tree_any')},
        jobs=[dict(fn='h_tree', covers=[1], quick=['0-65', '100-109', '1022-1065', '1100-1109', '2022-2065', '2100-2109', '3000-3065', '3100-3109']),
              dict(fn='h_tree_any', covers=[1], quick=['0-9'])]),
    'C06': dict(
        bounds='32 Rust types deriving strict encoding: structures, tuples, newtypes, enumerations, unions with all forms of variants, options, fixed arrays, lists, sets, maps, text, restricted strings, boxed and nested ones, numbers of up to 64 bits, bytes; each collected, compiled and put into a type system by the code of /repo, then all byte strings of the lengths given as the configuration (type + 100 x bytes), up to 15 symbolic bytes',
        outside='other Rust types; floats, numbers larger than 64 bits, NonZero numbers (not implemented by the reader or registered by the dependency as plain numbers); AsciiPrintable (the native conversion of the dependency accepts control characters); lists of two- and four-byte length prefix with more than 255 items',
        asserts={'h_agree': {'2': 'the number of bytes read differs', '3': 'the value read shows other data than the native one', '4': 'the value is written to other bytes than the native one', '5': 'bytes which the native decoder accepts are refused', '6': 'bytes which the native decoder refuses are accepted', '7': 'bytes which the native decoder refuses for the order of set items or map keys are accepted'}},
        jobs=[dict(fn='h_agree', covers=[1, 2], quick=agree({0: '35-37', 1: '14-16', 2: '4-6', 3: '0-2', 4: '3-5', 5: '1-3', 6: '0-7', 7: '3-9', 8: '5-9', 9: '0-8', 10: '0-8', 11: '0-8', 12: '2-8', 13: '6-8', 14: '2-9', 15: '0-7', 16: '0-5', 17: '1-7', 18: '0-5', 19: '3-8', 20: '3-8', 21: '0-7', 22: '0-6', 23: '3-6', 24: '0-2', 25: '0-2', 26: '2-4', 27: '8-14', 28: '9-15', 29: '1-3', 30: '0-2', 31: '0-3'}),
                   thorough=agree({0: '35-37', 1: '14-16', 2: '4-6', 3: '0-3', 4: '3-5', 5: '1-4', 6: '0-7', 7: '0-11', 8: '0-11', 9: '0-10', 10: '0-10', 11: '0-10', 12: '0-10', 13: '0-10', 14: '0-11', 15: '0-9', 16: '0-7', 17: '0-9', 18: '0-7', 19: '3-8', 20: '3-8', 21: '0-9', 22: '0-6', 23: '3-6', 24: '0-3', 25: '0-3', 26: '0-5', 27: '8-14', 28: '9-15', 29: '0-4', 30: '0-4', 31: '0-4'}))]),
    'C19': dict(
        bounds='every library of up to three named types (structure, tuple, enumeration, union with structure, tuple and unit variants) and up to two types of a dependency which it refers to: references of 11 forms (plain, Box, Option, list, set, map, array, tuple, Option of Box, text, restricted string) to each of the types or to a number; list bounds and array lengths symbolic over their whole range; eight orders and choices of the types collected, among them collecting a type twice; the dependency complete or lacking a needed type',
        outside='more types; types which implement strict encoding inconsistently; two Rust types of one name (also Box<Foo> beside a type called BoxFoo); digests are constant, different for different data',
        asserts={'h_collect': {'1': 'collection failed though nothing is missing', '2': 'the error names another type', '3': 'a type missing in the dependency was not noticed', '4': 'name of the library', '5': 'set of the types declared', '6': 'a definition differs from the encoding', '7': 'dependencies', '8': 'types of dependencies used'}},
        jobs=[dict(fn='h_collect', covers=[1, 2], quick=[0, 11001, 22012, 33103, 4021, 15111, 26202, 37013, 8120, 19221, 20002, 30203],
                   thorough=[k + 10 * s + 100 * d + 1000 * f + 10000 * ((k + f + s) % 4) for k in range(4) for s in range(3 if k > 1 else 1) for d in range(3) for f in range(10)])]),
}

NOT_APPLICABLE = {}

LEVEL_NOTE = ('Bounded symbolic execution of the optimised LLVM IR of /repo: for every input within the stated bounds the solver decided every branch and assertion; nothing is claimed outside of the bounds. '
              'Trusts rustc, z3, the executor (compared with native runs on path witnesses in every run) and collision freedom of SHA-256; counterexamples are replayed natively before they are reported.')


def manifest():
    here = os.path.dirname(os.path.abspath(__file__))
    props = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl'))]
    m = dict(version=1, setup_cmd='./setup.sh',
             checks=[dict(property=p, quick_cmd=f'./check.py {p} quick', thorough_cmd=f'./check.py {p} thorough', technique='symbolic execution of the LLVM IR with z3',
                          level='model_checking', level_note=LEVEL_NOTE) for p in props if p in SPEC],
             not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, 'check under construction')) for p in props if p not in SPEC])
    with open(os.path.join(here, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')


if __name__ == '__main__': manifest()
