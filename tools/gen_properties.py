#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json
import os

S = 'structured/'
SER = S + 'serializers/'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mechanism],
            'observe_at': list(observe),
            'hook_needed': hook,
        },
    })


ALL_SER = [SER + f for f in ('api.py', 'structs.py', 'strings.py', 'arrays.py', 'tuples.py',
                             'unions.py', 'conditional.py', 'self.py', 'structured.py')]
SIX = ('create_unpack', 'create_unpack_from', 'create_unpack_read', 'unpack', 'unpack_from', 'unpack_read')

prop('C01', 'Records written back to back are read back equal and in place',
     'Records packed one after another to a file or buffer, in any history of appends, seeks, re-reads and '
     'interleaved handles, occupy exactly the documented layout\'s bytes, and each of the packing calls yields the '
     'same bytes. Reading at a record\'s start gives back equal values and leaves the stream exactly at the start of '
     'the next record, whatever precedes or follows it and however the stream is buffered. Only a layout ending in a '
     'consume-to-end string takes everything that follows.',
     ['histories', 'inputs', 'configurations'],
     'every class layout, every sequence of records of mixed classes, every interleaving of writes, seeks and reads '
     'over several handles, every start offset, every buffering and chunking of the stream',
     'The tests unpack a handful of fixed single records from a fresh BytesIO whose first byte is the record\'s first '
     'byte; position, neighbours, several handles and chunk boundaries inside strings never vary.',
     ALL_SER + [S + 'structured.py'],
     [('pack_write / unpack_read delegation and running size', SER + 'api.py:CompoundSerializer._iter_packers/_iter_unpackers'),
      ('chunked terminator search and seek back', SER + 'strings.py:TerminatedCharSerializer.unpack_read'),
      ('read-ahead and rewind', SER + 'unions.py:LookaheadDecider.unpack_read')],
     [('stream position', 'where the next record is read from', 'the stream object')],
     SIX + ('pack', 'pack_into', 'pack_write'))

prop('C02', 'A torn record is reported, never read as a record',
     'If the bytes of a record are cut short at any point, as by a crash while it was being written, every way of '
     'unpacking it raises an exception instead of giving a value. Scanning a log of records after a crash yields '
     'exactly the records that are completely there, and appending can resume at the end of the last of those. '
     'Layouts that end by consuming all remaining bytes are excepted.',
     ['crash_points', 'histories', 'inputs'],
     'every layout, every value, every byte at which a crash can cut the durable bytes, all six unpacking calls',
     'The tests contain no truncated input for most serializers; there is one cut point per record byte for every '
     'layout and every unpacking call.',
     ALL_SER + [S + 'structured.py'],
     [('struct size checks', SER + 'structs.py:StructSerializer.unpack/unpack_read'),
      ('length checks of variable strings', SER + 'strings.py:_check_length'),
      ('"unterminated string" check', SER + 'strings.py:TerminatedCharSerializer')],
     [('durable prefix', 'bytes of the log that survived the crash', 'simulated disk')],
     SIX)

prop('C03', 'Short reads give the right record or an exception',
     'When reads from the stream return fewer bytes than asked for, although more would follow, unpacking either '
     'gives the right values with the stream exactly after the record, or raises an exception. It never returns wrong '
     'values and never leaves the stream somewhere else without an exception.',
     ['fault_sequences', 'inputs'],
     'every layout and value, every sequence of short, empty or would-block results among the reads of a record; '
     'reads to the end of the stream are taken to return all of it',
     'The tests read only from BytesIO, which never comes up short before its end.',
     [SER + 'structs.py', SER + 'strings.py', SER + 'arrays.py', SER + 'unions.py', S + 'structured.py'],
     [('size check of struct.unpack on what was read', SER + 'structs.py:StructSerializer.unpack_read'),
      ('accounting of bytes actually read', SER + 'strings.py:TerminatedCharSerializer.unpack_read'),
      ('length check of variable data', SER + 'strings.py:_check_length')],
     [], ('create_unpack_read', 'unpack_read'))

prop('C04', 'A failing read propagates and harms nothing',
     'When a call on the stream being read raises, that same exception comes out of the unpacking call, no new object '
     'is returned, and every attribute of an object being unpacked in place is either untouched or completely the new '
     'value. Repositioning to the record\'s start and unpacking again succeeds, and other objects and streams are '
     'unaffected.',
     ['fault_sequences', 'inputs', 'histories'],
     'every layout, every read, seek or tell of an unpacking operation as the point of failure, every kind of '
     'exception, repeated failures before the final retry',
     'No test uses a stream that fails.',
     ALL_SER + [S + 'structured.py'],
     [('values are assigned one by one as they are unpacked', S + 'structured.py:Structured.unpack_read'),
      ('proxy discarded on failure', S + 'structured.py:Structured.create_unpack_read')],
     [('serializer state', 'size and partial object of the operation', SER + 'api.py:PerThread')],
     ('create_unpack_read', 'unpack_read'))

prop('C05', 'A failing write leaves a prefix and harms nothing',
     'Packing to a stream only ever writes to it, in order, and never takes back or changes what it wrote; if a write '
     'fails, that same exception comes out and the bytes delivered until then are a prefix of the record\'s encoding. '
     'The packed object is unchanged, and packing it again, to that or another stream, delivers its complete encoding.',
     ['fault_sequences', 'inputs', 'histories'],
     'every layout and value, every write as the point of failure with any part of it delivered, every kind of '
     'exception, sinks that offer nothing but write and sinks that keep what they are given',
     'No test uses a sink that fails, is full, or cannot seek.',
     ALL_SER + [S + 'structured.py'],
     [('pack_write delegation', SER + 'api.py:CompoundSerializer.pack_write'),
      ('arrays are packed completely before being written', SER + 'arrays.py:ArraySerializer.pack_write')],
     [], ('pack_write',))

prop('C06', 'pack_into touches its own region only',
     'Packing into a buffer changes exactly the bytes of the record\'s encoding at the given non-negative offset: all '
     'other bytes and the buffer\'s length stay as they were, also when the operation fails because the buffer is too '
     'small, a value cannot be packed, or a callback raises. Concurrent packers into disjoint regions of one buffer '
     'do not disturb each other.',
     ['fault_sequences', 'schedules', 'inputs'],
     'every layout and value, every offset, every kind of writable buffer, buffers short by any amount, failures at '
     'any value or callback, every interleaving of packers sharing an arena',
     'The tests pack into exactly sized fresh buffers at offset 0 and compare the whole buffer.',
     ALL_SER + [S + 'structured.py'],
     [('offset accumulation', SER + 'api.py:CompoundSerializer.pack_into'),
      ('header written after items', SER + 'arrays.py:ArraySerializer.pack_into')],
     [('arena', 'shared buffer, one slot per record', 'caller\'s buffer')],
     ('pack_into',))

prop('C07', 'Unpacked values do not depend on the source afterwards',
     'Unpacking never modifies its source, keeps no reference to it, and gives the same values whatever kind of buffer '
     'holds the bytes. Whatever is done to the source after the call returns (overwriting, reusing, resizing, '
     'releasing or closing it) leaves the unpacked values as they were.',
     ['histories', 'inputs', 'fault_sequences'],
     'every layout and value, every kind of source (bytes, bytearray, memoryview, mmap, array, file), every history of '
     'reuse of pooled buffers while earlier results are still held',
     'The tests unpack from immutable bytes almost everywhere, and never touch the source again.',
     [SER + 'strings.py', SER + 'structs.py', SER + 'arrays.py', SER + 'unions.py', S + 'structured.py'],
     [('copying slices', SER + 'strings.py:DynamicChar/NETChar/ConsumingChar unpack and unpack_from'),
      ('struct copies values', SER + 'structs.py:StructSerializer')],
     [], SIX)

prop('C08', 'Concurrent operations on distinct objects do not interfere',
     'Operations that run in different threads on different objects, buffers and streams have the same results '
     '(values, bytes, stream positions, exceptions) as when each runs alone, also when the objects are of the same '
     'class or of classes sharing hints.',
     ['schedules', 'inputs', 'programs'],
     'every interleaving, at the granularity of source lines and byte code instructions, of packing and unpacking '
     'operations in several threads over shared classes',
     'No test uses threads, and a wrong interleaving needs a switch inside a window of a few instructions.',
     ALL_SER + [S + 'structured.py', S + 'hint_types/strings.py', S + 'hint_types/arrays.py'],
     [('per-thread operation state', SER + 'api.py:PerThread'),
      ('per-operation specialized serializer', SER + 'api.py:_SpecializedCompoundSerializer')],
     [('size', 'bytes of the last operation', SER + 'api.py:Serializer.size'),
      ('_partial_object', 'object being processed', SER + 'arrays.py, ' + SER + 'unions.py, ' + SER + 'tuples.py')],
     SIX + ('pack', 'pack_into', 'pack_write'))

prop('C09', 'Nested operations do not disturb the enclosing one',
     'While an operation is in progress, user code that it calls (deciders, conditions, encoders and decoders, '
     'factories, initializers, the stream) may itself pack and unpack objects of any class, the same class included, '
     'to any depth. The enclosing and the nested operations all have the results they would have had alone; the same '
     'holds for classes that contain themselves directly or within arrays, tuples, unions and conditions.',
     ['histories', 'inputs', 'programs'],
     'every layout, every callback invocation as the point at which any operation is nested, every nesting of '
     'self-referential values',
     'Tests have callbacks that only read an attribute, and a few fixed self-referential values.',
     ALL_SER + [S + 'structured.py'],
     [('state is read before and set after nested use', SER + 'api.py module docstring'),
      ('restoring the partial object', SER + 'unions.py:LookbackDecider.decide'),
      ('restoring the size after initializing', S + 'structured.py:Structured._create_from_proxy')],
     [('size', 'bytes of the last operation', SER + 'api.py:Serializer.size'),
      ('_partial_object', 'object being processed', SER + 'arrays.py, ' + SER + 'unions.py, ' + SER + 'tuples.py')],
     SIX + ('pack', 'pack_into', 'pack_write'))

prop('C10', 'An operation aborted at any instant leaves no trace',
     'If an operation is ended by an exception at any instant (an interrupt, a failed allocation, an error raised by a '
     'callback, a bad value or bad data), every later operation in the same process behaves as it would in a fresh '
     'one. This includes defining classes: after a definition was aborted or rejected, it can be repeated, and other '
     'classes work as before.',
     ['crash_points', 'histories', 'fault_sequences'],
     'every instant (line or instruction) inside the library at which an asynchronous exception can be raised, any '
     'number of aborted operations, every later history',
     'Tests assert that some errors are raised, and use nothing afterwards; asynchronous exceptions are not tested.',
     ALL_SER + [S + 'structured.py', S + 'type_checking.py', S + 'hint_types/strings.py', S + 'hint_types/arrays.py'],
     [('all operation state is set anew by the next operation', 'prepack/preunpack of every serializer'),
      ('caches are filled in one step', SER + 'structs.py:compute_num_values, ' + SER + 'structured.py:_transform')],
     [('caches', 'hint and serializer caches', S + 'hint_types, ' + SER + 'structs.py, ' + SER + 'structured.py')],
     SIX + ('pack', 'pack_into', 'pack_write', 'class statement'))

prop('C11', 'Records are decoded from a live stream as they arrive',
     'On a blocking stream that can only be read forward, a record whose layout determines its own length (no '
     'terminated, .NET or consume-to-end strings, no lookahead) is unpacked as soon as its last byte has arrived: no '
     'byte beyond it is requested, and the stream is neither asked to seek nor to tell. Peers that exchange requests '
     'and responses this way therefore always make progress, whatever the segmentation and delay of the bytes and '
     'however small the buffers between them.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every length-determined layout, every segmentation, delay and back-pressure of the byte stream, every '
     'interleaving of the peers',
     'Tests read from seekable in-memory streams holding all bytes up front; a read too far never blocks there.',
     [SER + 'structs.py', SER + 'strings.py', SER + 'arrays.py', SER + 'tuples.py', SER + 'api.py', S + 'structured.py'],
     [('exact reads', SER + 'structs.py:StructSerializer.unpack_read'),
      ('length-prefixed reads', SER + 'strings.py:DynamicCharSerializer.unpack_read, ' + SER + 'arrays.py')],
     [], ('create_unpack_read', 'unpack_read', 'pack_write'))

prop('C12', 'The reported size is that of the operation just completed',
     'Immediately after a packing or unpacking operation completes, the size attribute of the serializer used reports '
     'the number of bytes that this operation produced or consumed. This holds after any history of other, failed or '
     'nested operations, and regardless of operations in other threads.',
     ['histories', 'schedules', 'inputs'],
     'every layout and value, every operation, every preceding history including failed ones, every interleaving with '
     'other threads',
     'Tests look at sizes of a few fixed values right after an operation on a fresh class.',
     ALL_SER + [S + 'structured.py'],
     [('size set when an operation completes', 'every serializer'),
      ('per-thread size', SER + 'api.py:PerThread')],
     [('size', 'bytes of the last operation', SER + 'api.py:Serializer.size')],
     ('cls.serializer.size', 'obj.serializer.size'))

prop('C13', 'Callbacks see exactly what has been decoded so far',
     'Deciders and conditions are called just before the attribute they govern is processed. When unpacking they see '
     'every attribute that precedes it with its decoded value, and a newly created object shows none that follow; when '
     'packing they are given the object being packed itself. This holds in any nesting and under concurrent or '
     'previously failed operations.',
     ['histories', 'schedules', 'inputs'],
     'every layout with unions and conditions at any position and depth, every operation, every history and '
     'interleaving',
     'Tests use deciders reading one earlier attribute of a fixed class, in one thread.',
     [SER + 'api.py', SER + 'unions.py', SER + 'conditional.py', SER + 'arrays.py', SER + 'tuples.py', S + 'structured.py'],
     [('lazy unpacking interleaved with assignment', S + 'structured.py:_Proxy.__call__, Structured.unpack*'),
      ('partial object forwarding', SER + 'api.py:_SpecializedCompoundSerializer')],
     [('partial object', 'proxy or object being unpacked', S + 'structured.py:_Proxy')],
     ('decider and condition arguments',))

prop('C14', 'Defining or deriving classes never alters existing ones',
     'Defining further classes (subclasses with added or overridden members, other byte orders, generic '
     'specializations, definitions that are rejected) or deriving objects with another byte order, in any order, '
     'interleaved with use and from several threads, leaves the layout, attributes and behaviour of all existing '
     'classes and objects unchanged. Each new class behaves the same whatever was defined before it.',
     ['histories', 'schedules', 'programs'],
     'every history of class definitions, specializations and byte-order derivations over shared bases and hints, '
     'every interleaving of those with each other and with operations',
     'Tests define each class once and look only at the class just defined; the hint and specialization caches are '
     'shared by all of them.',
     [S + 'structured.py', S + 'type_checking.py', S + 'utils.py', S + 'hint_types/arrays.py', S + 'hint_types/strings.py',
      SER + 'structs.py', SER + 'structured.py', SER + 'unions.py', SER + 'tuples.py'],
     [('new serializers instead of changes in place', 'with_byte_order and __add__ of every serializer'),
      ('immutable aliases', S + 'utils.py:StructuredAlias.resolve'),
      ('caches keyed by arguments', S + 'hint_types, ' + SER + 'structured.py:_specializations')],
     [('caches', 'hint and specialization caches', S + 'hint_types, ' + SER + 'structured.py')],
     ('class statement', 'with_byte_order', 'attrs', 'pack', 'create_unpack'))

prop('C15', 'Damaged data ends in a result or an exception, with bounded work',
     'Whatever bytes are unpacked (flipped, cut, repeated, or a count or length damaged to any value), the operation '
     'ends with a result or an exception after work and memory in proportion to the bytes present, not to the numbers '
     'in them, for layouts whose array items take at least one byte. The damage is contained: the source is not '
     'modified and later operations on sound data succeed.',
     ['fault_sequences', 'inputs'],
     'every layout, every stored-byte fault in every position, every unpacking call',
     'The tests have no damaged input; a damaged 32 or 64 bit count shows only as time or memory.',
     [SER + 'arrays.py', SER + 'strings.py', SER + 'structs.py', SER + 'unions.py', S + 'structured.py'],
     [('available bytes are checked before sizing anything', SER + 'arrays.py:DynamicStructArraySerializer._unpacker'),
      ('length checks', SER + 'strings.py:_check_length')],
     [], SIX)

NA = []


def na(id, title, statement, over, text, why, files, mechanism, reason):
    prop(id, title, statement, over, text, why, files, mechanism)
    NA.append({'property': id, 'reason': reason})


PURE = ('a pure function of its inputs: there is no schedule, clock, fault, I/O or second party in it for a simulator '
        'to decide, so simulating it would be plain input generation')
FEW = 'Tests cover a few fixed examples of an unbounded set of inputs.'

na('C16', 'Basic types use the struct module\'s representation',
   'Each basic type packs to and unpacks from the bytes that the struct module gives for its format character in the '
   'class\'s byte order, and adjacent basic members are laid out as one combined format. Values out of range are '
   'rejected.', ['inputs', 'programs'], 'all sequences of basic members, all values, all byte orders', FEW,
   [SER + 'structs.py', S + 'hint_types/basic_types.py'], [('fold_overlaps', SER + 'structs.py')],
   'The wire format of one value is ' + PURE + '. (C01 compares with an independent model of it in passing.)')
na('C17', 'String types have the documented encodings and limits',
   'Fixed, length-prefixed, terminated, .NET and consume-to-end strings have their documented encodings, unicode is '
   'exactly its encoding through the chosen codec, and strings too long for their prefix are rejected.',
   ['inputs'], 'all strings, length kinds and codecs', FEW, [SER + 'strings.py', S + 'hint_types/strings.py'],
   [('string serializers', SER + 'strings.py')], 'The encoding of one string is ' + PURE + '.')
na('C18', 'Arrays honour their header',
   'An array packs its documented header followed by its items, rejects a wrong fixed length, and on unpacking rejects '
   'a data size other than that of the items.', ['inputs'], 'all arrays, headers and item types', FEW,
   [SER + 'arrays.py', S + 'hint_types/arrays.py'], [('header handling', SER + 'arrays.py')],
   'Header semantics for one array are ' + PURE + '.')
na('C19', 'Unions and conditions select by their callbacks\' results',
   'The alternative used is the one mapped to the decider\'s result, else the default, else a ValueError; a false '
   'condition writes and reads nothing and gives the default.', ['inputs'], 'all decider results and maps', FEW,
   [SER + 'unions.py', SER + 'conditional.py'], [('get_serializer', SER + 'unions.py')],
   'The mapping from a decider result to an alternative is ' + PURE + '. (When callbacks run and what they see is '
   'C13, what they may do is C09.)')
na('C20', 'Subclasses compose their bases\' members',
   'A subclass has its base\'s members in order, with overridden hints in their original place and new members after '
   'them; unannotated or unserializable hints are ignored.', ['programs'], 'all inheritance chains', FEW,
   [S + 'structured.py'], [('__init_subclass__', S + 'structured.py')],
   'Composition of one definition is ' + PURE + '. (That definitions do not influence each other is C14.)')
na('C21', 'Generic parameters resolve to their arguments',
   'Specializing a generic class, in one or several steps, gives the class that results from writing the arguments in '
   'place of the parameters.', ['programs'], 'all generic classes and specializations', FEW,
   [S + 'structured.py', S + 'utils.py', SER + 'structured.py'], [('_get_specialization_hints', S + 'structured.py')],
   'Resolution of one specialization is ' + PURE + '. (Isolation between specializations is C14.)')
na('C22', 'Generated methods follow the members',
   'The generated initializer takes one argument for each serialized member in order, equality compares type and '
   'members, and the string forms show them.', ['programs', 'inputs'], 'all classes and values', FEW,
   [S + 'structured.py'], [('gen_init', S + 'structured.py'), ('__eq__', S + 'structured.py')],
   'Generated methods are ' + PURE + '.')
na('C23', 'Invalid definitions are rejected when defined',
   'Consume-to-end members that are not last, conflicting byte orders, unindexed hints, wrong deciders and several '
   'structured bases are rejected when the class is defined.', ['programs'], 'all invalid definitions', FEW,
   [S + 'structured.py', SER + 'api.py', S + 'base_types.py'], [('get_final', SER + 'api.py')],
   'Validation of one definition is ' + PURE + '. (That a rejected definition leaves no trace is C10.)')
na('C24', 'Byte order applies to every member',
   'Every multi-byte member, inside tuples, arrays, unions and prefixes too, is in the byte order of the class that '
   'declares it.', ['programs', 'inputs'], 'all layouts and byte orders', FEW, ALL_SER,
   [('with_byte_order', 'every serializer')], 'Byte order conversion of one layout is ' + PURE + '.')
na('C25', 'Custom types are rebuilt through their factory',
   'A member serialized through another type is packed by its conversion to that type and unpacked by calling its '
   'class or factory with the unpacked value.', ['inputs'], 'all custom types', FEW,
   [S + 'hint_types/serialize_as.py', SER + 'structs.py'], [('StructActionSerializer', SER + 'structs.py')],
   'Conversion of one value is ' + PURE + '.')

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, 'properties.jsonl'), 'w') as out:
    for p in P:
        out.write(json.dumps(p) + '\n')
with open(os.path.join(root, 'tools', 'not_applicable.json'), 'w') as out:
    json.dump(NA, out, indent=1)
    out.write('\n')
