"""Writes properties.jsonl (one place to edit the property texts)"""
import json

P = []


def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


AV = 'ser_raw/src/storage/aligned_vec.rs'
ST = 'ser_raw/src/storage/mod.rs'
SER = 'ser_raw/src/serializer.rs'
POS = 'ser_raw/src/pos.rs'
TR = 'ser_raw/src/serializer_traits/'
IM = 'ser_raw/src/serialize_impls/'
SS = 'ser_raw/src/serializers/'
DS = 'ser_raw_derive/src/'
DD = 'ser_raw_derive_serializer/src/'

p('C01', 'CompleteSerializer output is a valid, self-contained image of the input',
  'For every value built from the supported types, the bytes which CompleteSerializer leaves at the returned position are a valid instance of the value\'s own type, in which every owning pointer (of a non-zero-sized Box, or non-empty Vec or String of non-zero-sized elements, at any depth) holds the address, in the returned storage, of the copy of exactly the elements it owned. Scalars, lengths and discriminants are bit-identical to the input, and no pointer in the output which owns memory refers to memory of the input.',
  ['inputs', 'configurations'],
  'every input value (any lengths, capacities, element contents, nesting of Box/Vec/String/Option/tuple/array/derived types), every storage configuration, starting from any storage contents',
  'Tests serialize a handful of literals with one or two configurations and always from an empty storage; wrong pointer or offset arithmetic can be masked by the buffer happening not to move or by the value sitting at position 0.',
  [TR + 'complete.rs', TR + 'ptr_writing.rs', IM + 'ptrs.rs', SS + 'complete.rs', POS],
  [('pointer slots are overwritten with the address of the pushed copy', TR + 'complete.rs'), ('position mapping from input address to output position', POS)],
  ['CompleteSerializer::serialize', 'CompleteSerializer::serialize_value', 'CompleteSerializer::finalize'])
p('C02', 'Pointers written before the buffer moved are right after finalize',
  'However often and whenever the storage\'s memory moves while CompleteSerializer (or any serializer of type `complete`) is writing, after finalize every pointer it recorded (each slot of a value being recorded once) equals the final address of the storage plus the position of its target, corrected exactly once. Nothing else in the storage is altered by the correction, including when the memory returns to an address it had before.',
  ['histories', 'inputs'],
  'every sequence of pointer writes and relocations (growth by any amounts, at any point, to any address, including repeated addresses), any number of recorded pointers',
  'Whether and where the allocator moves memory is outside the tests\' control: they see one allocator history; in-place growth or an address being reused hides a missing or doubled correction.',
  [TR + 'complete.rs', POS],
  [('groups of pointer positions, keyed by storage address at time of writing', TR + 'complete.rs'), ('correction of past groups by the difference of addresses', POS)],
  ['Complete::do_overwrite_ptr', 'Complete::do_finalize', 'PtrGroup::correct_ptrs'])
p('C03', 'PtrOffsetSerializer pointers are positions of their targets',
  'In the output of PtrOffsetSerializer every pointer slot of a non-empty, non-zero-sized Box, Vec or String, at any depth, contains the position in the storage at which the data it points to was copied, and that data is bit-identical to the input apart from such slots; lengths, capacities and headers of empty containers are left as they are in the input.',
  ['inputs', 'configurations'],
  'every input value of supported types, every storage configuration and initial storage contents and position',
  'Tests check a few shapes from empty storages; slots written at the wrong place for values which are not first in their storage, or after the buffer grew, are not sampled.',
  [TR + 'ptr_offset.rs', TR + 'ptr_writing.rs', SS + 'ptr_offset.rs', IM + 'ptrs.rs', POS],
  [('slot position found through the position mapping', POS), ('target position written in slot', TR + 'ptr_offset.rs')],
  ['PtrOffsetSerializer::serialize'])
p('C04', 'PureCopySerializer output is the input\'s memory, verbatim, depth first',
  'PureCopySerializer writes each value\'s bytes unchanged, followed depth-first and in field order by the bytes of everything it points to, each at the next suitably aligned position; it never rewrites bytes once written, and performs no capacity or pointer corrections. Positions depend only on sizes, alignments and lengths.',
  ['inputs', 'configurations'],
  'every input value of supported types, every storage configuration and initial storage contents and position',
  'Tests compare against expected layouts of a few literals with default configuration.',
  [SS + 'pure_copy.rs', SER, IM + 'ptrs.rs', IM + 'multiples.rs'],
  [('default methods of Serializer, which ignore overwrites', SER)],
  ['PureCopySerializer::serialize'])
p('C05', 'Every value pushed lands at its type\'s alignment',
  'Every position handed out for a value of type T is a multiple of the alignment of T, the storage\'s memory is always aligned to STORAGE_ALIGNMENT (also when nothing has been allocated yet), and after every operation the current position is a multiple of VALUE_ALIGNMENT.',
  ['inputs', 'configurations', 'histories'],
  'every storage configuration, element type whose alignment does not exceed MAX_VALUE_ALIGNMENT, slice length, current position and capacity',
  'Alignment depends on position modulo alignment, configuration and the allocator; tests use few combinations, and x86 tolerates misaligned accesses.',
  [ST, AV, 'ser_raw/src/util.rs'],
  [('align_for before and align_after following each push', ST), ('allocation with STORAGE_ALIGNMENT', AV)],
  ['Storage::push', 'Storage::push_slice', 'Storage::push_empty', 'ContiguousStorage::as_ptr'])
p('C06', 'No operation reads or writes outside the storage or the input',
  'No operation of a storage or serializer, used within its documented contract, accesses memory outside of the storage\'s current allocation or the input value, uses freed or uninitialised memory, or makes the position exceed the capacity. Arithmetic on positions, sizes and lengths never wraps into a wrong result: where it would overflow, the operation panics.',
  ['inputs', 'histories', 'configurations'],
  'every reachable capacity and position, every slice length and additional size up to usize::MAX, every configuration',
  'Tests use small sizes; off-by-one writes within an allocation\'s slack and wrapping of huge lengths in release builds go unnoticed.',
  [AV, ST, POS],
  [('reserve before write', ST), ('capacity arithmetic in growth', AV)],
  ['Storage::push_slice', 'Storage::push_empty_slice', 'Storage::reserve', 'RandomAccessStorage::write'])
p('C07', 'Growth keeps the contents and provides enough room',
  'Growing a storage, by any amount and at any position, keeps every byte already written, leaves the position where it was, and ends with a capacity which holds the reserved bytes, is at least the old capacity and is a multiple of MAX_VALUE_ALIGNMENT. When there is already enough room nothing is reallocated and the capacity does not change.',
  ['histories', 'inputs', 'configurations'],
  'every capacity, position and additional size, every configuration, whether memory is extended in place or moved',
  'Tests grow from a few capacities by small amounts.',
  [AV], [('grow_for_reserve', AV), ('realloc with the old layout', AV)],
  ['Storage::reserve', 'Storage::push_slice'])
p('C08', 'Memory is freed once, with the layout it was allocated with',
  'Every allocation a storage makes is freed exactly once, with the size and alignment it was allocated with, whether it is dropped, shrunk to nothing, replaced during growth or dropped while panicking; zero-size allocations are never requested; a failed allocation is reported through the allocation error handler and never dereferenced.',
  ['histories', 'fault_sequences', 'configurations'],
  'every sequence of operations from every state, allocation failure at any point, every configuration',
  'The system allocator ignores the layout given on free, so tests pass with mismatched layouts; allocation failure is never injected.',
  [AV], [('alloc / realloc / dealloc / layout', AV), ('Drop', AV)],
  ['AlignedVec drop', 'Storage::shrink_to_fit', 'Storage::reserve'])
p('C09', 'Returned positions are where the data is',
  'The position returned by every push or serialize operation of something which is not zero-sized is the position at which exactly the given bytes can be read back afterwards; it is the first position at or after the previous end which is suitably aligned, and the new end is just after the data, rounded up to VALUE_ALIGNMENT. Bytes before the returned position are untouched.',
  ['inputs', 'histories', 'configurations'],
  'every element type, length, position, capacity and configuration, for storage and for every serializer',
  'Tests check positions for few types and start positions; padding and growth interplay is sampled only.',
  [ST, SER, TR + 'pos_tracking.rs'], [('position captured after aligning and reserving', ST)],
  ['Storage::push', 'Storage::push_slice', 'Storage::push_bytes', 'Serializer::serialize', 'Serializer::serialize_value'])
p('C10', 'Excess capacity of Vec and String is normalised',
  'In the output of CompleteSerializer (and serializers of type `complete`), every Vec or String of non-zero-sized elements which has spare capacity is recorded with capacity equal to its length; an empty one with non-zero capacity is recorded with capacity 0 and the dangling pointer of its element type. Memory beyond the length is not copied, and nothing else in the header changes.',
  ['inputs'],
  'every length and capacity, element type, and place of the Vec or String within the value (nested, in slices, in fields at any offset)',
  'Tests cover a few lengths and capacities at one nesting level.',
  [IM + 'ptrs.rs', TR + 'writable.rs'], [('overwrite of capacity and pointer', IM + 'ptrs.rs')],
  ['Serialize for Vec', 'Serialize for String'])
p('C11', 'derive(Serialize) visits every field exactly once, in order',
  'For every struct or enum, `#[derive(Serialize)]` produces code which serializes the data of each field of the value (of the variant which is active, for enums) exactly once, in declaration order, using the proxy given by `#[ser_with]` where there is one and nothing else for that field. It accepts every legal definition of a struct or enum whose fields are serializable with any serializer and can be borrowed (fields whose type is a type parameter need a bound the derive does not add, and are out of scope).',
  ['programs', 'inputs'],
  'every type definition: named, tuple and unit structs, enums with any mix of variants, generics, where clauses, raw identifiers, `ser_with` on any field including enum variants',
  'The derive is a program over programs; tests derive a dozen shapes.',
  [DS + 'structs.rs', DS + 'enums.rs', DS + 'lib.rs'], [('one statement generated per field', DS + 'structs.rs'), ('match arms', DS + 'enums.rs')],
  ['expansion of derive(Serialize)'])
p('C12', 'Derived serializers behave like the built-in one of their type',
  'A user-defined serializer made with `#[derive(Serializer)]` and `ser_type` pure_copy, pos_tracking, ptr_offset or complete behaves, for every value and storage, exactly as the built-in serializer of that type (as a pure copy which in addition tracks positions, for pos_tracking): same bytes, positions, pointer values and corrections, whatever the order and names of its fields and its generics, and whether its storage is owned, borrowed or held by anything else which can be borrowed as the storage.',
  ['programs', 'inputs', 'configurations'],
  'every struct (not named after a trait of ser_raw) with fields tagged as the derive asks for, every input and storage state',
  'Tests define three serializers of simple form and serialize a few values.',
  [DD + 'lib.rs', DD + 'common.rs', DD + 'ser_types/complete.rs', DD + 'ser_types/ptr_offset.rs', DD + 'ser_types/pure_copy.rs'],
  [('trait impls generated for each ser_type', DD + 'ser_types/mod.rs')],
  ['expansion of derive(Serializer)'])
p('C13', 'Containers serialize each of their contents exactly once, in order',
  'Serializing a tuple, array, Option, Box or Vec delegates to each contained value exactly once, in order, passing the very value held by the container (not a copy); None, empty and primitive values delegate to nothing and add no data. For Box and Vec the contents are copied as one contiguous block before any of them is visited; zero-sized contents of a Box or Vec need not be visited.',
  ['inputs', 'programs'],
  'tuples of every supported arity, arrays and Vecs of any length, every element type, every serializer',
  'Tests use small arities and lengths and elements without data of their own.',
  [IM + 'multiples.rs', IM + 'other.rs', IM + 'ptrs.rs', IM + 'primitives.rs'], [('serialize_data of each container', IM)],
  ['Serialize::serialize_data'])
p('C14', 'Invalid configurations are rejected at compile time',
  'A program which instantiates a storage with inconsistent alignments or maximum capacity, or pushes or serializes into it a (not zero-sized) type whose alignment exceeds MAX_VALUE_ALIGNMENT, does not compile; every consistent configuration does.',
  ['programs', 'configurations'],
  'every choice of the four storage parameters and every element type, through every entry point which constructs a storage or pushes',
  'A test which must not compile cannot be a unit test; the repository has none.',
  [ST, AV], [('ASSERT_ALIGNMENTS_VALID', ST), ('ASSERT_ALIGNMENT_DOES_NOT_EXCEED', ST)],
  ['rustc'])
p('C15', 'Serializing never modifies or consumes the input',
  'No serializer ever writes to the value being serialized or to anything it owns, frees any of it, or keeps a reference to it after returning; the input is equally usable afterwards whether serialization succeeded or panicked.',
  ['inputs', 'crash_points'],
  'every value, serializer and point of unwinding',
  'Tests do not compare the whole memory of the input before and after, in particular its capacities and pointers.',
  [IM + 'ptrs.rs', IM + 'bigint.rs', SER, TR], [('shared references only', SER)],
  ['Serializer::serialize', 'Serialize::serialize_data'])
p('C16', 'No hidden shared state; threads cannot interfere',
  'Serialization has no effect other than on its own storage and serializer: no global, static mutable, thread-local, file, environment or clock state is read or written, so independent serializations can run concurrently in any interleaving with the same result. Types which are declared Send or Sync contain nothing which would make that unsound, and methods which take a shared reference to a storage or serializer write nothing; storages, and serializers which own their storage, are Send and Sync.',
  ['schedules', 'histories'],
  'every interleaving of serializations on separate storages, every prior history of the process',
  'Tests are single-threaded.',
  [AV, SER, POS], [('all state lives in the serializer and storage', SER), ('unsafe impl Send / Sync', AV)],
  ['whole crate'])
p('C17', 'A panic leaves the storage consistent',
  'If serialization or a storage operation panics at any point (a user Serialize implementation, capacity exceeded, length overflow), a borrowed storage is left with position not beyond capacity, capacity matching its allocation and all data present before the operation intact, and it can be used further or dropped without error; an owned storage is freed.',
  ['crash_points', 'inputs'],
  'every point at which user code is called or a check can panic, every storage state',
  'No test panics in the middle of serialization.',
  [AV, ST, TR + 'pos_tracking.rs', TR + 'ptr_writing.rs'], [('capacity and pointer updated together, after allocation', AV)],
  ['Storage::reserve', 'Serializer::serialize'])
p('C18', 'new, with_capacity, clear and shrink_to_fit do what they say',
  'A new storage is empty and unallocated; with_capacity gives at least the capacity asked for, rounded up to MAX_VALUE_ALIGNMENT, at position 0 (nothing allocated for 0); clear sets the position to 0 and keeps capacity and allocation; shrink_to_fit keeps contents and position and reduces the capacity to the position rounded up to MAX_VALUE_ALIGNMENT, releasing the memory if that is 0, without disturbing later pushes.',
  ['inputs', 'histories', 'configurations'],
  'every capacity and position, every configuration',
  'Tests use a few literal capacities.',
  [ST, AV], [('with_capacity', ST), ('shrink_to_fit', AV)],
  ['Storage::new', 'Storage::with_capacity', 'Storage::clear', 'Storage::shrink_to_fit'])
p('C19', 'Zero-sized values leave no trace',
  'Pushing (`push`, `push_slice` and the like) or serializing zero-sized values, or the contents of Boxes and Vecs of zero-sized types of any length, writes no bytes, records no pointer, never moves or allocates memory and leaves the position unchanged apart from the container\'s own header. It accesses no memory through invalid pointers, also on a storage which has not been allocated.',
  ['inputs', 'configurations'],
  'every zero-sized type and alignment, every length up to usize::MAX, allocated and unallocated storages',
  'Tests push () a few times.',
  [ST, IM + 'ptrs.rs', AV], [('size_of::<T>() == 0 early returns', ST)],
  ['Storage::push_slice', 'Serialize for Box', 'Serialize for Vec'])
p('C20', 'A storage can be reused, borrowed and prefilled',
  'Serializing into a borrowed or reused storage appends after whatever it already holds: earlier contents and positions stay valid and unchanged (through any number of values), pointers of each value serialized by the same serializer refer to its own data, and after finalize a borrowed storage is back with its owner while an owned one is handed over intact without copying or freeing. Serializing after clear gives the same layout as a fresh storage.',
  ['histories', 'inputs'],
  'every content, capacity and position of the storage given, any sequence of values',
  'Tests reuse a storage once or twice with literals.',
  [SER, SS + 'complete.rs', SS + 'ptr_offset.rs', SS + 'pure_copy.rs', TR + 'complete.rs'],
  [('from_storage / into_storage', SS), ('finalize', SER)],
  ['from_storage', 'serialize_value', 'finalize'])
p('C21', 'Big integers are serialized completely',
  'For every BigUint and BigInt, of either sign and any number of digits, exactly the used digits are copied and referenced from the value\'s copy as for a Vec of machine words; the sign is preserved, nothing of the header but pointer and capacity changes, and no temporary used to find the layout leaks or is freed twice.',
  ['inputs'],
  'every digit vector (length, capacity, contents) and sign',
  'Tests use two or three numbers.',
  [IM + 'bigint.rs'], [('reinterpretation as Vec<usize>', IM + 'bigint.rs'), ('bigint_data_offset', IM + 'bigint.rs')],
  ['Serialize for BigInt', 'Serialize for BigUint'])
p('C22', 'Address-to-position mapping is scoped to the block being processed',
  'While the contents of a pushed block are being processed, the position reported for an address inside the block is the position of its copy; after processing ends the mapping of the enclosing block is in force again, at every nesting depth and across successive values. Overwrites made by user code therefore hit the copy of exactly the object addressed.',
  ['inputs', 'programs', 'histories'],
  'every nesting of blocks, every address within a block, every sequence of values, all serializers which track positions',
  'Tests read one mapping each for simple cases.',
  [POS, TR + 'pos_tracking.rs', TR + 'ptr_writing.rs', TR + 'writable.rs'], [('mapping saved and restored around process', TR + 'ptr_writing.rs')],
  ['PosTracking::pos_for', 'Serializer::overwrite'])
p('C23', 'Random access touches exactly the range addressed',
  'write, write_slice, read, read_mut, ptr and mut_ptr on a storage refer to exactly the bytes at the position given: a write changes those bytes to the value and no others, a read returns what was last written there, and none of them moves the position, changes the capacity or reallocates.',
  ['inputs', 'histories', 'configurations'],
  'every position, value type and length within the capacity, every storage state',
  'Tests write and read a couple of positions.',
  [AV, ST], [('write_slice', AV), ('read / read_mut', AV)],
  ['RandomAccessStorage'])
p('C24', 'Capacity limit is exact',
  'A push or reserve panics if and only if the data, with the alignment padding it needs, would end beyond MAX_CAPACITY; when it fits it succeeds, when it panics nothing has been written and the capacity never exceeds MAX_CAPACITY, which is at most isize::MAX rounded down to the storage alignment.',
  ['inputs', 'configurations', 'histories'],
  'every MAX_CAPACITY, position, capacity and size, including sizes close to usize::MAX',
  'Tests probe the limit with two small configurations.',
  [AV, ST], [('assert new_cap <= MAX_CAPACITY', AV), ('checked_add', AV)],
  ['Storage::reserve', 'Storage::push_slice', 'Storage::with_capacity'])
p('C25', 'Copies compare equal to their originals under user-defined equality',
  'For every type and every user-written PartialEq, the value reinterpreted from the CompleteSerializer output compares equal to the input.',
  ['inputs', 'programs'],
  'every type and equality',
  'Equality is arbitrary user code.',
  [TR + 'complete.rs'], [('whole pipeline', TR)], ['CompleteSerializer::serialize'])
p('C26', 'Serialization speed is within a constant factor of memcpy',
  'Serializing copies each byte of the value a bounded number of times, and its wall-clock time stays within a constant factor of copying the bytes.',
  ['inputs'], 'all inputs', 'Timing is not asserted by tests.',
  [AV, SER], [('bulk copies', AV)], ['wall clock'])

with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        assert x['statement'].count('. ') <= 3
        f.write(json.dumps(x) + '\n')
print(len(P))
