"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
H, IN, CF, FS = 'histories', 'inputs', 'configurations', 'fault_sequences'

# id, title, statement, over, quantifier text, why tests can't, files, mechanism[(name, where)], claim: None or dict, reason when not claimed
P = []


def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na))


T = 'contracts on the real functions (LLVM IR extracted on every run), verification conditions discharged by z3/cvc5'
TB = T + '; bounded driver for the functions out of reach'
A = ('Trusts clang\'s front end and four simplification passes, the verification-condition generator in tpv/, z3 and cvc5; ')

prop('C01', 'In-memory arrays hold exactly what was stored, across copy, resize and swap',
     'An array of n elements holds, at every index, the value last stored there; construction, fill, copy and copy assignment (including to itself) produce element-wise equal independent arrays, '
     'resize gives an array of exactly the requested size, and swap exchanges the two contents. No operation reads or writes outside the allocation and every element access through iterators and views refers to the element of that index.',
     [IN, H], 'every size, element values and sequence of operations', 'tests use a few fixed sizes and values; the guarantee is for every size and every history',
     ['tpie/array.h', 'tpie/array_view.h', 'tpie/array_view_base.h'], [('allocator_usage / array', 'tpie/array.h'), ('array_view_base', 'tpie/array_view_base.h')],
     claim=dict(level='proof', technique=TB, note=A + 'proved for a plain 64-bit element; non-trivial element types, std::copy and array_view construction are covered by the bounded driver only.'))
prop('C02', 'Packed arrays behave as arrays of small integers with no cross-talk',
     'Storing a value that fits in the configured number of bits at one index makes exactly that index read back that value and leaves every other index unchanged; the iterators visit the elements in index order and their arithmetic and comparisons agree with index arithmetic. This holds for every element width and every size, also where sizes do not fill a whole word.',
     [IN, CF], 'every width, size, index and value', 'tests cover one or two widths with random fills; cross-talk needs every index/width combination',
     ['tpie/packed_array.h', 'tpie/bit_array.h'], [('packed_array_bool / entry proxies', 'tpie/packed_array.h')],
     claim=dict(level='proof', technique=T, note=A + 'proved for all seven element widths that divide the 64-bit word, lane by lane; words are mathematical integers and shifts/masks are rewritten to div/mod.'))
prop('C03', 'Internal stack and vector are exact LIFO / indexed sequences',
     'For every sequence of operations within capacity, the internal stack returns elements in last-in first-out order and the internal vector returns at index i the i-th element appended and not yet removed; size and emptiness always agree with the number of elements present. Operations touch only the element they add or remove, and resizing or clearing leaves an empty container of the given capacity.',
     [H, IN], 'every operation history, capacity and element value', 'unit tests push and pop one pattern of a fixed size',
     ['tpie/internal_stack.h', 'tpie/internal_vector.h', 'tpie/internal_stack_vector_base.h'], [('top index over a fixed array', 'tpie/internal_stack_vector_base.h')],
     claim=dict(level='proof', technique=T, note=A + 'assumes the documented capacity preconditions.'))
prop('C04', 'Internal queue is an exact FIFO for every interleaving of pushes and pops',
     'For every sequence of operations within capacity, the internal queue delivers the elements in exactly the order in which they were pushed, however often the positions wrap around the underlying buffer; front and back name the oldest and newest element. size, empty and full always agree with the number of elements queued.',
     [H, IN], 'every operation history, capacity and element value', 'the unit test uses one size and a few interleavings; wrap-around depends on the exact history',
     ['tpie/internal_queue.h'], [('first/last counters modulo the capacity', 'tpie/internal_queue.h')],
     claim=dict(level='proof', technique=T, note=A + 'assumes the documented capacity preconditions and fewer than 2^63 pushes.'))
prop('C05', 'Internal priority queue always yields a minimum and never loses elements',
     'After any sequence of insertions, removals and replacements, the top of the internal priority queue is an element that no other queued element precedes in the given order, and the multiset of queued elements is exactly what was inserted minus what was removed. This holds for any strict weak order, with ties, and for bulk construction followed by re-establishing the order.',
     [H, IN], 'every operation history, capacity, element multiset and strict weak order', 'tests use random integers; heap corruption can be hidden by the element pattern',
     ['tpie/internal_priority_queue.h', 'tpie/util.h'], [('binary heap', 'tpie/internal_priority_queue.h'), ('pop_and_push_heap', 'tpie/util.h')],
     claim=dict(level='proof', technique=T, note=A + 'the libstdc++ heap algorithms (push_heap, pop_heap, make_heap) are used through assumed contracts.'))
prop('C06', 'Merge heaps keep each element with its run and yield a minimum',
     'The merge heaps always yield an element that is minimal among those inserted and not removed, together with the very run or tag it was inserted with; removing and replacing affect only that element. The sizes reported always equal the number of elements present.',
     [H, IN], 'every operation history, elements, run numbers and strict weak order', 'only tested indirectly through the external priority queue on random input',
     ['tpie/pq_merge_heap.h', 'tpie/pq_merge_heap.inl', 'tpie/mergeheap.h'], [('sift up / sift down on two parallel arrays', 'tpie/pq_merge_heap.inl')],
     claim=dict(level='proof', technique=TB, note=A + 'pq_merge_heap proved in full; the two tagged heaps proved over the contract of the internal priority queue (C05); whole histories and non-trivial elements bounded.'))
prop('C07', 'Disjoint sets answer exactly the equivalence generated by the unions',
     'After any sequence of set creations and unions, two elements have the same representative exactly when they were connected by unions, the representative is itself a member of the set, and looking up never changes the answer of any later lookup. The number of sets reported equals the number of classes, and membership queries report exactly the elements created.',
     [H, IN], 'every history of operations and every key space size', 'tests check a few hand-written unions; path compression depends on the whole history',
     ['tpie/disjoint_sets.h'], [('parent array with path halving', 'tpie/disjoint_sets.h')],
     claim=dict(level='proof', technique=T, note=A + 'ghost representative and rank functions; the value reserved as unused is assumed outside the key space, as documented.'))
prop('C08', 'Tiny sets and maps behave as ordered sets, multisets and maps',
     'The tiny containers keep their elements in the order of the given comparator at all times; lookups, bounds and counts answer exactly as the corresponding standard container would, insertion keeps or rejects duplicates according to the kind of container, and erasing removes exactly the named elements.',
     [H, IN], 'every history, element multiset and strict weak order', 'tests exercise the default comparator on random integers',
     ['tpie/tiny.h'], [('sorted vector with binary search', 'tpie/tiny.h')],
     claim=dict(level='proof', technique=TB, note=A + 'set and multiset proved for a 64-bit element over assumed contracts of std::vector, std::rotate and the binary searches; map, multimap, ranges and comparisons of containers bounded.'))
prop('C09', 'An optional value holds exactly the value it was given, or nothing',
     'An optional value is either empty or holds exactly the value most recently constructed in it; the contained object is constructed and destroyed exactly once per construction, an object whose constructor failed is not held. Filling a full one, and copying, moving or assigning one that holds an object, fails with an error and changes nothing.',
     [H, IN], 'every history of construction, destruction, copies and moves', 'tests run a handful of fixed sequences',
     ['tpie/maybe.h'], [('flag plus in-place storage', 'tpie/maybe.h')],
     claim=dict(level='proof', technique=TB, note=A + 'the contained type is any type whose constructor either makes one live object or throws; move-only arguments by the bounded driver.'))
prop('C10', 'Resource accounting is exact and the limit is enforced',
     'The amount of memory (or number of files) reported as used always equals what was acquired through the library minus what was released, for every sequence of acquisitions and releases including failed ones; the amount reported as available is the limit minus the usage and never negative. When enforcement is set to throw, an acquisition that would exceed the limit fails without changing the usage.',
     [H, IN, CF], 'every history of acquisitions and releases, every limit and enforcement mode', 'tests check a few allocations; drift only shows over specific histories with failures',
     ['tpie/resource_manager.cpp', 'tpie/resource_manager.h', 'tpie/memory.h', 'tpie/memory.cpp', 'tpie/array.h'], [('atomic counter and enforcement', 'tpie/resource_manager.cpp'), ('tpie_new/tpie_delete', 'tpie/memory.h')],
     claim=dict(level='proof', technique=TB, note=A + 'the counter is sequential in the proofs (atomics treated as plain operations, as in any single-threaded history); operator new and the system calls by assumed contracts.'))
prop('C11', 'An uncompressed stream is an exact random-access sequence of items',
     'For every history of reads, writes, seeks and truncations (single or in bulk, forwards or backwards), an uncompressed stream returns at every position the item last written there, its size is the number of items, and its offset is where the next item is read or written. Reading past the end or before the beginning is reported as end of stream, and moving outside the file is rejected, without changing the contents.',
     [H, IN], 'every history of operations, item sizes and block sizes', 'tests use a few fixed patterns; the block boundary and seek interactions depend on the exact history',
     ['tpie/stream_crtp.h', 'tpie/stream_crtp.inl', 'tpie/file_stream_base.h', 'tpie/file_stream_base.cpp', 'tpie/uncompressed_stream.h', 'tpie/file_base_crtp.h'],
     [('current block and item index with a pending block number', 'tpie/stream_crtp.h'), ('block fetch/write-back', 'tpie/file_stream_base.cpp')],
     claim=dict(level='proof', technique=TB, note=A + 'proved for 8-byte items over the contracts of the file accessor (C13), any block size; products of two variables are uninterpreted with ground facts from separate lemmas; other item sizes by the bounded driver.'))
prop('C12', 'Several streams on one file always see each other\'s data',
     'All streams open on the same file observe one sequence of items: what one stream writes is what every stream reads at that position, for every interleaving of their operations; block sharing, reference counting and writing back never lose or duplicate an item. The file size agrees with the furthest write or truncation.',
     [H, IN], 'every interleaving of operations of any number of streams', 'tests open two streams in a few patterns',
     ['tpie/file_base.h', 'tpie/file_base.cpp', 'tpie/file.h'], [('shared block table with use counts', 'tpie/file_base.cpp')],
     claim=dict(level='proof', technique=TB, note=A + 'stream operations proved for 8-byte items over contracts of the block table (get_block, free_block), which are proved over contracts of the file accessor (C13) and of boost::intrusive::list (trusted: a sequence); other streams act as any change of the state that keeps the invariant. create_block/delete_block and other item sizes by the bounded driver.'))
prop('C13', 'Stream files reopen with the same contents and user data',
     'A stream closed and reopened has the same size, items and user data, for any size and any user data within the declared limit; a file that is not a valid stream of the expected item size is rejected when opened. User data reads and writes move exactly the requested bytes up to the stored size.',
     [H, IN], 'every content, size and user data, every header', 'tests reopen a few streams of fixed size',
     ['tpie/stream_header.h', 'tpie/file_accessor/stream_accessor_base.h', 'tpie/file_accessor/stream_accessor_base.inl', 'tpie/file_accessor/stream_accessor.h', 'tpie/file_accessor/byte_stream_accessor.h'],
     [('header read/write/validate', 'tpie/file_accessor/stream_accessor_base.inl'), ('block offsets', 'tpie/file_accessor/stream_accessor.h')],
     claim=dict(level='proof', technique=TB, note=A + 'proved for the header, block, user data, truncation and byte-stream functions over the file-accessor contracts proved in C14; products of two variables are uninterpreted with monotonicity assumptions and separate lemmas; whole-stream histories (compressed streams included) by the bounded driver.'))
prop('C14', 'File access transfers exactly the bytes asked for and counts open files',
     'Reading or writing a range of a file transfers exactly that range whatever partial transfers the operating system performs, and reports an error instead of returning short or looping; position, size and truncation refer to the same file. Every successful open is matched by exactly one count of an open file, released on close, also when opening fails.',
     [FS, H], 'every sequence of partial transfers, errors and calls', 'the operating system almost never performs partial transfers in tests',
     ['tpie/file_accessor/posix.h', 'tpie/file_accessor/posix.inl', 'tpie/file_manager.cpp'], [('read_i/write_i loops', 'tpie/file_accessor/posix.inl')],
     claim=dict(level='proof', technique=TB, note=A + 'system calls by assumed contracts with arbitrary errors and partial transfers.'))
prop('C15', 'External stack is an exact LIFO across the memory boundary',
     'For every history of pushes and pops the external stack returns the elements in last-in first-out order, its size equals the number of elements pushed and not popped, and popping an empty stack is reported as end of stream without changing it. This holds however the elements are split between memory and disk.',
     [H], 'every operation history', 'tests push and pop a fixed number of elements',
     ['tpie/stack.h'], [('compressed stream read backwards, buffered', 'tpie/stack.h')],
     claim=dict(level='proof', technique=TB, note=A + 'proved for 8-byte items over a sequence contract of the compressed stream, whose functions are proved under C25; real streams, other item types and reopening by the bounded driver.'))
prop('C16', 'External queue is an exact FIFO across memory and disk',
     'For every history of pushes and pops the external queue delivers the elements in exactly the order pushed, whether they bypass the disk or not; its size equals the number of elements pushed and not popped. Popping or looking at an empty queue is reported as end of stream without changing it.',
     [H], 'every operation history', 'tests use a few interleavings',
     ['tpie/queue.h'], [('two files and an in-memory bypass', 'tpie/queue.h')],
     claim=dict(level='proof', technique=TB, note=A + 'proved for 8-byte items over a sequence contract of the compressed stream, whose functions are proved under C25; real streams and other item types by the bounded driver.'))
prop('C17', 'Block storage never hands out overlapping or live blocks',
     'A block allocated from a block collection never overlaps any other block in use, and its contents are what was last written to it until it is freed; freed space is reused only after being freed, and reopening a collection (for reading or writing) preserves every block in use.',
     [H], 'every history of allocations, frees, reads and writes', 'tests allocate and free in simple patterns',
     ['tpie/blocks/freespace_collection.h', 'tpie/blocks/block_collection.h', 'tpie/blocks/block_collection.cpp'], [('free list and end pointer', 'tpie/blocks/freespace_collection.h')],
     claim=dict(level='proof', technique=TB, note=A + 'every function proved for one arbitrary block in use, over the contracts of the external stack (C15) and the file accessor (C14); whole histories with reopening on real files by the bounded driver.'))
prop('C18', 'Block cache is transparent',
     'Reading a block through the cache always returns what was last written to it, whatever was evicted in between; the number of cached blocks never exceeds the limit, evicting writes back exactly the changed blocks, and the least recently used block is evicted first.',
     [H], 'every history of reads, writes and frees and every cache size', 'tests use one cache size and access pattern',
     ['tpie/blocks/block_collection_cache.h', 'tpie/blocks/block_collection_cache.cpp'], [('map plus LRU list', 'tpie/blocks/block_collection_cache.cpp')],
     claim=dict(level='proof', technique=TB, note=A + 'every function proved for caches and blocks of any size over contracts of std::map and std::list (trusted) and of the block collection (C17); no I/O errors; real files and memory by the bounded driver.'))
prop('C19', 'A B-tree is an ordered multiset with exact lookups and augmentation',
     'For every history of insertions and erasures, iterating a B-tree yields exactly the elements present in key order, lookups and bounds return what a standard ordered container would, and the structure stays balanced with all node sizes within their limits. Augmented values stored for every node equal the value computed from its descendants.',
     [H, IN], 'every history of insertions and erasures, every fan-out', 'tests run random operations with a fixed fan-out',
     ['tpie/btree/btree.h', 'tpie/btree/node.h', 'tpie/btree/internal_store.h', 'tpie/btree/external_store.h', 'tpie/btree/external_store_base.cpp'],
     [('split / merge / share and augmentation', 'tpie/btree/btree.h')],
     claim=dict(level='proof', technique=TB, note=A + 'search (descent, bounds, find), insertion and erasure (leaf, every level, splits, borrowing, merging, root), renewal of augmentations along the path, iteration both ways and the node store in memory are proved function by function over arbitrary limits and an opaque order; the external stores and the values of augmentations are checked by the bounded driver.'))
prop('C20', 'Building a B-tree from sorted input gives the same set of elements',
     'Pushing any number of elements in order to the bulk builder produces a tree that iterates exactly those elements in that order, is balanced, and whose nodes obey the size limits, for every number of elements.',
     [IN, CF], 'every number of elements and every fan-out', 'only some sizes are tested; the last partial nodes depend on the exact size',
     ['tpie/btree/btree_builder.h', 'tpie/btree/serialized_store.h'], [('leaf/node construction', 'tpie/btree/btree_builder.h')],
     claim=dict(level='proof', technique=TB, note=A + 'for dynamic and static trees with arbitrary limits: which items and nodes go into every node and in which order, the sizes of all nodes, when levels are added, and that every node ends below one root are proved; serialized trees and the external stores are checked by the bounded driver.'))
prop('C21', 'Serializing and unserializing gives back an equal value',
     'Unserializing the bytes produced by serializing a value gives an equal value and consumes exactly those bytes, for integers, floating point values, strings, vectors, arrays and user types built from them, in sequence and nested.',
     [IN], 'every value and every sequence of values', 'tests round-trip a few values',
     ['tpie/serialization2.h'], [('serialize/unserialize overloads', 'tpie/serialization2.h')],
     claim=dict(level='proof', technique=TB, note=A + 'every overload proved for an opaque sink and source, over a typed log of the values written; nesting follows from the element contract, and whole nested round trips are also run by the bounded driver.'))
prop('C22', 'Serialization streams return the written values in order, in both directions',
     'Reading a serialization stream returns exactly the values written to it in order, however they straddle block boundaries; a reverse stream returns exactly the reverse sequence. End of stream is reported exactly when all values were read.',
     [H, IN], 'every sequence of values and sizes', 'tests use a few sizes around one block size',
     ['tpie/serialization_stream.h', 'tpie/serialization_stream.cpp'], [('block buffer', 'tpie/serialization_stream.cpp')],
     claim=dict(level='proof', technique=TB, note=A + 'every function of the writers, readers and the header is proved for an arbitrary byte position; the file accessor (C14), tpie::array::resize (C01) and std::reverse/fill/vector by contract; streams below 2^50 bytes; I/O errors inside destructors end the program.'))
prop('C23', 'External sorting outputs the sorted permutation of its input within memory',
     'Sorting a stream of any length within any sufficient memory budget yields exactly the input items, in non-decreasing order of the comparator; no item is lost or duplicated by run formation or by any number of merge levels.',
     [IN, CF], 'every input, order and memory budget', 'tests sort a few sizes with one memory limit',
     ['tpie/pipelining/merge_sorter.h', 'tpie/pipelining/merge_sorter.cpp', 'tpie/pipelining/merger.h', 'tpie/sort.h', 'tpie/sort_manager.h', 'tpie/serialization_sorter.h'],
     [('run formation and k-way merging', 'tpie/pipelining/merge_sorter.h'), ('merger', 'tpie/pipelining/merger.h')],
     claim=dict(level='proof', technique=TB, note=A + 'run formation, where runs and their positions are kept, which runs every merge takes and writes, the final merge and the reporting of the merge sorter are proved; the k-way merge itself, the parallel sort of one run, memory limits, evacuation and the serialization sorter are checked by the bounded driver.'))
prop('C24', 'External priority queue always yields a minimum and never loses elements',
     'After any sequence of pushes and pops, the top of the external priority queue is an element that no other queued element precedes, and the multiset of elements is what was pushed minus what was popped, whatever was moved to disk in between; the size reported is the number of elements.',
     [H, CF], 'every history and memory budget', 'tests use one memory limit and pattern',
     ['tpie/priority_queue.h', 'tpie/priority_queue.inl', 'tpie/pq_overflow_heap.h', 'tpie/pq_overflow_heap.inl'], [('buffers, groups and slots', 'tpie/priority_queue.inl')],
     claim=dict(level='proof', technique=TB, note=A + 'push (also the path that empties the insertion buffer to disk), pop, top, size, empty and the insertion buffer are proved; the functions that merge slots and groups on disk (free_slot, write_slot, empty_group, fill_buffer, fill_group_buffer, remove_group_buffer) are assumed by contract there and checked by the bounded driver. The queue may refuse a push when all slots are in use.'))
prop('C25', 'A compressed stream is an exact sequence of items with positions',
     'For every history of reads, writes, truncations and seeks to the ends or to remembered positions, a compressed stream returns exactly the items written at those places, forwards and backwards, compressed or not; size and end-of-stream are exact and the stream reopens unchanged.',
     [H, IN, CF], 'every history, item pattern and compression setting', 'tests exercise selected sequences; block splitting depends on data compressibility',
     ['tpie/compressed/stream.h', 'tpie/compressed/stream_base.cpp', 'tpie/compressed/buffer.h', 'tpie/compressed/thread.cpp', 'tpie/compressed/stream_position.h'], [('buffers and read/write requests', 'tpie/compressed/stream_base.cpp')],
     claim=dict(level='proof', technique=TB, note=A + 'the stream functions are proved for 8-byte items over contracts of the compressor thread and the buffer pool; those, the read offsets of compressed blocks over a history and the bulk operations are checked by the bounded driver. No I/O errors.'))
prop('C26', 'Pipeline stages deliver exactly the transformed sequence',
     'The sequence stages of a pipeline (buffering, reversing, merging, splitting, duplicating, filtering, chunking, accumulating) deliver to the next stage exactly the items their documentation specifies, once each and in the specified order, for every input sequence including the empty one.',
     [IN], 'every input sequence', 'tests run small pipelines on one input',
     ['tpie/pipelining/helpers.h', 'tpie/pipelining/std_glue.h', 'tpie/pipelining/reverse.h', 'tpie/pipelining/merge.h', 'tpie/pipelining/uniq.h', 'tpie/pipelining/filter.h', 'tpie/pipelining/numeric.h', 'tpie/pipelining/internal_buffer.h', 'tpie/pipelining/chunker.h', 'tpie/pipelining/ordered_merge.h'],
     [('push/pull nodes', 'tpie/pipelining/helpers.h')],
     claim=dict(level='proof', technique=TB, note=A + 'push, pull, go, begin and end of the nodes proved between opaque neighbours (sequence contracts of streams, stacks and queues); composing whole pipelines (graph, phases, moves of nodes, parallel stages) is bounded only.'))
prop('C27', 'Merging sorted runs gives the sorted union',
     'Merging any number of sorted runs yields every item of every run exactly once, in sorted order, and never reads past the end of a run.',
     [IN], 'every set of runs', 'tests only reach this through sorting',
     ['tpie/merge_sorted_runs.h', 'tpie/mergeheap.h'], [('merge loop', 'tpie/merge_sorted_runs.h')],
     claim=dict(level='proof', technique=TB, note=A + 'merge_sorted_runs proved for any number of runs over the heap contract of C06 and sequence contracts of the streams; the merger class of the sorter is bounded only.'))
prop('C28', 'Temporary files have unique names and are removed',
     'Temporary names handed out never collide with each other or with existing files, lie in the configured directory, and a temporary file is removed when its owner is destroyed unless it was made persistent.',
     [H, CF], 'every configuration and history', 'tests create a few files',
     ['tpie/tempname.h', 'tpie/tempname.cpp'], [('name generation and ownership', 'tpie/tempname.cpp')],
     claim=dict(level='proof', technique=TB, note=A + 'strings, paths, the file system and the stack of subdirectories by contract; the random part of a name is assumed not to repeat (64 random bits), remove() to succeed. construct_name and get_actual_path are checked by the bounded driver only.'))
prop('C29', 'Progress never runs backwards or past the end',
     'However a sub-indicator is advanced, what it has reported to its parent is at every refresh exactly its part of the parent scaled by the fraction of its own steps done, so progress never goes backwards and never exceeds the part; when it is done the whole part has been reported (if it has a non-empty range). Fractional progress divides the range of the indicator so that all parts together fill it (up to rounding) and never exceed it. This holds for every nesting, as long as range times outer range fits in 64 bits.',
     [H], 'every nesting, range and sequence of steps', 'tests show progress without checking it',
     ['tpie/progress_indicator_base.h', 'tpie/progress_indicator_base.cpp', 'tpie/progress_indicator_subindicator.h', 'tpie/progress_indicator_subindicator.cpp', 'tpie/fractional_progress.cpp'], [('step scaling', 'tpie/progress_indicator_subindicator.cpp')],
     claim=dict(level='proof', technique=TB, note=A + 'proved for the base class and one sub-indicator with any parent; nested trees and fractional progress (floating point) by the bounded driver.'))
prop('C30', 'Parallel work is executed exactly once with the sequential result',
     'Jobs are executed exactly once each and joining waits for all of them; the parallel sort and the parallel pipeline stages produce the sequential result under every schedule.',
     ['schedules'], 'every schedule of the worker threads', 'tests see a few schedules',
     ['tpie/job.cpp', 'tpie/job.h', 'tpie/parallel_sort.h', 'tpie/pipelining/parallel'], [('job queue and condition variables', 'tpie/job.cpp')],
     na='the property quantifies over thread schedules; the contract verifier available here is sequential (no ownership/permission logic for the C++ concurrency primitives), so no contract within reach can express it')
prop('C31', 'Pipeline memory assignment respects the budget and every minimum',
     'Whatever minimum, maximum and fraction the nodes declare, the memory assigned to the nodes of a phase sums to at most the available memory, and every node gets at least its minimum and at most its maximum.',
     [IN, CF], 'every set of declared requirements and every budget', 'tests run a few pipelines',
     ['tpie/pipelining/runtime.cpp', 'tpie/pipelining/runtime.h'], [('factor search', 'tpie/pipelining/runtime.cpp')],
     na='the assignment multiplies double fractions by sizes inside a bisection over doubles; the obligations are nonlinear floating-point arithmetic over unbounded node sets, which none of the installed back ends decides')
NOTYET = 'no contract-based check is built for it yet'


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt /verif/tpv/selftest.py',
         'checks': [], 'not_applicable': [],
         'notes': 'python3-vt tpv/check.py <ID> <tier> decides one property: it extracts the functions under contract from /repo with clang, generates every obligation and discharges it; see DESIGN.md'}
    for p in P:
        c = p['claim']
        if c:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt /verif/tpv/check.py %s quick' % p['id'],
                                'thorough_cmd': 'python3-vt /verif/tpv/check.py %s thorough' % p['id'],
                                'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na'] or NOTYET})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
