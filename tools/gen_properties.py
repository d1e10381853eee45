#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

CORE='rubymap/src/map/core.rs'; MAP='rubymap/src/map.rs'; SET='rubymap/src/set.rs'; ENT='rubymap/src/map/core/entry.rs'

p('C01','Ordered hash: inserts and lookups behave as an insertion-ordered dictionary',
  'For keys whose hash agrees with their eql, every sequence of inserts, replacements and lookups gives exactly the results of an insertion-ordered association list: a lookup finds the one entry whose key is eql (index, key and value) and finds nothing otherwise. Storing under an existing key keeps its position and its original key and returns the old value (a set-style replace also swaps the key); storing under a new key appends it at the end, and no other entry changes.',
  ['inputs','histories'],'every sequence of operations, every key type with consistent hash/eql including total hash collisions, every size from empty past each growth step',
  'Tests exercise short fixed sequences and mostly one hash function; the index table, its growth and hash collisions have to agree with the entry list for every history.',
  [CORE,MAP,'hashbrown/src/table.rs','hashbrown/src/raw/mod.rs'],
  [('insert_full / push_entry / get_index_of / linear_find / replace_full',CORE),('RubyMap::insert_full/get*/get_mut/contains_key',MAP)],
  [('entries','dense entry list in order',CORE),('indices','hash table of positions',CORE),('linear','small-table mode without index table',CORE)],
  ['RubyMap::insert','RubyMap::insert_full','RubyMap::get','RubyMap::get_full','RubyMap::get_index_of','RubyMap::contains_key','RubyMap::get_mut','RubySet::insert','RubySet::replace'])
p('C02','Ordered hash: every removal removes exactly what it should',
  'Ordered removal takes out exactly the named entry and keeps the relative order of all others; swap removal moves only the last entry into the hole; popping takes the last; truncating, draining a range, splitting, filtering and clearing keep or hand out exactly the entries they describe, in order. After any of them every remaining key is still found at its new position, removed keys are not found, and later operations behave as if the remaining entries had been inserted afresh in that order.',
  ['inputs','histories'],'every removal operation, position or range, at every size, after every history, with colliding hashes',
  'Removal re-numbers positions in the index table with one of several size-dependent strategies; a test fixes one size and strategy.',
  [CORE,MAP,ENT,SET],
  [('erase_index/update_index/erase_indices/decrement_indices/shift_remove_*/swap_remove_*/pop/truncate/drain/split_off/retain_in_order/clear',CORE),('RubyMap::*remove*',MAP)],
  [('indices','position table re-numbered after removal',CORE)],
  ['RubyMap::shift_remove*','RubyMap::swap_remove*','RubyMap::pop','RubyMap::truncate','RubyMap::drain','RubyMap::split_off','RubyMap::retain','RubyMap::clear'])
p('C03','Ordered hash: reordering permutes entries and keeps every key findable',
  'Moving an entry, inserting at a chosen position, inserting into a sorted map, swapping order by any of the sorts and reversing produce exactly the described order, lose and duplicate nothing, and leave every key findable at its new position. Sorting is stable where documented.',
  ['inputs','histories'],'every pair of positions, every comparator, every size and representation',
  'The index fix-up has size-dependent sweep and search paths and a sentinel step; tests pin a few positions.',
  [CORE,MAP,ENT],
  [('move_index / increment_indices / decrement_indices / shift_insert_unique / reverse / with_entries / rebuild_hash_table',CORE),('insert_before/shift_insert/insert_sorted/sort*',MAP)],
  [], ['RubyMap::move_index','RubyMap::insert_before','RubyMap::shift_insert','RubyMap::insert_sorted','RubyMap::sort_by','RubyMap::reverse'])
p('C04','Ordered hash: size mode, capacity and fast paths are invisible',
  'Nothing observable depends on whether a map is in its small (scan) or large (indexed) representation, on reserved, shrunk or initial capacity, or on which equivalent entry point is used: symbol-key, precomputed-hash and predicate variants give the same results and the same final map as the general ones. Reservation and shrinking never change the contents, and promotion never re-hashes keys.',
  ['inputs','histories','configurations'],'every history crossing the small/large boundary in either direction, every capacity request, every fast-path variant',
  'Representation changes happen at a fixed size after arbitrary histories; tests rarely run the same history in both representations.',
  [CORE,MAP],
  [('AR_MAX / linear / ensure_indexed / reserve / reserve_exact / shrink_to / with_capacity',CORE),('insert_full_sym / insert_full_prehashed(_with) / get_index_of_prehashed(_with)',CORE)],
  [('linear','mode flag: scan vs. indexed',CORE)],
  ['RubyMap::insert_sym','RubyMap::insert_prehashed','RubyMap::get_prehashed','RubyMap::insert_prehashed_with','RubyMap::get_prehashed_with','RubyMap::reserve','RubyMap::shrink_to','RubyMap::capacity'])
p('C05','A raising hash or eql? surfaces and never corrupts the map',
  'Whenever the key hash or eql callback fails in an operation on one key, the operation returns that very error, exactly the entries present before the call are still there in the same order with the same values, and the map stays fully usable. Every operation that takes a key consults the key hash on a non-empty map, so a failing hash is never swallowed.',
  ['inputs','histories','fault_sequences'],'every operation on one key, every failure point of every callback invocation, every size and representation',
  'Tests use infallible keys; failures can strike at any one of the callbacks inside probing.',
  [CORE,MAP,SET,ENT,'hashbrown/src/raw/mod.rs','hashbrown/src/table.rs'],
  [('? propagation in every lookup/insert/remove',CORE),('find_inner/find_or_find_insert_index with fallible eq','hashbrown/src/raw/mod.rs')],
  [], ['RubyMap::insert','RubyMap::get','RubyMap::shift_remove','RubyMap::swap_remove','RubyMap::entry','RubySet::insert'])
p('C06','Deleting while iterating keeps positions stable and dead entries unreachable',
  'Between a deletion made during iteration and the closing compaction, no other entry changes its position, the deleted key is reported absent by every keyed lookup, and all other keys are found where they were. Compaction leaves exactly the surviving entries in their original order, all findable, and the map then behaves as one freshly built from them.',
  ['inputs','histories'],'every subset and order of deletions by key or by position, in both representations, followed by compaction',
  'The intermediate states violate the ordinary map invariant on purpose; tests cover one or two deletion patterns.',
  [CORE,MAP],
  [('tombstone_remove_full / tombstone_index / compact_tombstones',CORE)],
  [('indices','no longer references dead positions inside the window',CORE)],
  ['RubyMap::tombstone_remove','RubyMap::tombstone_index','RubyMap::compact_tombstones'])
p('C07','Copies, merges and comparisons of maps are exact',
  'A clone (including copying over an existing map) equals the original in entries and order and is independent of it; building from pairs, extending and appending equal inserting the pairs one by one, and appending empties the source; re-keying keeps order, values and findability. Two maps are eql exactly when they have the same size and each key of one is found in the other with an eql value, regardless of order.',
  ['inputs','histories'],'every pair of maps in every combination of representations and capacities',
  'Copying must agree for every combination of source and destination representation.',
  [CORE,MAP],
  [('Clone::clone/clone_from, map_keys',CORE),('extend/append/from_iter/eql/PartialEq',MAP)],
  [], ['RubyMap::clone','RubyMap::clone_from','RubyMap::extend','RubyMap::append','RubyMap::from_iter','RubyMap::map_keys','RubyMap::eql','PartialEq for RubyMap'])
p('C08','The entry interface of the ordered hash agrees with keyed operations',
  'An entry obtained for a key is occupied exactly when the key is present, reports the right index, key and value, and each action on it (insert, replace, remove, shift or swap removal, move, positional or sorted insert) has the same result and effect as the corresponding keyed operation. Positional entries behave the same for their position.',
  ['inputs','histories'],'every entry action at every position, size and representation',
  'Entry objects hold direct references into the index table across growth; tests touch few of the combinations.',
  [ENT,CORE,MAP],
  [('IndexMapCore::entry, OccupiedEntry, VacantEntry, IndexedEntry',ENT),('RefMut::insert_unique/shift_insert_unique/move_index',CORE)],
  [], ['RubyMap::entry','RubyMap::get_index_entry','RubyMap::first_entry','RubyMap::last_entry'])
p('C09','Iteration, indexing and slice views of maps and sets agree with the entries',
  'Forward and backward iteration in any interleaving, skipping, counting, length reports, keys/values/mutable and owning iteration, and draining all yield exactly the entries in order, each once. Positional access, ranges, splits, binary search, partition point, disjoint mutable access and slice comparison agree with the same operation on the plain list of entries, and out-of-range requests are refused rather than answered wrongly.',
  ['inputs'],'every interleaving of next/next_back/nth, every range form and bound, every index set',
  'Iterator and range combinations are unbounded; tests take a few.',
  ['rubymap/src/map/iter.rs','rubymap/src/map/slice.rs','rubymap/src/set/iter.rs','rubymap/src/set/slice.rs','rubymap/src/util.rs','rubymap/src/macros.rs',MAP,SET],
  [('simplify_range/try_simplify_range','rubymap/src/util.rs'),('iterator_methods macros','rubymap/src/macros.rs'),('get_disjoint_mut','rubymap/src/map/slice.rs')],
  [], ['RubyMap::iter','RubyMap::get_range','RubyMap::get_disjoint_indices_mut','Slice::split_at','Slice::binary_search_by'])
p('C10','Ordered sets follow set algebra over eql',
  'Membership, insertion, ordered and swap removal, replacement and taking follow the same guarantees as the ordered hash with no duplicates; subset, superset, disjoint and eql answers equal those of the mathematical sets, and merging keeps the documented order.',
  ['inputs','histories'],'every pair of sets, every history, all size relations between the two operands',
  'Fast paths depend on relative sizes; tests use few pairs.',
  [SET,'rubymap/src/set/iter.rs',CORE],
  [('is_disjoint/is_subset/is_superset/eql/insert/replace/append',SET)],
  [], ['RubySet::insert','RubySet::contains','RubySet::is_subset','RubySet::is_superset','RubySet::is_disjoint','RubySet::eql','RubySet::shift_remove'])
p('C11','The published raw layout of a map reads back its real entries',
  'When the map layout is published for direct memory access, reading length, keys and values through the published offsets and strides gives exactly what the safe interface gives, for every map of that type in every representation. When that cannot be promised no layout is published.',
  ['inputs','histories','configurations'],'every key/value type, every map state',
  'The JIT bakes the layout into machine code; a test checks one instance of one type.',
  ['rubymap/src/lib.rs',CORE],
  [('entries_layout','rubymap/src/lib.rs'),('entries_offset',CORE)],
  [], ['rubymap::entries_layout'])
p('C12','The index hash table holds exactly what was put in and not yet taken out',
  'After any history of inserts, removals, in-place updates, filtering, clearing, growing, shrinking, cloning and rehashing, the table holds exactly the elements inserted and not removed, each once, and reports their number. A search with a hash returns an element accepted by the predicate if one was stored under that hash, never one the predicate rejects, and never disturbs the others.',
  ['inputs','histories'],'every history, every distribution of hash values including all equal and all in one probe group, every table size',
  'Deleted markers, in-place rehash and group wrap-around only occur after particular histories with particular hashes.',
  ['hashbrown/src/raw/mod.rs','hashbrown/src/table.rs'],
  [('find_inner/find_or_find_insert_index_inner/find_insert_index/erase/set_ctrl/rehash_in_place/resize_inner','hashbrown/src/raw/mod.rs'),('HashTable API','hashbrown/src/table.rs')],
  [('ctrl bytes','EMPTY/DELETED/tag per bucket with mirrored tail','hashbrown/src/raw/mod.rs'),('items, growth_left','element count and remaining inserts','hashbrown/src/raw/mod.rs')],
  ['HashTable::find','HashTable::find_mut','HashTable::entry','HashTable::insert_unique','HashTable::remove','HashTable::retain','HashTable::drain','HashTable::extract_if','HashTable::clone'])
p('C13','Control-byte group scans report exactly the matching slots',
  'For every possible group of control bytes, scanning for a tag, for empty, for empty-or-deleted and for full slots reports exactly the positions that match (a portable tag scan may add only full slots that the caller re-checks), positions come out in ascending order, counts of leading and trailing matches are right, and the bulk conversion used by in-place rehash maps every byte as documented. Tags derived from hashes are always recognised as full.',
  ['inputs'],'all 2^128 (or 2^64) group contents, all tags, all hashes',
  'The input space is astronomically large and byte-position bugs hide in single bit patterns.',
  ['hashbrown/src/control/bitmask.rs','hashbrown/src/control/tag.rs','hashbrown/src/control/group/generic.rs','hashbrown/src/control/group/sse2.rs'],
  [('Group::match_tag/match_empty/match_empty_or_deleted/match_full/convert_special_to_empty_and_full_to_deleted','hashbrown/src/control/group'),('BitMask iteration','hashbrown/src/control/bitmask.rs'),('Tag::full','hashbrown/src/control/tag.rs')],
  [], ['every table lookup'])
p('C14','Table sizing never overflows, always leaves room, and probing visits every slot',
  'For every requested capacity the chosen bucket count is a power of two whose usable capacity is at least the request and strictly below the bucket count, or an overflow is reported; byte-size computation never wraps or exceeds the addressable limit, and keeps data aligned. Probing from any start visits every group position exactly once before repeating, and the mirrored control bytes always agree with the originals. The room counted as left is always the usable capacity less elements and tombstones, so that an empty slot remains.',
  ['inputs','configurations'],'every capacity request up to the word size, every element layout, every table mask and start position',
  'Overflow boundaries lie near 2^64; tests use small sizes.',
  ['hashbrown/src/raw/mod.rs'],
  [('capacity_to_buckets / bucket_mask_to_capacity / TableLayout::calculate_layout_for / ProbeSeq::move_next / set_ctrl / prepare_resize / record_item_insert_at / erase / replace_bucket_with','hashbrown/src/raw/mod.rs')],
  [], ['HashTable::with_capacity','HashTable::reserve','HashTable::try_reserve','HashTable::capacity'])
p('C15','Failing callbacks and early drops never lose, duplicate or double-drop elements',
  'If an equality, hash, clone, filter or drop callback fails or panics at any point, or an iterator is dropped early, every element is dropped exactly once overall (when a drop itself panics, at most once), the table is left in a valid state holding a subset of what it held (all of it for failing lookups), and it remains usable.',
  ['inputs','histories','fault_sequences'],'every callback invocation as the failure point, every operation, every history',
  'Guards only run on unwinding at specific steps; tests inject one or two failures.',
  ['hashbrown/src/raw/mod.rs','hashbrown/src/scopeguard.rs','hashbrown/src/table.rs','hashbrown/src/map.rs'],
  [('rehash_in_place guard, clone_from guard, RawDrain/RawIntoIter Drop, RawExtractIf','hashbrown/src/raw/mod.rs')],
  [], ['HashTable::find','HashTable::reserve','HashTable::clone','HashTable::drain','HashTable::extract_if','Drop'])
p('C16','Unordered maps and sets with fallible keys match a mathematical map',
  'The unordered map and set (including their entry, raw removal, retain, drain, extract, get-many, extension, cloning, reserve and set-algebra operations) give, for keys with consistent hash and eql, exactly the results of a mathematical map or set; iteration yields every element exactly once; a failing callback surfaces and leaves the contents unchanged.',
  ['inputs','histories','fault_sequences'],'every operation sequence, key distribution and failure point',
  'The fallible-key port touches every method; tests cover the infallible happy path.',
  ['hashbrown/src/map.rs','hashbrown/src/set.rs','hashbrown/src/raw/mod.rs'],
  [('HashMap API','hashbrown/src/map.rs'),('HashSet API','hashbrown/src/set.rs')],
  [], ['HashMap::insert','HashMap::get','HashMap::remove','HashMap::entry','HashMap::retain','HashMap::extend','HashMap::drain','HashMap::extract_if','HashMap::clone_from','HashSet::insert','HashSet::replace','HashSet::is_subset','HashSet::union'])
p('C17','Built-in key types: eql implies equal hashes, and errors pass through',
  'For every key type given hashing and equality here (unit, booleans, characters, integers, strings, vectors, slices, options and references), eql is an equivalence relation, eql keys feed identical hash input, borrowed and owned forms agree, and the fallible and infallible forms agree; an error raised by an element is returned unchanged.',
  ['inputs'],'every pair of values of every supported key type, every failing element',
  'Coherence is a relation over all pairs of values.',
  ['ruby_traits/src/lib.rs'],
  [('RubyEql/RubyHash/Equivalent impls','ruby_traits/src/lib.rs')],
  [], ['RubyEql::eql','RubyHash::ruby_hash','Equivalent::equivalent'])
V='monoruby/src/value.rs'
p('C18','Immediate values round-trip and never alias',
  'Every small integer, immediate float and symbol packs into a value word that unpacks to the same thing bit for bit, different values pack to different words, and the words of integers, floats, symbols, nil, true, false and heap references are pairwise disjoint and correctly classified. Numbers outside the immediate range are never packed as immediates.',
  ['inputs'],'all 2^64 words, all integers, all float bit patterns',
  'The flonum rotation and range test must be right for every exponent; tests sample a few.',
  [V],
  [('Value::from/try_fixnum/flonum packing helpers',V)],
  [], ['Value::integer','Value::float','Value::unpack'])
p('C19','Integer division and modulo follow floor semantics exactly',
  'For all integers a and b with b not zero, the quotient is the floor of a/b, the remainder has the sign of b and smaller magnitude, and quotient times b plus remainder equals a; division and modulo alone agree with the pair, and no machine overflow or wrap occurs inside the supported range.',
  ['inputs'],'all pairs of 64-bit integers',
  'Sign and overflow corner cases; tests sample pairs.',
  ['monoruby/src/value/numeric.rs'],
  [('RubyDivMod/RubyDiv/RubyMod for i64','monoruby/src/value/numeric.rs')],
  [], ['Integer#divmod','Integer#/','Integer#%'])
p('C20','Marshalled integers round-trip and never misread',
  'Every integer the serializer writes in its compact form is read back as the same integer with every byte consumed and no more, in the one canonical encoding, and arbitrary or truncated bytes are either read as the integer they denote or refused, never read out of bounds.',
  ['inputs'],'every integer in the compact range, every byte string',
  'Length boundaries and negative encodings for all values.',
  ['monoruby/src/builtins/marshal.rs'],
  [('marshal_write_fixnum / read_fixnum','monoruby/src/builtins/marshal.rs')],
  [], ['Marshal.dump','Marshal.load'])
PK='monoruby/src/value/rvalue/string/pack.rs'
p('C21','Pack codecs decode what they encode',
  'For every byte string and every number in range, decoding the encoded form gives back the original: base64, uuencode, quoted-printable, BER and LEB128 compressed integers and UTF-8 code points; encoded text uses only the alphabet and line lengths of the format, and decoding arbitrary input never reads outside it.',
  ['inputs'],'every byte string of every length, every line length, every integer',
  'Padding, line breaking and multi-byte boundaries depend on length modulo group size.',
  [PK],
  [('base64_encode/decode, uu_encode/decode, qp_encode/decode, ber_encode/decode, leb128, utf8',PK)],
  [], ['Array#pack','String#unpack'])
p('C22','File-name matching agrees with the glob rules for every pattern and name',
  'For every pattern, name and flag set, matching answers exactly what the documented glob rules say (literals, ?, *, ** over directories, bracket sets with ranges and negation, escapes, leading-dot, path-separator and case rules), it always terminates, and brace expansion yields exactly the alternatives in order.',
  ['inputs'],'all patterns, names and flag combinations',
  'Backtracking and flag interaction; tests list examples.',
  ['monoruby/src/builtins/fnmatch.rs'],
  [('fnmatch / bracket / expand_braces','monoruby/src/builtins/fnmatch.rs')],
  [], ['File.fnmatch','Dir.glob'])
p('C23','Random numbers reproduce the reference generator and stay in range',
  'For every seed the generator produces exactly the reference Mersenne Twister stream (also after copying or restoring its state), floats lie in [0,1) with the reference 53-bit construction, and bounded draws are always within the requested bound, using the reference rejection method.',
  ['inputs','histories'],'all seeds, all limits, all stream positions',
  'State refresh happens every 624 draws and masks depend on the limit.',
  ['monoruby/src/globals/prng.rs'],
  [('Mt::new/init_by_array/next_u32/next_real/limited_rand','monoruby/src/globals/prng.rs')],
  [], ['Random.new','Random#rand','Kernel#srand'])
p('C24','Sorting is a stable sorted permutation, even when the comparison raises',
  'For every array and every comparison, sorting yields a permutation of the input; with a consistent comparison the result is ordered and equal elements keep their order. If the comparison raises at any point the error surfaces and the array still holds a permutation of its elements, none lost or duplicated. The answer of a comparison block counts by its sign: an integer of any size directly, nil as not comparable, anything else by its own comparison with zero.',
  ['inputs','fault_sequences'],'all lengths, all comparison results, all failure points',
  'The merge moves elements through a scratch buffer with raw copies; failure points are many.',
  ['monoruby/src/executor/op/sort.rs'],
  [('merge_sort / merge / insert_head with hole guards','monoruby/src/executor/op/sort.rs'),('Executor::cmpint','monoruby/src/executor/op/sort.rs')],
  [], ['Array#sort','Array#sort_by','Array#sort!'])
p('C25','Buffered I/O delivers every byte exactly once and in order',
  'Whatever the chunk sizes, short reads, short writes, interruptions and errors of the underlying file, the bytes handed to the reader are exactly the bytes of the file in order, and the bytes reaching the file are exactly the bytes written in order, each once; after an error nothing already delivered is repeated and nothing pending is lost. Seeks and position reports account for buffered bytes. Bytes pushed back with ungetbyte are read again first; a line read (by separator, paragraph or limit) returns exactly the bytes the separator and limit select and leaves the rest, also when an earlier attempt was interrupted by a signal or a blocked descriptor. A seek forgets pushed-back bytes, and a write to a file also open for reading goes where the reader stands, not where it has read ahead to.',
  ['inputs','histories','fault_sequences'],'every sequence of calls and every pattern of short counts and errors',
  'Partial writes and mid-buffer errors are hard to provoke.',
  ['monoruby/src/value/rvalue/io/buf.rs','monoruby/src/value/rvalue/io.rs'],
  [('WriteBuf::write/drain/flush, IoReader fill/read/seek','monoruby/src/value/rvalue/io/buf.rs'),('read_step / read_upto / read_all / read_until_step / read_partial_chunk','monoruby/src/value/rvalue/io.rs'),('IoInner::read / readpartial / getline / read_line_bytes / unget / seek / write','monoruby/src/value/rvalue/io.rs')],
  [], ['IO#read','IO#gets','IO#write','IO#seek','IO#pos'])
p('C26','Register allocation never aliases two stack slots or loses a value',
  'After any sequence of allocations, bindings, synchronisations and invalidations, each register holds at most one stack slot and each slot at most one register, a slot whose register copy is newer is always spilled before the register is reused, and nothing below the live stack height is lost.',
  ['inputs','histories'],'every sequence of allocator calls',
  'Register pressure patterns are unbounded.',
  ['monoruby/src/codegen/jitgen/gp_alloc.rs'],
  [('GpRegFile::alloc/bind/sync/invalidate/free_above_sp/allocate_run/ensure/flush_dirty','monoruby/src/codegen/jitgen/gp_alloc.rs')],
  [], ['JIT-compiled code'])
p('C27','Pending GC, preemption and signal requests are never lost or mixed up',
  'Raising or clearing one kind of poll request never changes the others, the combined poll word is non-zero exactly while some request is pending, and a request raised is seen until it is cleared for that kind.',
  ['histories','schedules'],'every order of raise, clear and test over the three kinds',
  'Lane interference appears only for particular orders.',
  ['monoruby/src/poll_flag.rs'],
  [('lane constants with fetch_or / fetch_and','monoruby/src/poll_flag.rs')],
  [], ['safepoint polling'])
p('C28','Object pages: mark and free bookkeeping addresses exactly one cell',
  'For every object cell of every page, marking or testing it touches exactly its own bit, sweeping returns to the free list exactly the unmarked cells of the page, each once, and allocation never hands out a cell that is in use.',
  ['inputs','histories'],'every cell address, every mark pattern, every allocation history within a page',
  'Bit and word index arithmetic for every cell; sweep patterns are exponential.',
  ['monoruby/src/alloc.rs'],
  [('Allocator::alloc / get_bit / sweep / Page','monoruby/src/alloc.rs')],
  [], ['object allocation and collection'])
p('C29','Rational arithmetic is exact and always in lowest terms',
  'Every rational is kept with a positive denominator and no common factor; sums, differences, products, quotients and comparisons are the exact rational results, and floor, ceiling, truncation and rounding to any number of digits return the mathematically right value (ties away from zero).',
  ['inputs'],'all integers as numerators, denominators and digit counts',
  'Sign and tie corner cases over unbounded integers.',
  ['monoruby/src/value/rvalue/rational.rs'],
  [('RationalInner::new/add/sub/mul/div/cmp/floor/ceil/truncate/round','monoruby/src/value/rvalue/rational.rs')],
  [], ['Rational#+','Rational#<=>','Rational#round'])
# Broad guarantees that contract-based deductive verification cannot reach here.
p('C30','Compiled code behaves exactly like interpreted code',
  'For every Ruby program, running a method through the just-in-time compiler, including deoptimisation and recompilation, has the same results, errors and side effects as interpreting it.',
  ['programs','inputs'],'all Ruby programs and inputs',
  'Programs are unbounded; tests run samples in both modes.',
  ['monoruby/src/codegen/jitgen.rs','monoruby/src/codegen/vmgen.rs'],[('JIT code generation and deoptimisation','monoruby/src/codegen')])
p('C31','Garbage collection frees all unreachable objects and no reachable one',
  'At every allocation point of every program, no object reachable from stacks, registers, globals or other live objects is reclaimed, including young-generation collections, and unreachable objects are eventually reclaimed.',
  ['programs','histories'],'all programs, all collection points',
  'Reachability depends on the whole history of the heap and machine stack.',
  ['monoruby/src/alloc.rs','monoruby/src/executor.rs'],[('mark/sweep with write barriers','monoruby/src/alloc.rs')])
p('C32','Threads, fibers and timeouts make progress and are isolated',
  'Every runnable green thread is eventually scheduled, blocking operations never stall others forever, signals and timeouts are delivered to the right thread, and fiber switches preserve each fiber state.',
  ['schedules','programs'],'all programs and schedules',
  'Schedules are unbounded.',
  ['monoruby/src/executor.rs','monoruby/src/poll_flag.rs'],[('scheduler and safepoints','monoruby/src/executor')])
p('C33','Ruby exceptions always run ensure clauses once and unwind to the right handler',
  'For every program, raising, breaking, throwing or returning through any nesting of blocks and native calls runs each ensure clause exactly once and resumes at the innermost matching handler with the right value.',
  ['programs','histories'],'all programs and nestings',
  'Nesting combinations are unbounded.',
  ['monoruby/src/executor.rs','monoruby/src/bytecodegen.rs'],[('exception tables and unwinding','monoruby/src/executor')])

here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
