"""What each property is decided by.

units:   Verus units (verus/<unit>.vspec) and the functions of them the property depends on ('*': all)
kani:    groups of complete bit-precise harnesses (kani/<group>)
bins:    bounded contract replay, (binary, plans)
"""
FIND = ['get', 'get_hash', 'equivalent', 'linear_find', 'get_index_of', 'len']
MODE = ['ensure_indexed', 'insert_bulk_no_grow', 'rebuild_hash_table', 'borrow_mut', 'RefMut::new']
GROW = ['reserve_entries', 'RefMut::reserve_entries', 'push_entry']
MOVE = ['erase_index', 'update_index', 'decrement_indices', 'increment_indices']
HASH = ['hash', 'Map::len', 'Map::is_empty', 'Map::as_entries', 'as_entries']
OCC = ['OccupiedEntry::' + n for n in ('new', 'index', 'key', 'get', 'get_mut', 'into_mut', 'insert', 'swap_remove_entry', 'shift_remove_entry', 'swap_remove', 'shift_remove', 'move_index', 'remove', 'remove_entry')]
VAC = ['VacantEntry::' + n for n in ('index', 'key', 'insert', 'insert_entry', 'shift_insert')]
IDX = ['IndexedEntry::' + n for n in ('new', 'index', 'key', 'get', 'get_mut', 'insert', 'into_mut', 'swap_remove_entry', 'shift_remove_entry', 'swap_remove', 'shift_remove', 'move_index')]
REMOVE = ['RefMut::shift_remove_index', 'shift_remove_finish', 'RefMut::swap_remove_index', 'swap_remove_finish']
SETS = ['Set::' + n for n in ('with_capacity_and_hasher', 'with_hasher', 'capacity', 'len', 'is_empty', 'clear', 'truncate', 'split_off', 'reserve', 'reserve_exact', 'shrink_to_fit', 'shrink_to', 'insert', 'insert_full', 'insert_before', 'shift_insert', 'replace_full', 'replace',
        'contains', 'get', 'get_full', 'get_index_of', 'swap_remove', 'shift_remove', 'swap_take', 'shift_take', 'swap_remove_full', 'shift_remove_full', 'pop', 'reverse', 'get_index', 'first', 'last', 'swap_remove_index', 'shift_remove_index', 'move_index', 'into_entries', 'as_entries', 'as_entries_mut', 'eql')] + ['is_disjoint', 'is_subset', 'is_superset', 'key_ref']
SIZING = ['capacity_to_buckets', 'bucket_mask_to_capacity', 'move_next', 'with_capacity', 'reserve_rehash_inner', 'buckets', 'num_ctrl_bytes', 'set_ctrl', 'record_item_insert_at', 'clear_no_drop', 'erase', 'new_uninitialized', 'prepare_resize', 'replace_bucket_with']
HTAB = ['HashTable::' + n for n in ('new', 'with_capacity', 'find', 'find_mut', 'find_entry', 'entry', 'entry_sym', 'insert_unique', 'clear', 'shrink_to_fit', 'shrink_to', 'reserve', 'capacity', 'len', 'is_empty', 'retain')] + \
       ['OccupiedEntry::' + n for n in ('remove', 'get', 'get_mut', 'into_mut', 'into_table')] + ['VacantEntry::insert', 'VacantEntry::into_table', 'AbsentEntry::into_table'] + ['Entry::' + n for n in ('or_insert', 'or_insert_with', 'insert', 'and_modify')]
HMAP = ['equivalent_key_closure', 'make_hasher_closure', 'make_hash', 'replace_entry_with_closure'] + \
       ['HashMap::' + n for n in ('with_capacity_and_hasher', 'with_hasher', 'capacity', 'len', 'is_empty', 'clear', 'reserve', 'shrink_to_fit', 'shrink_to', 'entry', 'get_inner', 'get', 'get_key_value', 'contains_key', 'get_inner_mut', 'get_mut', 'get_key_value_mut', 'find_or_find_insert_slot', 'insert', 'insert_unique_unchecked', 'try_insert', 'remove_entry', 'remove', 'entry_ref', 'iter', 'eql', 'retain')] + \
       ['OccupiedEntry::' + n for n in ('key', 'get', 'get_mut', 'into_mut', 'insert', 'remove_entry', 'remove', 'replace_entry_with')] + \
       ['VacantEntry::' + n for n in ('key', 'into_key', 'insert', 'insert_entry')] + \
       ['Entry::' + n for n in ('insert', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'key', 'and_modify', 'and_replace_entry_with')] + \
       ['VacantEntryRef::' + n for n in ('key', 'insert', 'insert_entry')] + \
       ['EntryRef::' + n for n in ('insert', 'or_insert', 'or_insert_with', 'or_insert_with_key', 'and_modify')] + \
       ['Iter::' + n for n in ('next', 'size_hint')]
HSET = ['Entry::or_default', 'EntryRef::or_default', 'HashSet::from', 'Iter::len', 'Keys::len', 'Values::next', 'Values::size_hint', 'Values::len', 'HashMap::values', 'RawDrain::size_hint', 'Drain::size_hint', 'Drain::len', 'IntoIter::len', 'IntoKeys::next', 'IntoKeys::size_hint',
        'IntoKeys::len', 'IntoValues::next', 'IntoValues::size_hint', 'IntoValues::len', 'HashMap::into_keys', 'HashMap::into_values', 'SetIter::len', 'SetIntoIter::size_hint', 'SetIntoIter::len',
        'SetDrain::size_hint', 'SetDrain::len', 'Keys::next', 'Keys::size_hint', 'HashMap::keys', 'HashMap::extend', 'HashMap::from_iter', 'HashMap::eq', 'Drain::next', 'IntoIter::next', 'IntoIter::size_hint', 'HashMap::drain',
        'HashMap::into_iter', 'HashMap::clone', 'HashMap::clone_from', 'extract_if_closure', 'ExtractIf::next', 'HashMap::extract_if', 'SetIter::next', 'SetIter::size_hint',
        'HashSet::capacity', 'HashSet::iter', 'HashSet::len', 'HashSet::is_empty', 'HashSet::retain', 'HashSet::clear', 'HashSet::with_hasher', 'HashSet::with_capacity_and_hasher',
        'set_retain_closure', 'HashSet::reserve', 'HashSet::shrink_to_fit', 'HashSet::shrink_to', 'HashSet::contains', 'HashSet::get', 'HashSet::get_or_insert', 'HashSet::get_or_insert_with',
        'HashSet::entry', 'HashSet::is_subset', 'HashSet::is_superset', 'HashSet::insert', 'HashSet::insert_unique_unchecked', 'HashSet::replace', 'HashSet::remove', 'HashSet::take',
        'HashSet::eql', 'HashSet::extend', 'HashSet::from_iter', 'HashSet::eq', 'SetIntoIter::next', 'SetDrain::next', 'HashSet::drain', 'HashSet::into_iter', 'HashSet::clone',
        'HashSet::clone_from', 'SetOccupied::get', 'SetOccupied::remove', 'SetVacant::get', 'SetVacant::into_value', 'SetVacant::insert', 'SetEntry::insert', 'SetEntry::or_insert',
        'SetEntry::get']
SORTS = ['Map::' + n for n in ('with_entries', 'sort_keys', 'sort_unstable_keys', 'sort_by', 'sort_unstable_by', 'sorted_by', 'sorted_unstable_by', 'sort_by_cached_key', 'index_mut', 'insert_sorted')]
GUARDS = ['rehash_in_place_guard', 'RawTable::drop', 'RawIter::drop_elements', 'RawIntoIter::next', 'RawIntoIter::size_hint', 'RawIntoIter::drop', 'RawDrain::next', 'RawDrain::drop', 'RawTable::drain', 'drain_iter_from', 'into_iter_from', 'RawTable::into_iter', 'RawExtractIf::next', 'clone_from_impl_guard', 'clone_from_impl', 'RawTable::new_uninitialized', 'RawTable::clone', 'RawTable::clone_from'] + \
         ['rehash_in_place', 'resize_inner', 'reserve_rehash_inner', 'drop_elements', 'drop_inner_table', 'clear_no_drop', 'erase', 'RawTable::clear', 'RawTable::erase', 'erase_no_drop', 'remove', 'find_closure', 'find', 'find_or_find_insert_slot_closure', 'find_or_find_insert_slot', 'RawTable::remove_entry', 'shrink_to', 'replace_bucket_with']
SLICES = 'the sorts, binary search and partition point of slices do what std documents'
TABLE = 'the HashTable behaviour is assumed here as the contract in verus/hash_table.inc (C12 proves the corresponding contracts on the source of hashbrown)'
COH = 'equal keys write the same bytes to the hasher and equality is symmetric (C17 checks the provided key types)'

PROPS = {
    'C01': dict(note="Unbounded proof, from the public lookup/insert functions down to the index updates, that each has exactly the association-list effect and keeps entries and index in agreement; HashTable assumed by contract.",
                units={'rubymap_core': FIND + MODE + GROW + HASH + ['new', 'with_capacity', 'insert_full', 'replace_full', 'Map::insert', 'Map::insert_full', 'Map::get', 'Map::get_key_value', 'Map::get_full', 'Map::get_index_of',
                       'contains_key', 'Map::get_mut', 'Map::get_full_mut', 'with_hasher', 'with_capacity_and_hasher', 'as_entries_mut', 'Map::as_entries_mut', 'get_index', 'get_index_mut', 'refs', 'ref_mut', 'first', 'last']},
                bins=[('m_map', ['C01'])], assume=[TABLE, COH]),
    'C02': dict(note='Unbounded proof for keyed and positional removal, pop, clear, truncate, split_off, retain and drain, public functions included.',
                units={'rubymap_more': ['simplify_range', 'core::drain', 'Map::drain', 'Map::retain'] + FIND + MODE + MOVE + HASH + REMOVE + ['clear', 'pop', 'shift_remove_full', 'shift_remove_index', 'swap_remove_full', 'swap_remove_index', 'erase_indices', 'truncate', 'split_off', 'retain_in_order', 'third',
                       'Map::clear', 'Map::truncate', 'Map::split_off', 'Map::pop', 'Map::swap_remove_full', 'Map::swap_remove_entry', 'Map::swap_remove', 'Map::shift_remove_full', 'Map::shift_remove_entry', 'Map::shift_remove', 'Map::swap_remove_index', 'Map::shift_remove_index', 'Map::remove_entry']},
                bins=[('m_map', ['C02'])], assume=[TABLE, COH]),
    'C03': dict(note='Unbounded proof for move_index, positional insertion, reverse, insertion into a sorted map and every sort, over the assumed sorts of slices in std; the same by bounded replay.',
                units={'rubymap_more': SORTS + FIND + MODE + MOVE + GROW + HASH + ['move_index', 'RefMut::move_index', 'shift_insert_unique', 'reverse', 'with_entries', 'entry', 'OccupiedEntry::index', 'OccupiedEntry::get_mut', 'OccupiedEntry::move_index', 'into_ref_mut',
                       'VacantEntry::shift_insert', 'insert_before', 'Map::shift_insert', 'Map::entry', 'Map::reverse', 'Map::move_index']},
                bins=[('m_map', ['C03'])], assume=[TABLE, COH, SLICES]),
    'C04': dict(note='Unbounded proof that the representation switch, capacity calls and the symbol and prehashed fast paths have the effect of the plain operations.',
                units={'rubymap_core': FIND + MODE + GROW + ['new', 'with_capacity', 'capacity', 'reserve', 'reserve_exact', 'shrink_to', 'insert_full', 'sym_equivalent', 'insert_full_sym', 'insert_full_prehashed', 'get_index_of_prehashed',
                       'insert_full_prehashed_with', 'get_index_of_prehashed_with', 'hash_sym', 'Map::insert_sym_full', 'Map::insert_sym', 'Map::insert_prehashed', 'Map::get_prehashed', 'Map::insert_prehashed_with', 'Map::get_prehashed_with',
                       'Map::capacity', 'Map::reserve', 'Map::reserve_exact', 'Map::shrink_to_fit', 'Map::shrink_to']},
                bins=[('m_map', ['C04'])], assume=[TABLE]),
    'C05': dict(note="Unbounded proof that an erring callback leaves the entries unchanged in every keyed operation, public functions included; that the error returned is the callback's own by bounded replay.",
                units={'rubymap_core': FIND + MODE + HASH + ['insert_full', 'replace_full', 'tombstone_remove_full', 'shift_remove_full', 'swap_remove_full', 'entry', 'Map::insert', 'Map::insert_full', 'Map::get_index_of', 'Map::get_mut', 'Map::get_full_mut',
                       'Map::swap_remove_full', 'Map::shift_remove_full', 'tombstone_remove', 'Map::entry', 'insert_before', 'Map::shift_insert']},
                bins=[('m_map', ['C05'])], assume=[TABLE, COH]),
    'C06': dict(note='Unbounded proof of tombstone removal, lookup beside tombstones and compaction, public functions included.',
                units={'rubymap_core': FIND + MODE + HASH + ['erase_index', 'tombstone_remove_full', 'tombstone_index', 'compact_tombstones', 'tombstone_remove', 'Map::tombstone_index', 'Map::compact_tombstones', 'get_index_of_prehashed', 'get_index_of_prehashed_with']},
                bins=[('m_map', ['C06'])], assume=[TABLE]),
    'C07': dict(note='Unbounded proof for clone, map equality, extend, append, from_iter and map_keys; the same by bounded replay.',
                units={'rubymap_more': ['simplify_range', 'core::drain', 'Map::drain', 'core::map_keys', 'Map::map_keys', 'Map::append', 'Map::extend', 'Map::from_iter', 'Map::insert', 'Map::insert_full', 'insert_full', 'Map::reserve', 'reserve', 'erase_indices', 'with_capacity_and_hasher'] + MODE + GROW + FIND + HASH + ['borrow_mut', 'RefMut::new', 'reserve_entries', 'RefMut::reserve_entries', 'new', 'Bucket::clone', 'core::clone', 'clone_from', 'Map::clone', 'Map::clone_from', 'Set::clone', 'Set::clone_from', 'Map::get', 'Map::get_index_of', 'Map::eql', 'into_entries', 'Map::into_entries', 'refs']},
                bins=[('m_map', ['C07'])], assume=[TABLE, COH]),
    'C08': dict(note='Unbounded proof for every function of the entry interface, the binary search behind insert_sorted being that of C09; the same by bounded replay.',
                units={'rubymap_more': ['VacantEntry::insert_sorted'] + FIND + MODE + MOVE + GROW + REMOVE + OCC + VAC + IDX + ['into_ref_mut', 'into_key', 'from_index', 'entry', 'Map::entry', 'hash', 'insert_unique', 'shift_insert_unique', 'RefMut::move_index', 'Entry::index', 'Entry::insert_entry', 'or_insert', 'or_insert_with',
                       'or_insert_with_key', 'Entry::key', 'and_modify', 'or_default', 'get_index_entry', 'first_entry', 'last_entry', 'Map::len']},
                bins=[('m_map', ['C08'])], assume=[TABLE, COH]),
}

MIXED = 'function contracts discharged by Verus on mechanically extracted source; complete bit-precise harnesses (Kani); bounded contract replay for what is left'
KANI = 'complete bit-precise harnesses over the whole input domain (Kani), on the crate copied or sliced on every run'
PROPS.update({
    'C13': dict(note='Complete proof over every group content, tag and hash, for the SSE2 scan and for the portable scan, on the shipped source files.',
                kani=['scan_sse2', 'scan_generic'], bins=[('m_table', ['C12'])], technique=KANI),
    'C14': dict(note='Complete proof over every capacity request, element layout and mask; the probe step for every mask and position; unbounded proof that insertion, erasure, replacement and clearing count the room left exactly and keep the mirrored control bytes. layout_of_types is bounded to listed types and not counted.',
                units={'hb_raw': SIZING}, kani=['sizing'], bins=[('m_table', ['C12'])], technique=MIXED),
    'C18': dict(note='Complete proof over all 2^64 words, all integers and all float bit patterns for the packing and unpacking functions sliced from value.rs.',
                kani=['value'], bins=[('k_value', ['h'])], technique=KANI, assume=['heap references are non-null and 8-byte aligned, as the cell allocator gives them (C28)']),
    'C20': dict(note='Unbounded proof, for every 32-bit integer and byte strings of every length at every position, that an integer is written in its one shortest form, read back whatever follows with exactly its bytes consumed, and that any bytes are read as the integer they denote or refused, without reading outside; the same by complete harnesses over every integer and every byte string an integer can occupy; the byte-count reader again on strings up to 6 bytes.',
                units={'marshal': '*'}, kani=['marshal'], bins=[('k_marshal', ['h'])], technique=MIXED),
    'C27': dict(note='Complete proof over every word state, lane and operation, including interference by other writers between any two steps.',
                kani=['poll'], bins=[('k_poll', ['h'])], technique=KANI, assume=['a single-byte or word atomic access takes effect at once (hardware)']),
    'C19': dict(note='Unbounded proof of quotient, remainder and their agreement for machine integers, for big integers (big-integer primitives assumed exact) and for every mix of the two through the dispatch between the kinds; the float kinds by bounded replay.',
                units={'numeric': '*'}, bins=[('s_num', ['C19'])], assume=['the num crate computes big-integer sums and truncated division exactly']),
    'C21': dict(note='Unbounded proof, for byte strings of every length and every line length, that base64, uuencode and quoted-printable text decodes to the bytes it was made from, uses only the alphabet of the format, keeps to its line lengths and ends its last line, and that decoding any bytes whatever is the published reading of them and stays inside them; that BER integers of any size are written in the one shortest form and any bytes are read as it says; complete proof for the integer codecs over all 64-bit integers, for all 32-bit code points and for the letter tables; all of it again by bounded replay (all strings of up to 2 bytes, random longer ones).',
                units={'codecs': '*', 'ber': '*'}, kani=['pack'], bins=[('s_pack', ['C21'])], assume=['callers of the text encoders pass line lengths of 0 or at least 3 (base64 and uuencode) and below 2^63', 'num-bigint masks, shifts and joins as documented', 'std cuts slices into chunks and lines and writes ASCII characters and two-digit hexadecimal as documented'], technique=MIXED),
    'C22': dict(note='Unbounded proof, for every pattern, name and flag set, that matching with its backtracking answers exactly the recursive glob rules (literals, ?, *, ** over directories, brackets with ranges, negation and escapes, the leading-period rule), that brace expansion yields exactly the alternatives in order, and that both terminate; the same by bounded replay on the shipped fnmatch.rs.',
                units={'fnmatch': '*'}, bins=[('s_fnm', ['C22'])], assume=['std decodes, splits and concatenates strings and folds case as documented']),
    'C23': dict(note='Unbounded proof that seeding, the stream, the words of a seed, restoring by seed and count, bounded draws of any size and byte filling are exactly the published generator and rejection method; complete proof of the float constructions; the same by bounded replay.',
                units={'prng': '*'}, kani=['prng'], bins=[('s_prng', ['C23'])],
                assume=['num-bigint converts to and from bytes, subtracts and takes magnitudes as documented', 'fewer than 2^64 numbers are drawn from one generator'], technique=MIXED),
    'C24': dict(note='Unbounded proof, for every array, comparison and error, that the sort leaves a permutation of the elements, sorted and with equal ones in their old order whenever the comparison is a strict weak order, that an error raised by the comparison surfaces at once, that a comparison block\'s answer is read as Ruby reads it (nil, integers of any size, and what compares itself with zero), and that no access leaves the array or the scratch buffer; the same by bounded replay on the shipped functions.',
                units={'sort': '*', 'cmpint': '*'}, bins=[('s_sort', ['C24']), ('s_cmpi', ['C24'])], assume=['the caller passes a scratch buffer of merge_scratch_len slots, apart from the array', 'copying through pointers into the array and the buffer has the effect of the copy']),
    'C25': dict(note='Unbounded proof, over a file that answers every call with any count or any error, that reading hands out exactly the bytes of the file in order, that writing and draining move bytes from the caller through the buffer to the file without loss, repetition or reordering whichever way they end, that only interruptions are retried and the last error is the one reported, that seeks and positions account for the bytes held, that the reading loops above the buffer (so many bytes, to the end, to a delimiter, what is there) return exactly the next bytes and keep what they have when interrupted, and that the reads of an IO object (read, readpartial, lines by any separator, paragraph or limit, single bytes) return exactly what Ruby defines of the bytes pushed back, held and in the file, keep the rest in order, leave everything to be read again when interrupted by a signal or a blocked file, and seek from where Ruby stands; the same, and writes to a file open both ways, by bounded replay on the shipped functions over scripted files.',
                units={'iobuf': '*'}, bins=[('s_io', ['C25']), ('s_getl', ['C25'])], assume=['writing out pending output before a read does not touch the bytes to be read', 'interrupted reads of standard input, which cannot take bytes back, may lose what was gathered', 'a write takes a prefix of what it is offered and a read fills a prefix of the buffer, or fails without effect, as std requires of its traits', 'a seek lands where asked or leaves the position', 'callers pass progress no larger than the data']),
    'C26': dict(note='Unbounded proof that every register-file operation has exactly its effect and keeps one slot a register and one register a slot, that a register is given up only with the spill of a newer value, and that the actions allocated for a straight-line run of any length, carried out on any machine, leave in the home of every live slot the value the instructions define; the register file again by complete harnesses over every register file, and whole runs by bounded replay.',
                units={'gpreg': '*'}, kani=['gpalloc'], bins=[('s_gp', ['C26'])], assume=['fewer than 2^64 bindings are made in one register file', 'instructions read slots that have not been popped'], technique=MIXED),
    'C28': dict(note='Unbounded proof, over every page state and mark pattern, that creation, allocation, marking, testing, ageing, salvage of empty pages and sweeping keep the pages apart and the free list a list of distinct used cells without an object: marking and testing touch one bit, allocation hands out a cell nothing is in, sweeping links exactly the unmarked used cells, each once, and frees nothing marked; the same by bounded replay on the shipped alloc.rs with a stand-in object type.',
                units={'pages': '*'}, bins=[('s_page', ['C28'])],
                assume=['reading, writing and freeing a cell or its free-list link affects that cell only', 'a page fits its slot (asserted at start-up), the arena of 8192 pages is not used up and counters do not overflow', 'tracing marks cells that hold an object']),
    'C29': dict(note='Unbounded proof that construction, arithmetic, comparison and the four roundings give the exact result in lowest terms, over the assumed meaning of big-integer operators; bounded replay of the same and of float conversion.',
                units={'rational': '*'}, bins=[('s_rat', ['C29'])],
                assume=['num-bigint computes its operators, powers and greatest common divisors correctly', 'digit counts stay within 32 bits and denominators below 2^(2^62)'], technique=MIXED),
})

BOUND = 'bounded contract replay on the real crate'
PROPS.update({
    'C09': dict(note='Unbounded proof of range simplification, of every positional, range, first/last and split view of maps, sets and their slices, of disjoint access, of list equality, and of binary searches and partition points over those of slices in std, and that every iterator, mutable, owning, draining, of keys and of values, called from either end in any order, hands out exactly the entries of the list it stands for, each once, in order, with its true length, and that a mutable one writes only the values it handed out (over the iterators of slices and vectors in std, which stay assumed); the same by bounded replay: every short interleaving of iterator calls, every range form on small maps and sets, random larger ones, against the plain list.',
                units={'iters': '*'}, bins=[('m_iter', ['C09'])],
                assume=[SLICES, 'casting a list of entries to the transparent Slice wrapper keeps its contents'], technique=MIXED),
    'C10': dict(note='Unbounded proof that every set operation has the list-without-duplicates effect and that subset, superset, disjoint and eql are those of the mathematical sets, for any equivalence, with retain, drain, extend, append, from_iter and sorting (over the assumed sorts of slices in std); the same by bounded replay.',
                units={'rubymap_more': ['Set::' + n for n in ('drain', 'retain', 'append', 'extend', 'from_iter', 'sort', 'sort_unstable', 'sort_by', 'sort_unstable_by', 'insert_sorted')] + ['Map::append', 'Map::extend', 'Map::from_iter', 'Map::drain', 'core::drain', 'Map::retain', 'simplify_range'] + SORTS + SETS + FIND + MODE + GROW + MOVE + HASH + REMOVE + ['insert_full', 'replace_full', 'shift_remove_full', 'swap_remove_full', 'swap_remove_index', 'shift_remove_index', 'pop', 'truncate', 'split_off', 'erase_indices', 'reverse', 'move_index', 'RefMut::move_index',
                       'Map::insert', 'Map::insert_full', 'insert_before', 'Map::shift_insert', 'Map::get_index_of', 'Map::get_key_value', 'Map::get_full', 'contains_key', 'Map::swap_remove', 'Map::swap_remove_entry', 'Map::swap_remove_full', 'Map::shift_remove',
                       'Map::shift_remove_entry', 'Map::shift_remove_full', 'Map::swap_remove_index', 'Map::shift_remove_index', 'Map::pop', 'Map::move_index', 'Map::reverse', 'Map::truncate', 'Map::split_off', 'Map::clear', 'clear']},
                bins=[('m_set', ['C10'])], assume=[TABLE, COH, SLICES]),
    'C11': dict(note='Unbounded proof, for every type, that a layout is published only when the probe singles out the pointer, length and capacity words of the entry vector, and that every published number is then the real offset or stride; raw reads through it for listed key and value types after random histories by bounded replay.',
                units={'layout': '*'}, bins=[('m_iter', ['C11'])],
                assume=['a Vec is three words holding its pointer, length and capacity in an order fixed per element type', 'offset_of! and size_of give the offsets and sizes of the compiled types'], technique=MIXED),
    'C12': dict(note='Unbounded proof, for every table size, hash and history, that probing, lookup, insertion, erasure, clearing, filtering, growth, shrinking, in-place rehash and iteration over the control bytes keep every stored element findable and have exactly the multiset effect, from the HashTable methods down to the control bytes, including searches whose callback fails; group scans by their C13 contract; clone, drain, extract_if and memory moves by bounded replay.',
                units={'hb_raw': '*', 'hb_table': HTAB}, bins=[('m_table', ['C12'])],
                assume=['group scans behave as C13 proves', 'the caller hashes every stored element to the hash it was filed under whenever the table may have to move it (a precondition of the growing operations)', 'copying element memory moves the element; allocation gives memory of the size C14 proves (replayed)'], technique=MIXED),
    'C15': dict(note='Unbounded proof that at every call of a hash or clone callback during rehashing, growing and cloning the table is in the state its clean-up starts from, that the clean-up leaves a valid table of the elements already placed and drops every other one once, that failing equality callbacks leave the contents as they were, and that drains, owning iterators, extract_if, clear and Drop hand out or drop each element once; panics in the remaining callbacks and in destructors by bounded replay with drop accounting.',
                units={'hb_guard': GUARDS}, bins=[('m_table', ['C15']), ('m_hmap', ['C15'])],
                assume=['unwinding runs the closures handed to scopeguard on the guarded value (scopeguard.rs, replayed)', 'group scans behave as C13 proves', 'copying element memory moves the element'], technique=MIXED),
    'C16': dict(note='Unbounded proof, on the source of hashbrown, that lookups, insertion, removal, both entry interfaces, retain, equality, iteration, draining, taking out, extension, cloning and the capacity calls of the unordered map act on a map from key classes to pairs, with failing key callbacks included, and that the set does the same over it; mutable and consuming-fold iteration by bounded replay.',
                units={'hb_set': HMAP + HSET}, bins=[('m_hmap', ['C16'])],
                assume=['the raw table behaves as C12 proves (its contracts are verified in the same unit)', 'equal keys write the same bytes to the hasher and a key callback answers by key class or fails (C17 checks the provided key types)', 'an owned key made from a borrowed one, or a copy, is equivalent to it, and a copied hash builder hashes alike'], technique=MIXED),
    'C17': dict(note="Unbounded proof that options, vectors and slices of any key are compared by an equivalence, hash coherently and pass an element's error through unchanged, and that lookups by borrowed form agree; complete proof over all values of the thirteen scalar key types; texts by bounded replay.",
                units={'traits': '*'}, kani=['traits'], bins=[('m_traits', ['C17'])],
                assume=['an element callback that fails raises exactly one error (the meaning given to the context)', 'std equality and hashing of text depend only on its bytes'], technique=MIXED),
})

NOT_APPLICABLE = {
    'C30': 'The JIT compiler emits x86-64 through a macro assembler and the monoruby crate (its dependencies are not vendored) does not compile here; no contract verifier at hand relates emitted machine code to the interpreter.',
    'C31': 'Reachability of every live object depends on conservative stack scanning, raw pointers and JIT frames across the whole crate, which does not compile here; no function-local contract expresses it.',
    'C32': 'Progress under OS-thread and fiber scheduling needs fairness and machine-stack switching in hand-written assembly; outside function contracts.',
    'C33': 'Unwinding of exceptions and ensure clauses is decided by generated bytecode and machine code over the VM stack; no contract within reach states it.',
}
