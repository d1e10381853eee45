// The published layout of a map: rubymap/src/lib.rs entries_layout, rubymap/src/map/core.rs entries_offset
@include std_assumed.inc
@verbatim
/// where the compiler puts things (repr(Rust): unknown, but fixed per type)
pub uninterp spec fn core_offset<K, V, E, G, R, S>() -> usize;
pub uninterp spec fn entries_offset_<K, V, E, G, R>() -> usize;
pub uninterp spec fn bucket_size_<K, V>() -> usize;
pub uninterp spec fn key_offset_<K, V>() -> usize;
pub uninterp spec fn value_offset_<K, V>() -> usize;
/// which word of a Vec is its pointer, its length, its capacity: some order, fixed per element type
pub uninterp spec fn ptr_word<T>() -> int;
pub uninterp spec fn len_word<T>() -> int;
pub uninterp spec fn cap_word<T>() -> int;
pub open spec fn a_word(i: int) -> bool { 0 <= i < 3 }
pub uninterp spec fn ptr_val<T>(v: Vec<T>) -> usize;
#[verifier::external_body]
pub fn vptr<T>(v: &Vec<T>) -> (r: usize) ensures r == ptr_val(*v) { v.as_ptr() as usize }
#[verifier::external_body]
pub fn vwords<T>(v: &Vec<T>) -> (r: [usize; 3])
    ensures a_word(ptr_word::<T>()), a_word(len_word::<T>()), a_word(cap_word::<T>()),
        ptr_word::<T>() != len_word::<T>(), ptr_word::<T>() != cap_word::<T>(), len_word::<T>() != cap_word::<T>(),
        r@[ptr_word::<T>()] == ptr_val(*v), r@[len_word::<T>()] == v@.len(), r@[cap_word::<T>()] == vec_cap(*v)
{ unsafe { std::ptr::read(v as *const _ as *const [usize; 3]) } }
/// a map is smaller than the address space
#[verifier::external_body]
pub fn voff_core<K, V, E, G, R, S>() -> (r: usize) ensures r == core_offset::<K, V, E, G, R, S>(), r < 0x1000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn voff_entries<K, V, E, G, R>() -> (r: usize) ensures r == entries_offset_::<K, V, E, G, R>(), r < 0x1000_0000 { unimplemented!() }
#[verifier::external_body]
pub fn voff_size<K, V>() -> (r: usize) ensures r == bucket_size_::<K, V>() { unimplemented!() }
#[verifier::external_body]
pub fn voff_key<K, V>() -> (r: usize) ensures r == key_offset_::<K, V>() { unimplemented!() }
#[verifier::external_body]
pub fn voff_value<K, V>() -> (r: usize) ensures r == value_offset_::<K, V>() { unimplemented!() }
pub const WORD: usize = 8;
/// of the first n words only word k holds want
pub open spec fn only(ws: Seq<usize>, want: usize, n: int, k: int) -> bool { 0 <= k < n && ws[k] == want && forall|j: int| 0 <= j < n && #[trigger] ws[j] == want ==> j == k }
@end
@file rubymap/src/map/core.rs
@fn entries_offset
    ensures r == entries_offset_::<K, V, E, G, R>(), r < 0x1000_0000
@sub std :: mem :: offset_of ! ( IndexMapCore < K , V , E , G , R > , entries ) ==> voff_entries::<K, V, E, G, R>()
@file rubymap/src/lib.rs
@item struct HashValue
@item struct Bucket
@item struct EntriesLayout
@fn entries_layout
    ensures r matches Some(l) ==> l.ptr_offset == core_offset::<K, V, E, G, R, S>() + entries_offset_::<K, V, E, G, R>() + 8 * ptr_word::<Bucket<K, V>>()
        && l.len_offset == core_offset::<K, V, E, G, R, S>() + entries_offset_::<K, V, E, G, R>() + 8 * len_word::<Bucket<K, V>>()
        && l.bucket_size == bucket_size_::<K, V>() && l.key_offset == key_offset_::<K, V>() && l.value_offset == value_offset_::<K, V>()
@sub v . as_ptr ( ) as usize ==> vptr(&v)
@sub unsafe { std :: ptr :: read ( & v as * const _ as * const [ usize ; 3 ] ) } ==> vwords(&v)
@sub std::mem::size_of::<Vec<Bucket<K, V>>>() ==> (3 * WORD)
@sub std :: mem :: offset_of ! ( RubyMap < K , V , E , G , R , S > , core ) ==> voff_core::<K, V, E, G, R, S>()
@sub crate :: map :: core :: entries_offset ==> entries_offset
@sub std::mem::size_of::<Bucket<K, V>>() ==> voff_size::<K, V>()
@sub std :: mem :: offset_of ! ( Bucket < K , V > , key ) ==> voff_key::<K, V>()
@sub std :: mem :: offset_of ! ( Bucket < K , V > , value ) ==> voff_value::<K, V>()
@closure 1 (usize) -> (o: Option<usize>)
    ensures o matches Some(x) ==> exists|k: int| #[trigger] only(words@, want, 3, k) && x == 8 * k
@loop 1
    invariant i <= 3, words@.len() == 3, found matches Some(x) ==> exists|k: int| #[trigger] only(words@, want, i as int, k) && x == 8 * k,
        found is None ==> forall|j: int| 0 <= j < i ==> #[trigger] words@[j] != want,
    decreases 3 - i
@loopenter 1
    let ghost f0 = found;
@loopend 1
    proof {
        if f0 is Some {
            let k = choose|k: int| #[trigger] only(words@, want, i - 1, k) && f0->Some_0 == 8 * k;
            assert(only(words@, want, i as int, k));
        } else if found is Some {
            assert(only(words@, want, i as int, i - 1));
        }
    }
