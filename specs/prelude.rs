// ---------------------------------------------------------------------------
// Trusted shims for C++ integer semantics and the std library facilities used.
// Everything marked external_body or assume_specification here is an assumption
// (listed in the evidence); the rest is verified.
// ---------------------------------------------------------------------------
global size_of usize == 8;

// ---- unsigned arithmetic wraps
#[verifier::external_body]
pub fn uadd64(a: u64, b: u64) -> (r: u64)
    ensures r == add(a, b), a + b <= u64::MAX ==> r == a + b, a + b > u64::MAX ==> r == a + b - 0x1_0000_0000_0000_0000,
{ a.wrapping_add(b) }
#[verifier::external_body]
pub fn wadd64(a: u64, b: u64) -> (r: u64) ensures r == add(a, b) { a.wrapping_add(b) }
#[verifier::external_body]
pub fn usub64(a: u64, b: u64) -> (r: u64)
    ensures r == sub(a, b), a >= b ==> r == a - b, a < b ==> r == a - b + 0x1_0000_0000_0000_0000,
{ a.wrapping_sub(b) }
#[verifier::external_body]
pub fn uadd32(a: u32, b: u32) -> (r: u32)
    ensures r == add(a, b), a + b <= u32::MAX ==> r == a + b, a + b > u32::MAX ==> r == a + b - 0x1_0000_0000,
{ a.wrapping_add(b) }
#[verifier::external_body]
pub fn usub32(a: u32, b: u32) -> (r: u32)
    ensures r == sub(a, b), a >= b ==> r == a - b, a < b ==> r == a - b + 0x1_0000_0000,
{ a.wrapping_sub(b) }
#[verifier::external_body]
pub fn umul64(a: u64, b: u64) -> (r: u64)
    ensures r == mul(a, b), a * b <= u64::MAX ==> r == a * b, r as int == (a as int * b as int) % 0x1_0000_0000_0000_0000,
{ a.wrapping_mul(b) }
/// x / 2 and x >> 1, x % 2 and x & 1 are the same
pub fn half64(x: u64) -> (r: u64) ensures r == x / 2, r == x >> 1 { assert(x / 2 == x >> 1) by(bit_vector); x / 2 }
pub fn low64(x: u64) -> (r: u64) ensures r == x % 2, r == x & 1 { assert(x % 2 == x & 1) by(bit_vector); x % 2 }
#[verifier::external_body]
pub fn umul32(a: u32, b: u32) -> (r: u32)
    ensures r == mul(a, b), a * b <= u32::MAX ==> r == a * b, r as int == (a as int * b as int) % 0x1_0000_0000,
{ a.wrapping_mul(b) }
pub fn inc_u8(a: u8) -> (r: u8) ensures a < 255 ==> r == a + 1, a == 255 ==> r == 0 { a.wrapping_add(1) }
pub fn dec_u8(a: u8) -> (r: u8) ensures a > 0 ==> r == a - 1, a == 0 ==> r == 255 { a.wrapping_sub(1) }

// ---- conversions
pub fn b2i32(b: bool) -> (r: i32) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
pub fn b2u64(b: bool) -> (r: u64) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
pub fn b2u8(b: bool) -> (r: u8) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
#[verifier::truncate] pub fn cast_u64_u8(a: u64) -> (r: u8) ensures r == a as u8, a < 256 ==> r == a { a as u8 }
#[verifier::truncate] pub fn cast_u64_u32(a: u64) -> (r: u32) ensures r == a as u32, a < 0x1_0000_0000 ==> r == a { a as u32 }
#[verifier::truncate] pub fn cast_u64_i32(a: u64) -> (r: i32) ensures r == a as i32, a < 0x8000_0000 ==> r == a { a as i32 }
#[verifier::truncate] pub fn cast_u64_i64(a: u64) -> (r: i64) ensures r == a as i64, a < 0x8000_0000_0000_0000 ==> r == a { a as i64 }
#[verifier::truncate] pub fn cast_u32_u8(a: u32) -> (r: u8) ensures r == a as u8, a < 256 ==> r == a { a as u8 }
#[verifier::truncate] pub fn cast_u32_i32(a: u32) -> (r: i32) ensures r == a as i32, a < 0x8000_0000 ==> r == a { a as i32 }
#[verifier::truncate] pub fn cast_i32_u8(a: i32) -> (r: u8) ensures r == a as u8, 0 <= a < 256 ==> r == a { a as u8 }
#[verifier::truncate] pub fn cast_i32_u32(a: i32) -> (r: u32) ensures r == a as u32, 0 <= a ==> r == a { a as u32 }
#[verifier::truncate] pub fn cast_i32_u64(a: i32) -> (r: u64) ensures r == a as u64, 0 <= a ==> r == a { a as u64 }
#[verifier::truncate] pub fn cast_i64_u64(a: i64) -> (r: u64) ensures r == a as u64, 0 <= a ==> r == a, a < 0 ==> r == a + 0x1_0000_0000_0000_0000 { assert(a < 0 ==> (a as u64) as int == a + 0x1_0000_0000_0000_0000) by(bit_vector); let r = a as u64; r }
#[verifier::truncate] pub fn cast_i64_i32(a: i64) -> (r: i32) ensures r == a as i32, -0x8000_0000 <= a <= 0x7fff_ffff ==> r == a { a as i32 }
#[verifier::truncate] pub fn cast_u8_i8(a: u8) -> (r: i8) ensures r == a as i8, a < 128 ==> r == a { a as i8 }
#[verifier::truncate] pub fn cast_u16_u8(a: u16) -> (r: u8) ensures r == a as u8, a <= 255 ==> r == a { a as u8 }
#[verifier::truncate] pub fn cast_u16_i8(a: u16) -> (r: i8) ensures r == a as i8, a <= 127 ==> r == a { a as i8 }
#[verifier::truncate] pub fn cast_u16_i16(a: u16) -> (r: i16) ensures r == a as i16, a <= 32767 ==> r == a { a as i16 }
#[verifier::truncate] pub fn cast_u32_u16(a: u32) -> (r: u16) ensures r == a as u16, a <= 65535 ==> r == a { a as u16 }
#[verifier::truncate] pub fn cast_u32_i8(a: u32) -> (r: i8) ensures r == a as i8, a <= 127 ==> r == a { a as i8 }
#[verifier::truncate] pub fn cast_u32_i16(a: u32) -> (r: i16) ensures r == a as i16, a <= 32767 ==> r == a { a as i16 }
#[verifier::truncate] pub fn cast_u64_u16(a: u64) -> (r: u16) ensures r == a as u16, a <= 65535 ==> r == a { a as u16 }
#[verifier::truncate] pub fn cast_u64_i8(a: u64) -> (r: i8) ensures r == a as i8, a <= 127 ==> r == a { a as i8 }
#[verifier::truncate] pub fn cast_u64_i16(a: u64) -> (r: i16) ensures r == a as i16, a <= 32767 ==> r == a { a as i16 }
#[verifier::truncate] pub fn cast_i8_u8(a: i8) -> (r: u8) ensures r == a as u8, 0 <= a ==> r == a { a as u8 }
#[verifier::truncate] pub fn cast_i8_u16(a: i8) -> (r: u16) ensures r == a as u16, 0 <= a ==> r == a { a as u16 }
#[verifier::truncate] pub fn cast_i8_u32(a: i8) -> (r: u32) ensures r == a as u32, 0 <= a ==> r == a { a as u32 }
#[verifier::truncate] pub fn cast_i8_u64(a: i8) -> (r: u64) ensures r == a as u64, 0 <= a ==> r == a { a as u64 }
#[verifier::truncate] pub fn cast_i16_u8(a: i16) -> (r: u8) ensures r == a as u8, 0 <= a && a <= 255 ==> r == a { a as u8 }
#[verifier::truncate] pub fn cast_i16_u16(a: i16) -> (r: u16) ensures r == a as u16, 0 <= a ==> r == a { a as u16 }
#[verifier::truncate] pub fn cast_i16_u32(a: i16) -> (r: u32) ensures r == a as u32, 0 <= a ==> r == a { a as u32 }
#[verifier::truncate] pub fn cast_i16_u64(a: i16) -> (r: u64) ensures r == a as u64, 0 <= a ==> r == a { a as u64 }
#[verifier::truncate] pub fn cast_i16_i8(a: i16) -> (r: i8) ensures r == a as i8, -128 <= a && a <= 127 ==> r == a { a as i8 }
#[verifier::truncate] pub fn cast_i32_u16(a: i32) -> (r: u16) ensures r == a as u16, 0 <= a && a <= 65535 ==> r == a { a as u16 }
#[verifier::truncate] pub fn cast_i32_i8(a: i32) -> (r: i8) ensures r == a as i8, -128 <= a && a <= 127 ==> r == a { a as i8 }
#[verifier::truncate] pub fn cast_i32_i16(a: i32) -> (r: i16) ensures r == a as i16, -32768 <= a && a <= 32767 ==> r == a { a as i16 }
#[verifier::truncate] pub fn cast_i64_u8(a: i64) -> (r: u8) ensures r == a as u8, 0 <= a && a <= 255 ==> r == a { a as u8 }
#[verifier::truncate] pub fn cast_i64_u16(a: i64) -> (r: u16) ensures r == a as u16, 0 <= a && a <= 65535 ==> r == a { a as u16 }
#[verifier::truncate] pub fn cast_i64_u32(a: i64) -> (r: u32) ensures r == a as u32, 0 <= a && a <= 4294967295 ==> r == a { a as u32 }
#[verifier::truncate] pub fn cast_i64_i8(a: i64) -> (r: i8) ensures r == a as i8, -128 <= a && a <= 127 ==> r == a { a as i8 }
#[verifier::truncate] pub fn cast_i64_i16(a: i64) -> (r: i16) ensures r == a as i16, -32768 <= a && a <= 32767 ==> r == a { a as i16 }
pub fn b2u16(b: bool) -> (r: u16) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
pub fn b2u32(b: bool) -> (r: u32) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
pub fn b2i8(b: bool) -> (r: i8) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
pub fn b2i16(b: bool) -> (r: i16) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
pub fn b2i64(b: bool) -> (r: i64) ensures r == (if b { 1int } else { 0int }) { if b { 1 } else { 0 } }
pub fn inc_u16(a: u16) -> (r: u16) ensures a < 65535 ==> r == a + 1, a == 65535 ==> r == 0 { a.wrapping_add(1) }
pub fn dec_u16(a: u16) -> (r: u16) ensures a > 0 ==> r == a - 1, a == 0 ==> r == 65535 { a.wrapping_sub(1) }
// a shift amount must lie in [0, width): negative amounts are undefined behaviour
pub fn sh_amt(a: i32) -> (r: u64) requires 0 <= a, ensures r == a { a as u64 }
pub fn sh_amt64(a: i64) -> (r: u64) requires 0 <= a, ensures r == a { a as u64 }
pub fn shl_u32(a: u32, b: u64) -> (r: u32) requires b < 32, ensures r == a << b { a << b }
pub fn shr_u32(a: u32, b: u64) -> (r: u32) requires b < 32, ensures r == a >> b { a >> b }
// signed left shift: C++17 requires the result to be representable (unsigned), kept to the exact case
#[verifier::external_body]
pub fn sshl_i32(a: i32, b: u64) -> (r: i32) requires b < 31, a >= 0, a * p2(b as nat) <= 0x7fff_ffff, ensures r == a * p2(b as nat) { a << b }
#[verifier::external_body]
pub fn sshl_i64(a: i64, b: u64) -> (r: i64) requires b < 63, a >= 0, a * p2(b as nat) <= 0x7fff_ffff_ffff_ffff, ensures r == a * p2(b as nat) { a << b }
// signed right shift (arithmetic in gcc and clang)
#[verifier::external_body]
pub fn sshr_i32(a: i32, b: u64) -> (r: i32) requires b < 32, ensures a >= 0 ==> r == a as int / p2(b as nat) as int, a < 0 ==> r < 0, { a >> b }
#[verifier::external_body]
pub fn sshr_i64(a: i64, b: u64) -> (r: i64) requires b < 64, ensures a >= 0 ==> r == a as int / p2(b as nat) as int, a < 0 ==> r < 0, { a >> b }
// signed division truncates
#[verifier::external_body]
pub fn sdiv_i32(a: i32, b: i32) -> (r: i32) requires b > 0, ensures a >= 0 ==> r == a as int / b as int, a < 0 ==> r == -((-a) as int / b as int), { a / b }
#[verifier::external_body]
pub fn srem_i32(a: i32, b: i32) -> (r: i32) requires b > 0, ensures a >= 0 ==> r == a as int % b as int, a < 0 ==> r == -((-a) as int % b as int), { a % b }
#[verifier::external_body]
pub fn sdiv_i64(a: i64, b: i64) -> (r: i64) requires b > 0, ensures a >= 0 ==> r == a as int / b as int, a < 0 ==> r == -((-a) as int / b as int), { a / b }
#[verifier::external_body]
pub fn srem_i64(a: i64, b: i64) -> (r: i64) requires b > 0, ensures a >= 0 ==> r == a as int % b as int, a < 0 ==> r == -((-a) as int % b as int), { a % b }

// assert(): the process aborts when the condition is false, so it must hold
pub fn cpp_abort() requires false, { }
/// a failing assert in a function whose contract only speaks about calls that return
#[verifier::external_body] pub fn cpp_stop() ensures false { unimplemented!() }

// ---- uninitialised locals: no assumption about their value
#[verifier::external_body] pub fn uninit_u64() -> u64 { 0 }
#[verifier::external_body] pub fn uninit_u32() -> u32 { 0 }
#[verifier::external_body] pub fn uninit_i32() -> i32 { 0 }
#[verifier::external_body] pub fn uninit_u8() -> u8 { 0 }
#[verifier::external_body] pub fn uninit_bool() -> bool { false }
#[verifier::external_body] pub fn uninit_arr64<const N: usize>() -> [u64; N] { [0u64; N] }
#[verifier::external_body] pub fn uninit_arr<const N: usize>() -> [u8; N] { [0u8; N] }

// ---- powers of two
pub open spec fn p2(k: nat) -> nat decreases k { if k == 0 { 1 } else { 2 * p2((k - 1) as nat) } }

// ---- std::vector
#[verifier::external_body]
pub fn vclone<T: Copy>(v: &Vec<T>) -> (r: Vec<T>) ensures r@ == v@ { v.clone() }
#[verifier::external_body]
pub fn vclone2<T: Copy>(v: &Vec<Vec<T>>) -> (r: Vec<Vec<T>>) ensures r@ == v@ { v.clone() }
/// the implicit copy of a class of plain values and vectors of them
#[verifier::external_body]
pub fn sclone<T>(v: &T) -> (r: T) ensures r == *v { unimplemented!() }
pub fn vpop<T>(v: &mut Vec<T>) requires old(v).len() > 0, ensures final(v)@ == old(v)@.drop_last() { let _ = v.pop(); }
pub fn vclear<T>(v: &mut Vec<T>) ensures final(v)@ == Seq::<T>::empty() { v.clear(); }
pub fn last_ix<T>(v: &Vec<T>) -> (r: usize) requires v.len() > 0, ensures r == v.len() - 1 { v.len() - 1 }
#[verifier::external_body]
pub fn vappend<T: Copy>(v: &mut Vec<T>, a: VIt<T>, b: VIt<T>)
    requires a.v@ == b.v@, a.idx <= b.idx, b.idx <= b.v@.len(),
    ensures final(v)@ == old(v)@ + a.v@.subrange(a.idx as int, b.idx as int)
{ for i in a.idx..b.idx { v.push(a.v[i as usize]); } }
#[verifier::external_body]
pub fn vec_eq<T: Copy + PartialEq>(a: &Vec<T>, b: &Vec<T>) -> (r: bool) ensures r == (a@ == b@) { a == b }
pub open spec fn sorted_u64(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> s[i] <= s[j] }
// std::sort(v.begin(), v.end()): a sorted permutation
#[verifier::external_body]
pub fn vsort(v: &mut Vec<u64>) ensures sorted_u64(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), forall|x: u64| #[trigger] final(v)@.contains(x) <==> old(v)@.contains(x) { v.sort() }

// ---- const iterators: a vector together with an index into it
pub struct VIt<'a, T> { pub v: &'a [T], pub idx: u64 }
impl<'a, T> Copy for VIt<'a, T> {}
impl<'a, T> Clone for VIt<'a, T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub fn it_begin<'a, T>(v: &'a Vec<T>) -> (r: VIt<'a, T>) ensures r.v@ == v@, r.idx == 0 { VIt { v: v.as_slice(), idx: 0 } }
pub fn it_end<'a, T>(v: &'a Vec<T>) -> (r: VIt<'a, T>) ensures r.v@ == v@, r.idx == v@.len() { VIt { v: v.as_slice(), idx: v.len() as u64 } }
pub fn it_at<'a, T: Copy>(a: &VIt<'a, T>, k: i64) -> (r: T) requires 0 <= a.idx + k < a.v@.len(), a.idx <= a.v@.len(), a.v@.len() <= i64::MAX, ensures r == a.v@[a.idx + k] { a.v[(a.idx as i64 + k) as usize] }
pub fn it_add<'a, T>(a: &VIt<'a, T>, k: i64) -> (r: VIt<'a, T>) requires 0 <= a.idx + k <= a.v@.len(), a.idx <= a.v@.len(), a.v@.len() <= i64::MAX, ensures r.v@ == a.v@, r.idx == a.idx + k { VIt { v: a.v, idx: (a.idx as i64 + k) as u64 } }
pub fn it_diff<'a, T>(a: &VIt<'a, T>, b: &VIt<'a, T>) -> (r: i64) requires a.v@ == b.v@, a.idx <= a.v@.len(), b.idx <= b.v@.len(), a.v@.len() <= i64::MAX, ensures r == a.idx - b.idx { a.idx as i64 - b.idx as i64 }
pub fn it_lt<'a, T>(a: &VIt<'a, T>, b: &VIt<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx < b.idx) { a.idx < b.idx }
pub fn it_le<'a, T>(a: &VIt<'a, T>, b: &VIt<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx <= b.idx) { a.idx <= b.idx }
pub fn it_gt<'a, T>(a: &VIt<'a, T>, b: &VIt<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx > b.idx) { a.idx > b.idx }
pub fn it_ge<'a, T>(a: &VIt<'a, T>, b: &VIt<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx >= b.idx) { a.idx >= b.idx }
pub fn it_eq<'a, T>(a: &VIt<'a, T>, b: &VIt<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx == b.idx) { a.idx == b.idx }
pub fn it_ne<'a, T>(a: &VIt<'a, T>, b: &VIt<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx != b.idx) { a.idx != b.idx }

// ---- const reverse iterators: idx elements are still to come
pub struct VRit<'a, T> { pub v: &'a [T], pub idx: u64 }
impl<'a, T> Copy for VRit<'a, T> {}
impl<'a, T> Clone for VRit<'a, T> { fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub fn rit_begin<'a, T>(v: &'a Vec<T>) -> (r: VRit<'a, T>) ensures r.v@ == v@, r.idx == v@.len() { VRit { v: v.as_slice(), idx: v.len() as u64 } }
pub fn rit_end<'a, T>(v: &'a Vec<T>) -> (r: VRit<'a, T>) ensures r.v@ == v@, r.idx == 0 { VRit { v: v.as_slice(), idx: 0 } }
pub fn rit_at<'a, T: Copy>(a: &VRit<'a, T>, k: i64) -> (r: T) requires 0 <= a.idx - 1 - k < a.v@.len(), ensures r == a.v@[a.idx - 1 - k] { assert(a.v.len() == a.v@.len()); a.v[(a.idx as i128 - 1 - k as i128) as usize] }
pub fn rit_add<'a, T>(a: &VRit<'a, T>, k: i64) -> (r: VRit<'a, T>) requires 0 <= a.idx - k <= a.v@.len(), ensures r.v@ == a.v@, r.idx == a.idx - k { assert(a.v.len() == a.v@.len()); VRit { v: a.v, idx: (a.idx as i128 - k as i128) as u64 } }
pub fn rit_eq<'a, T>(a: &VRit<'a, T>, b: &VRit<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx == b.idx) { a.idx == b.idx }
pub fn rit_ne<'a, T>(a: &VRit<'a, T>, b: &VRit<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx != b.idx) { a.idx != b.idx }
pub fn rit_lt<'a, T>(a: &VRit<'a, T>, b: &VRit<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx > b.idx) { a.idx > b.idx }
pub fn rit_le<'a, T>(a: &VRit<'a, T>, b: &VRit<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx >= b.idx) { a.idx >= b.idx }
pub fn rit_gt<'a, T>(a: &VRit<'a, T>, b: &VRit<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx < b.idx) { a.idx < b.idx }
pub fn rit_ge<'a, T>(a: &VRit<'a, T>, b: &VRit<'a, T>) -> (r: bool) requires a.v@ == b.v@, ensures r == (a.idx <= b.idx) { a.idx <= b.idx }
#[verifier::external_body] pub fn arr_eq<const N: usize>(a: &[u8; N], b: &[u8; N]) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub fn snot_i32(a: i32) -> (r: i32) ensures r == -1 - a { -1 - a }

// ---- std::bitset<64>(x).count()
pub open spec fn popc(x: nat) -> nat decreases x { if x == 0 { 0 } else { x % 2 + popc(x / 2) } }
#[verifier::external_body]
pub fn popcount(x: u64) -> (r: u64) ensures r == popc(x as nat), r <= 64 { x.count_ones() as u64 }

// ---- raw pointers into byte storage: a slice and an index; every access is bounds-checked by its contract
pub fn it_of<'a, T>(v: &'a [T], off: u64) -> (r: VIt<'a, T>) requires off <= v@.len(), ensures r.v@ == v@, r.idx == off { VIt { v: v, idx: off } }
pub fn arr_slice<T, const N: usize>(a: &[T; N]) -> (r: &[T]) ensures r@ == a@ { a.as_slice() }
// memcpy between byte ranges (the borrow checker rules out overlap)
#[verifier::external_body]
pub fn mem_copy(dst: &mut [u8], doff: u64, src: VIt<u8>, n: u64)
    requires doff + n <= old(dst)@.len(), src.idx + n <= src.v@.len(),
    ensures final(dst)@.len() == old(dst)@.len(),
        forall|j: int| 0 <= j < n ==> #[trigger] final(dst)@[doff + j] == src.v@[src.idx + j],
        forall|j: int| 0 <= j < final(dst)@.len() && !(doff <= j < doff + n) ==> #[trigger] final(dst)@[j] == old(dst)@[j],
{ dst[doff as usize..(doff+n) as usize].copy_from_slice(&src.v[src.idx as usize..(src.idx+n) as usize]) }
// memcpy between a little-endian integer variable and memory
pub open spec fn ldle32(s: Seq<u8>, o: int) -> u32 { (s[o] as u32) | ((s[o+1] as u32) << 8u32) | ((s[o+2] as u32) << 16u32) | ((s[o+3] as u32) << 24u32) }
pub open spec fn ldle64(s: Seq<u8>, o: int) -> u64 { (s[o] as u64) | ((s[o+1] as u64) << 8u64) | ((s[o+2] as u64) << 16u64) | ((s[o+3] as u64) << 24u64) | ((s[o+4] as u64) << 32u64) | ((s[o+5] as u64) << 40u64) | ((s[o+6] as u64) << 48u64) | ((s[o+7] as u64) << 56u64) }
#[verifier::external_body]
pub fn mem_load_u32(src: VIt<u8>) -> (r: u32) requires src.idx + 4 <= src.v@.len(), ensures r == ldle32(src.v@, src.idx as int) { unimplemented!() }
#[verifier::external_body]
pub fn mem_load_u64(src: VIt<u8>) -> (r: u64) requires src.idx + 8 <= src.v@.len(), ensures r == ldle64(src.v@, src.idx as int) { unimplemented!() }
#[verifier::external_body]
pub fn mem_store_u32(dst: &mut [u8], doff: u64, x: u32)
    requires doff + 4 <= old(dst)@.len(),
    ensures final(dst)@ == old(dst)@.update(doff as int, (x & 0xff) as u8).update(doff + 1, ((x >> 8u32) & 0xff) as u8).update(doff + 2, ((x >> 16u32) & 0xff) as u8).update(doff + 3, ((x >> 24u32) & 0xff) as u8),
{ unimplemented!() }
#[verifier::external_body]
pub fn mem_store_u64(dst: &mut [u8], doff: u64, x: u64)
    requires doff + 8 <= old(dst)@.len(),
    ensures final(dst)@ == old(dst)@.update(doff as int, (x & 0xff) as u8).update(doff + 1, ((x >> 8u64) & 0xff) as u8).update(doff + 2, ((x >> 16u64) & 0xff) as u8).update(doff + 3, ((x >> 24u64) & 0xff) as u8)
        .update(doff + 4, ((x >> 32u64) & 0xff) as u8).update(doff + 5, ((x >> 40u64) & 0xff) as u8).update(doff + 6, ((x >> 48u64) & 0xff) as u8).update(doff + 7, ((x >> 56u64) & 0xff) as u8),
{ unimplemented!() }
// byte swaps, bit by bit
pub fn bswap_u32(x: u32) -> (r: u32)
    ensures r == (((x & 0xff) << 24u32) | (((x >> 8u32) & 0xff) << 16u32) | (((x >> 16u32) & 0xff) << 8u32) | ((x >> 24u32) & 0xff)),
{ ((x & 0xff) << 24u32) | (((x >> 8u32) & 0xff) << 16u32) | (((x >> 16u32) & 0xff) << 8u32) | ((x >> 24u32) & 0xff) }
pub fn bswap_u64(x: u64) -> (r: u64)
    ensures r == (((x & 0xff) << 56u64) | (((x >> 8u64) & 0xff) << 48u64) | (((x >> 16u64) & 0xff) << 40u64) | (((x >> 24u64) & 0xff) << 32u64) | (((x >> 32u64) & 0xff) << 24u64) | (((x >> 40u64) & 0xff) << 16u64) | (((x >> 48u64) & 0xff) << 8u64) | ((x >> 56u64) & 0xff)),
{ ((x & 0xff) << 56u64) | (((x >> 8u64) & 0xff) << 48u64) | (((x >> 16u64) & 0xff) << 40u64) | (((x >> 24u64) & 0xff) << 32u64) | (((x >> 32u64) & 0xff) << 24u64) | (((x >> 40u64) & 0xff) << 16u64) | (((x >> 48u64) & 0xff) << 8u64) | ((x >> 56u64) & 0xff) }
// std::vector<uint8_t>::resize
#[verifier::external_body]
pub fn vresize(v: &mut Vec<u8>, n: u64)
    ensures final(v)@.len() == n, forall|j: int| 0 <= j < n && j < old(v)@.len() ==> #[trigger] final(v)@[j] == old(v)@[j], forall|j: int| old(v)@.len() <= j < n ==> #[trigger] final(v)@[j] == 0,
{ v.resize(n as usize, 0u8) }
pub open spec fn sort_of(s: Seq<u64>, t: Seq<u64>) -> bool { sorted_u64(s) && s.to_multiset() == t.to_multiset() && s.len() == t.len() }
