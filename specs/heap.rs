// ---------------------------------------------------------------------------
// Shims for node pointers, the position map, optional, files; hashes; existing nodes
// ---------------------------------------------------------------------------
pub type H = [u8; 32];
/// std::shared_ptr<Node>: an index into the arena of all nodes ever made, or null
#[derive(Clone, Copy)]
pub struct NP { pub null: bool, pub i: usize }
pub fn np_null() -> (r: NP) ensures r == (NP { null: true, i: 0 }) { NP { null: true, i: 0 } }
pub fn np_ix(p: NP) -> (r: usize) requires !p.null, ensures r == p.i { p.i }
pub fn np_eq(a: NP, b: NP) -> (r: bool) ensures r == (a.null == b.null && (a.null || a.i == b.i)) { a.null == b.null && (a.null || a.i == b.i) }

/// std::unordered_map<Hash, uint64_t>
#[verifier::external_body]
pub struct CMap { m: std::collections::HashMap<H, u64> }
impl View for CMap { type V = Map<H, u64>; uninterp spec fn view(&self) -> Map<H, u64>; }
#[verifier::external_body] pub fn map_new() -> (r: CMap) ensures r@ == Map::<H, u64>::empty() { unimplemented!() }
#[verifier::external_body] pub fn map_find(m: &CMap, k: H) -> (r: Option<H>) ensures r == (if m@.contains_key(k) { Some(k) } else { None::<H> }) { unimplemented!() }
#[verifier::external_body] pub fn map_at(m: &CMap, k: H) -> (r: u64) requires m@.contains_key(k), ensures r == m@[k] { unimplemented!() }
#[verifier::external_body] pub fn map_set(m: &mut CMap, k: H, v: u64) ensures final(m)@ == old(m)@.insert(k, v) { unimplemented!() }
/// insertion that keeps an existing entry
#[verifier::external_body] pub fn map_add(m: &mut CMap, k: H, v: u64) ensures final(m)@ == (if old(m)@.contains_key(k) { old(m)@ } else { old(m)@.insert(k, v) }) { unimplemented!() }
#[verifier::external_body] pub fn map_erase(m: &mut CMap, k: H) ensures final(m)@ == old(m)@.remove(k) { unimplemented!() }
#[verifier::external_body] pub fn map_clear(m: &mut CMap) ensures final(m)@ == Map::<H, u64>::empty() { unimplemented!() }
#[verifier::external_body] pub fn map_size(m: &CMap) -> (r: u64) ensures r == m@.dom().len(), m@.dom().finite() { unimplemented!() }
#[verifier::external_body] pub fn map_eq(a: &CMap, b: &CMap) -> (r: bool) ensures r == (a@ =~= b@) { unimplemented!() }
/// dereferencing a map iterator: it must not be end()
pub fn it_key(o: Option<H>) -> (r: H) requires o.is_some(), ensures r == o->0 { o.unwrap() }

pub fn opt_value<T: Copy>(o: Option<T>) -> (r: T) requires o.is_some(), ensures r == o->0 { o.unwrap() }
#[verifier::external_body] pub fn vnew_hash(n: u64) -> (r: Vec<H>) ensures r@.len() == n { unimplemented!() }
#[verifier::external_body]
pub fn vresize_hash(v: &mut Vec<H>, n: u64) ensures final(v)@.len() == n, forall|j: int| 0 <= j < n && j < old(v)@.len() ==> #[trigger] final(v)@[j] == old(v)@[j] { unimplemented!() }
#[verifier::external_body]
pub fn vresize_vec(v: &mut Vec<Vec<H>>, n: u64) ensures final(v)@.len() == n, forall|j: int| 0 <= j < n && j < old(v)@.len() ==> #[trigger] final(v)@[j] == old(v)@[j], forall|j: int| old(v)@.len() <= j < n ==> #[trigger] final(v)@[j]@.len() == 0 { unimplemented!() }
/// std::unordered_set<uint64_t>
#[verifier::external_body]
pub struct CSet { m: std::collections::HashSet<u64> }
impl View for CSet { type V = Set<u64>; uninterp spec fn view(&self) -> Set<u64>; }
#[verifier::external_body] pub fn set_new() -> (r: CSet) ensures r@ == Set::<u64>::empty() { unimplemented!() }
#[verifier::external_body] pub fn set_insert(m: &mut CSet, k: u64) ensures final(m)@ == old(m)@.insert(k) { unimplemented!() }
/// the elements in some order
#[verifier::external_body] pub fn set_list(m: &CSet) -> (r: Vec<u64>) ensures forall|x: u64| r@.contains(x) <==> #[trigger] m@.contains(x) { unimplemented!() }
/// std::fstream on a binary file: the bytes of the file, the joint read/write position, and the kind of the last transfer (0: none since the last seek, 1: read, 2: write)
pub struct CFile { pub b: Vec<u8>, pub pos: u64, pub good: bool, pub dir: u8 }
/// std::string with a file name
pub struct CPath { pub name: Vec<u8> }
/// the file system: which files exist, and what they hold
pub uninterp spec fn disk_has(p: CPath) -> bool;
pub uninterp spec fn disk(p: CPath) -> Seq<u8>;
pub fn file_closed() -> (r: CFile) ensures !r.good { CFile { b: Vec::new(), pos: 0, good: false, dir: 0 } }
#[verifier::external_body] pub fn file_open(p: &CPath) -> (r: CFile) ensures r.good == disk_has(*p), r.good ==> r.b@ == disk(*p) && r.pos == 0 && r.dir == 0 { unimplemented!() }
#[verifier::external_body] pub fn file_create(p: &CPath) -> (r: CFile) ensures r.good, r.b@.len() == 0, r.pos == 0, r.dir == 0 { unimplemented!() }
#[verifier::external_body] pub fn file_seek(f: &mut CFile, p: i64) requires old(f).good, 0 <= p <= old(f).b@.len() ensures final(f).good, final(f).b == old(f).b, final(f).pos == p, final(f).dir == 0 { unimplemented!() }
#[verifier::external_body] pub fn file_flush(f: &mut CFile) ensures final(f).b == old(f).b, final(f).pos == old(f).pos, final(f).good == old(f).good { unimplemented!() }
#[verifier::external_body] pub fn file_close(f: &mut CFile) requires old(f).good ensures final(f).b == old(f).b { unimplemented!() }
/// std::istream::read inside the file; a transfer in the other direction needs a seek in between
#[verifier::external_body] pub fn file_read(f: &mut CFile, d: &mut [u8], o: u64, k: u64) requires old(f).good, old(f).dir != 2, old(f).pos + k <= old(f).b@.len(), o + k <= old(d)@.len()
    ensures final(f).good, final(f).b == old(f).b, final(f).pos == old(f).pos + k, final(f).dir == 1, final(d)@.len() == old(d)@.len(), forall|j: int| 0 <= j < old(d)@.len() ==> #[trigger] final(d)@[j] == (if o <= j < o + k { old(f).b@[old(f).pos + j - o] } else { old(d)@[j] }) { unimplemented!() }
/// std::ostream::write: overwrites or extends the file
#[verifier::external_body] pub fn file_write(f: &mut CFile, s: &[u8], o: u64, k: u64) requires old(f).good, old(f).dir != 1, old(f).pos <= old(f).b@.len(), o + k <= s@.len(), old(f).pos + k <= i64::MAX
    ensures final(f).good, final(f).pos == old(f).pos + k, final(f).dir == 2, final(f).b@.len() == (if old(f).pos + k > old(f).b@.len() { old(f).pos + k } else { old(f).b@.len() as int }),
        forall|j: int| 0 <= j < final(f).b@.len() ==> #[trigger] final(f).b@[j] == (if old(f).pos <= j < old(f).pos + k { s@[o + j - old(f).pos] } else { old(f).b@[j] }) { unimplemented!() }

// ---------------------------------------------------------------------------
// Hashes of the forest
// ---------------------------------------------------------------------------
/// p is the parent hash of l and r: SHA-512/256 of the concatenation (C19)
pub open spec fn is_parent(p: H, l: H, r: H) -> bool { p@.len() == 32 && digest_at(p@, 0, digest_words(iv256(), l@ + r@), 4) }
pub open spec fn phash(l: H, r: H) -> H { choose|p: H| is_parent(p, l, r) }
/// there is only one such hash
pub proof fn phash_is(p: H, l: H, r: H) requires is_parent(p, l, r) ensures p == phash(l, r) {
    let q = phash(l, r); assert(is_parent(q, l, r));
    let w = digest_words(iv256(), l@ + r@);
    assert forall|j: int| 0 <= j < 32 implies p@[j] == q@[j] by {
        let i = j / 8;
        assert(be64_at(p@, 0 + 8 * i, w[i])); assert(be64_at(q@, 0 + 8 * i, w[i]));
        be64_uniq(p@, q@, 8 * i, w[i], j - 8 * i);
    }
    assert(p@ =~= q@); arr_ext(p, q);
}
pub proof fn arr_ext(p: H, q: H) requires p@ == q@ ensures p == q { assert forall|i: int| 0 <= i < 32 implies p[i] == q[i] by { assert(p@[i] == q@[i]); } assert(p =~= q); }
pub proof fn be64_uniq(p: Seq<u8>, q: Seq<u8>, o: int, w: u64, k: int) requires be64_at(p, o, w), be64_at(q, o, w), 0 <= k < 8 ensures p[o + k] == q[o + k] {
    assert(k == 0 || k == 1 || k == 2 || k == 3 || k == 4 || k == 5 || k == 6 || k == 7);
}
/// the Merkle hash of node (r,i) over the given leaves
pub open spec fn mk(lv: Seq<H>, r: int, i: int) -> H decreases r { if r <= 0 { lv[i] } else { phash(mk(lv, r - 1, 2 * i), mk(lv, r - 1, 2 * i + 1)) } }

pub open spec fn okf(n: int) -> bool { 0 <= n < 0x8000_0000 }
pub proof fn ex_down(n: int, r: int, i: int) requires ex(n, r, i), r >= 1 ensures ex(n, r - 1, 2 * i), ex(n, r - 1, 2 * i + 1) {
    let p = p2((r - 1) as nat) as int; p2_s((r - 1) as nat); p2_pos((r - 1) as nat);
    assert((i + 1) * (2 * p) == (2 * i + 2) * p) by(nonlinear_arith); assert((2 * i + 1) * p <= (2 * i + 2) * p) by(nonlinear_arith) requires p >= 1;
    assert((2 * i + 1 + 1) * p == (2 * i + 2) * p);
}
pub proof fn ex_div(n: int, r: int, i: int) requires n >= 0, r >= 0 ensures ex(n, r, i) <==> 0 <= i < n / p2(r as nat) as int {
    let p = p2(r as nat) as int; p2_pos(r as nat);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, p); vstd::arithmetic::div_mod::lemma_mod_bound(n, p); let q = n / p;
    if i >= 0 && (i + 1) * p <= n { if i >= q { assert((i + 1) * p >= (q + 1) * p) by(nonlinear_arith) requires i >= q, p >= 1; assert((q + 1) * p == p * q + p) by(nonlinear_arith); } }
    if 0 <= i < q { assert((i + 1) * p <= p * q) by(nonlinear_arith) requires i + 1 <= q, p >= 1; }
}
pub proof fn ex0(n: int, i: int) requires n >= 0 ensures ex(n, 0, i) <==> 0 <= i < n { assert(p2(0) == 1); assert((i + 1) * 1 == i + 1) by(nonlinear_arith); }
pub proof fn ex_mono(n: int, m: int, r: int, i: int) requires ex(n, r, i), n <= m ensures ex(m, r, i) { }
pub proof fn root_index_ok(n: int, R: int) requires n >= 0, R >= 0, bit(n, R) ensures trees_above(n, R) < popc(n as nat) {
    p2_pos(R as nat); popc_shift(n as nat, R as nat); div2(n, R); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(R as nat) as int); popc_step((n / p2(R as nat) as int) as nat);
}
pub proof fn root_ex(n: int, R: int) requires n >= 0, R >= 0, bit(n, R) ensures ex(n, R, ri(n, R)) { div2(n, R); ex_div(n, R, ri(n, R)); p2_pos((R + 1) as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2((R + 1) as nat) as int); }
pub proof fn at_uniq(n: u64, pos: u64, r: int, i: int, r2: int, i2: int) requires at(n, pos, r, i), at(n, pos, r2, i2) ensures r == r2, i == i2 { gp_inj(hh_of(n), r, i, r2, i2); }
pub proof fn at_pos(n: u64, pos: u64, r: int, i: int) requires at(n, pos, r, i), okn(n) ensures pos < p2((hh_of(n) + 1) as nat) - 1 { let h = hh_of(n); gp_range(h, r, i); gp_rows(h, r + 1, h + 1); p2_s(h as nat); p2_pos(h as nat); assert(p2(0) == 1); }
pub proof fn popc_shift(x: nat, k: nat) ensures popc((x as int / p2(k) as int) as nat) <= popc(x) decreases k {
    if k > 0 { p2_pos((k - 1) as nat); popc_shift(x, (k - 1) as nat); div_div(x as int, p2((k - 1) as nat) as int, 2); assert(p2(k) == p2((k - 1) as nat) * 2); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x as int, p2((k - 1) as nat) as int); popc_step((x as int / p2((k - 1) as nat) as int) as nat); }
    else { assert(x as int / 1 == x); }
}
