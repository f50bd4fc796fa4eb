// ---------------------------------------------------------------------------
// The file of a forest (C12): the leaf count, then row by row from the bottom the hashes of the stored nodes.
// ---------------------------------------------------------------------------
pub open spec fn cnt(n: int, r: int) -> int { n / p2(r as nat) as int }
/// number of hashes before row r
pub open spec fn rowoff(n: int, r: int) -> int decreases r { if r <= 0 { 0 } else { rowoff(n, r - 1) + cnt(n, r - 1) } }
pub open spec fn slot(n: int, r: int, i: int) -> int { 8 + 32 * (rowoff(n, r) + i) }
pub open spec fn held(b: Seq<u8>, o: int, x: H) -> bool { 0 <= o && o + 32 <= b.len() && (forall|k: int| 0 <= k < 32 ==> #[trigger] b[o + k] == x@[k]) }
/// the rows before R and the first J nodes of row R are in the file
pub open spec fn saved_to(f: RamForest, b: Seq<u8>, R: int, J: int) -> bool { let n = f.m_num_leaves as int;
    be64_at(b, 0, f.m_num_leaves) && (forall|r: int, i: int| #[trigger] ex(n, r, i) && (r < R || (r == R && i < J)) ==> held(b, slot(n, r, i), dat(f, r, i))) }
/// the file holds the forest
pub open spec fn saved(f: RamForest, b: Seq<u8>) -> bool { let n = f.m_num_leaves as int;
    be64_at(b, 0, f.m_num_leaves) && (forall|r: int, i: int| #[trigger] ex(n, r, i) ==> held(b, slot(n, r, i), dat(f, r, i))) }
/// the forests differ in the file only
pub open spec fn same_but_file(f: RamForest, g: RamForest) -> bool { g.m_data == f.m_data && g.m_num_leaves == f.m_num_leaves && g.m_roots == f.m_roots && g.m_posmap == f.m_posmap && g.heap == f.heap }
pub proof fn cnt_step(n: int, r: int) requires n >= 0, r >= 0 ensures cnt(n, r + 1) == cnt(n, r) / 2, cnt(n, r) >= 0, 2 * cnt(n, r + 1) <= cnt(n, r)
{ div2(n, r); let a = n / (p2(r as nat) as int); let c = n / (p2((r + 1) as nat) as int); assert(cnt(n, r) == a); assert(cnt(n, r + 1) == c); assert(c == a / 2); p2_pos(r as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(r as nat) as int); assert(a >= 0); assert(2 * c <= a) by(nonlinear_arith) requires c == a / 2, a >= 0; assert(2 * cnt(n, r + 1) <= cnt(n, r)); }
pub proof fn cnt0(n: int) ensures cnt(n, 0) == n { assert(p2(0) == 1); assert(p2(0 as nat) as int == 1); assert(n / 1 == n); }
/// the file stays small
pub proof fn rowoff_small(n: int, r: int) requires n >= 0, r >= 0 ensures 0 <= rowoff(n, r) <= 2 * n - 2 * cnt(n, r), cnt(n, r) >= 0 decreases r { cnt0(n); if r > 0 { rowoff_small(n, r - 1); cnt_step(n, r - 1); } else { } }
pub proof fn slot_before(n: int, r: int, i: int, R: int) requires n >= 0, 0 <= r < R, ex(n, r, i) ensures slot(n, r, i) + 32 <= slot(n, R, 0), slot(n, r, i) >= 8 decreases R
{ ex_div(n, r, i); rowoff_small(n, r); if R == r + 1 { } else { slot_before(n, r, i, R - 1); cnt_step(n, R - 1); } }
pub proof fn cnt_zero(n: int, q: int, r: int, i: int) requires n >= 0, 0 <= q, cnt(n, q) == 0, ex(n, r, i) ensures r < q decreases r
{ ex_div(n, r, i); if r >= q { cnt_step(n, r - 1); if r == q { } else { ex_div(n, r - 1, 0); assert(cnt(n, r - 1) >= 1); cnt_zero(n, q, r - 1, 0); } } }
/// a hash was appended to what is saved
pub proof fn saved_step(f: RamForest, b: Seq<u8>, b2: Seq<u8>, R: int, J: int)
    requires saved_to(f, b, R, J), 0 <= R, ex(f.m_num_leaves as int, R, J), b2.len() >= b.len(), slot(f.m_num_leaves as int, R, J) <= b.len(), b2.len() >= slot(f.m_num_leaves as int, R, J) + 32,
        forall|j: int| 0 <= j < b2.len() ==> #[trigger] b2[j] == (if slot(f.m_num_leaves as int, R, J) <= j < slot(f.m_num_leaves as int, R, J) + 32 { dat(f, R, J)@[j - slot(f.m_num_leaves as int, R, J)] } else { b[j] })
    ensures saved_to(f, b2, R, J + 1)
{
    let n = f.m_num_leaves as int; let p = slot(n, R, J); rowoff_small(n, R); ex_div(n, R, J);
    assert forall|r: int, i: int| #[trigger] ex(n, r, i) && (r < R || (r == R && i < J + 1)) implies held(b2, slot(n, r, i), dat(f, r, i)) by {
        let o = slot(n, r, i); ex_div(n, r, i); ex_row(n, r, i);
        if r == R && i == J { assert forall|k: int| 0 <= k < 32 implies #[trigger] b2[o + k] == dat(f, r, i)@[k] by { } }
        else { assert(held(b, o, dat(f, r, i))); if r < R { slot_before(n, r, i, R); rowoff_small(n, r); } else { rowoff_small(n, r); } 
            assert(o + 32 <= p);
            assert forall|k: int| 0 <= k < 32 implies #[trigger] b2[o + k] == dat(f, r, i)@[k] by { assert(b[o + k] == dat(f, r, i)@[k]); } }
    }
}
/// the next row
pub proof fn saved_row(f: RamForest, b: Seq<u8>, R: int) requires R >= 0, saved_to(f, b, R, cnt(f.m_num_leaves as int, R)) ensures saved_to(f, b, R + 1, 0)
{ let n = f.m_num_leaves as int; assert forall|r: int, i: int| #[trigger] ex(n, r, i) && (r < R + 1 || (r == R + 1 && i < 0)) implies held(b, slot(n, r, i), dat(f, r, i)) by { ex_row(n, r, i); ex_div(n, r, i); } }
pub proof fn saved_end(f: RamForest, b: Seq<u8>, R: int) requires R > hh_of(f.m_num_leaves), saved_to(f, b, R, 0) ensures saved(f, b)
{ let n = f.m_num_leaves as int; assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies held(b, slot(n, r, i), dat(f, r, i)) by { ex_row(n, r, i); } }
pub proof fn saved_head(f: RamForest, b: Seq<u8>) requires be64_at(b, 0, f.m_num_leaves) ensures saved_to(f, b, 0, 0)
{ let n = f.m_num_leaves as int; assert forall|r: int, i: int| #[trigger] ex(n, r, i) && (r < 0 || (r == 0 && i < 0)) implies held(b, slot(n, r, i), dat(f, r, i)) by { ex_row(n, r, i); ex_div(n, r, i); } }
/// the hash read back
pub proof fn read_back(b: Seq<u8>, o: int, x: H, y: H) requires held(b, o, x), forall|k: int| 0 <= k < 32 ==> #[trigger] y@[k] == b[o + k] ensures x == y
{ assert forall|k: int| 0 <= k < 32 implies x@[k] == y@[k] by { assert(b[o + k] == x@[k]); } assert(x@ =~= y@); arr_ext(x, y); }
/// the leaf count read back
pub proof fn count_back(s: Seq<u8>, x: u64) requires be64_at(s, 0, x) ensures rd64(s, 0) == x
{
    reveal(rd64);
    assert(((((x >> 56u64) as u8) as u64) << 56u64) | ((((x >> 48u64) as u8) as u64) << 48u64) | ((((x >> 40u64) as u8) as u64) << 40u64) | ((((x >> 32u64) as u8) as u64) << 32u64)
        | ((((x >> 24u64) as u8) as u64) << 24u64) | ((((x >> 16u64) as u8) as u64) << 16u64) | ((((x >> 8u64) as u8) as u64) << 8u64) | ((x as u8) as u64) == x) by(bit_vector);
}
pub proof fn map_differ(f: RamForest, n: int) requires map_ok(f, n) ensures leaves_differ(f, n)
{ assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && #[trigger] dat(f, 0, p) == #[trigger] dat(f, 0, q) implies p == q by { assert(f.m_posmap@[dat(f, 0, p)] == p); assert(f.m_posmap@[dat(f, 0, q)] == q); } }
/// the rows below q are those of f
pub open spec fn got_rows(f: RamForest, g: RamForest, q: int) -> bool { let n = f.m_num_leaves as int;
    g.m_data@.len() == q + 1 && (forall|r: int| 0 <= r < q ==> (#[trigger] g.m_data@[r])@.len() == cnt(n, r)) && (forall|r: int, i: int| 0 <= r < q && #[trigger] ex(n, r, i) ==> dat(g, r, i) == dat(f, r, i)) }
pub proof fn got_all(f: RamForest, g: RamForest, q: int)
    requires forest_ok(f), g.m_num_leaves == f.m_num_leaves, 0 <= q, cnt(f.m_num_leaves as int, q) == 0, got_rows(f, g, q)
    ensures rows_ok(g, g.m_num_leaves as int), hashes_ok(g, g.m_num_leaves as int)
{
    let n = f.m_num_leaves as int; p2_pos(q as nat);
    assert(n < p2(q as nat)) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, p2(q as nat) as int); vstd::arithmetic::div_mod::lemma_mod_bound(n, p2(q as nat) as int); assert(p2(q as nat) as int * (n / p2(q as nat) as int) == 0) by(nonlinear_arith) requires n / p2(q as nat) as int == 0; }
    nr_least(n as nat, q as nat);
    assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies has(g, r, i) by { cnt_zero(n, q, r, i); ex_row(n, r, i); ex_div(n, r, i); assert(g.m_data@[r]@.len() == cnt(n, r)); }
    assert forall|r: int, i: int| r >= 1 && #[trigger] ex(n, r, i) implies dat(g, r, i) == phash(dat(g, r - 1, 2 * i), dat(g, r - 1, 2 * i + 1)) by { cnt_zero(n, q, r, i); ex_down(n, r, i); assert(dat(f, r, i) == phash(dat(f, r - 1, 2 * i), dat(f, r - 1, 2 * i + 1))); assert(dat(g, r, i) == dat(f, r, i)); assert(dat(g, r - 1, 2 * i) == dat(f, r - 1, 2 * i)); assert(dat(g, r - 1, 2 * i + 1) == dat(f, r - 1, 2 * i + 1)); }
}
pub proof fn got_row(f: RamForest, e: RamForest, g: RamForest, q: int)
    requires 0 <= q, f.m_num_leaves >= 0, e.m_data@.len() == q + 1, (forall|r: int| 0 <= r < q ==> (#[trigger] e.m_data@[r])@.len() == cnt(f.m_num_leaves as int, r)), (forall|r: int, i: int| 0 <= r < q && #[trigger] ex(f.m_num_leaves as int, r, i) ==> dat(e, r, i) == dat(f, r, i)),
        e.m_data@[q]@.len() == cnt(f.m_num_leaves as int, q), forall|k: int| 0 <= k < cnt(f.m_num_leaves as int, q) ==> #[trigger] e.m_data@[q]@[k] == dat(f, q, k), g.m_data@.len() == q + 2, forall|r: int| 0 <= r <= q ==> #[trigger] g.m_data@[r] == e.m_data@[r]
    ensures got_rows(f, g, q + 1)
{ let n = f.m_num_leaves as int; assert forall|r: int, i: int| 0 <= r < q + 1 && #[trigger] ex(n, r, i) implies dat(g, r, i) == dat(f, r, i) by { ex_div(n, r, i); assert(g.m_data@[r] == e.m_data@[r]); if r < q { assert(dat(e, r, i) == dat(f, r, i)); } }
  assert forall|r: int| 0 <= r < q + 1 implies (#[trigger] g.m_data@[r])@.len() == cnt(n, r) by { assert(g.m_data@[r] == e.m_data@[r]); } }
pub proof fn rowoff_cnt(n: int, r: int) requires n >= 1, r >= 1 ensures cnt(n, r) < n decreases r { cnt_step(n, r - 1); cnt0(n); if r > 1 { rowoff_cnt(n, r - 1); } }
