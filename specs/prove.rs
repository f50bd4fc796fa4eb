// ---------------------------------------------------------------------------
// Proofs of a forest (C13)
// ---------------------------------------------------------------------------
pub open spec fn all_in(f: RamForest, hs: Seq<H>) -> bool { forall|k: int| 0 <= k < hs.len() ==> f.m_posmap@.contains_key(#[trigger] hs[k]) }
/// the positions of the hashes, in the order asked
pub open spec fn positions(f: RamForest, hs: Seq<H>) -> Seq<u64> { hs.map_values(|x: H| f.m_posmap@[x]) }
/// the proof that belongs to these hashes
pub open spec fn proof_right(f: RamForest, p: BatchProof, hs: Seq<H>) -> bool {
    let n = f.m_num_leaves as int; let pp = proofs(n, hh_of(f.m_num_leaves), ints(p.m_sorted_targets@), hh_of(f.m_num_leaves) + 1);
    p.m_targets@ == positions(f, hs) && sort_of(p.m_sorted_targets@, p.m_targets@) && targets_ok(f.m_num_leaves, p.m_sorted_targets@)
    && p.m_proof@.len() == pp.len() && (forall|k: int, r: int, i: int| 0 <= k < pp.len() && #[trigger] at(f.m_num_leaves, pp[k], r, i) ==> p.m_proof@[k] == dat(f, r, i))
}
/// in a correct forest: the sorted positions of contained hashes are acceptable targets exactly when the hashes are distinct
pub proof fn sorted_pos(f: RamForest, hs: Seq<H>, s: Seq<u64>) requires forest_ok(f), all_in(f, hs), sort_of(s, positions(f, hs))
    ensures (targets_ok(f.m_num_leaves, s) && s.len() <= f.m_num_leaves) <==> nodup(hs), s.len() <= f.m_num_leaves || !nodup(hs)
{
    let t = positions(f, hs); let n = f.m_num_leaves as int; sorted_uniq(s, t);
    assert forall|a: int| 0 <= a < ints(s).len() implies 0 <= #[trigger] ints(s)[a] < n by { assert(s.contains(s[a])); assert(t.contains(s[a])); let j = t.index_of(s[a]); assert(t[j] == f.m_posmap@[hs[j]]); assert(f.m_posmap@.contains_key(hs[j])); }
    if nodup(hs) {
        assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { assert(f.m_posmap@.contains_key(hs[a])); assert(f.m_posmap@.contains_key(hs[b])); assert(dat(f, 0, t[a] as int) == hs[a]); assert(dat(f, 0, t[b] as int) == hs[b]); if a < b { assert(hs[a] != hs[b]); } else { assert(hs[b] != hs[a]); } }
        asc_len(ints(s), n);
    }
    if asc(ints(s)) {
        assert forall|a: int, b: int| 0 <= a < b < hs.len() implies #[trigger] hs[a] != #[trigger] hs[b] by { assert(t[a] != t[b]); }
    }
}
/// recomputing from the target hashes and the proof hashes gives the node hashes of the forest, in particular its roots
pub proof fn proof_recomputes(f: RamForest, t: Seq<int>, V: spec_fn(int, int) -> H, r: int, i: int)
    requires hashes_ok(f, f.m_num_leaves as int), asc(t), within(t, f.m_num_leaves as int), 0 <= r,
        forall|j: int| 0 <= j < t.len() ==> V(0, #[trigger] t[j]) == dat(f, 0, t[j]),
        forall|q: int, x: int| 0 <= q && #[trigger] sibs(prow_nr(f.m_num_leaves as int, t, q), prow_nr(f.m_num_leaves as int, t, q).len() as int).contains(x) ==> V(q, x) == dat(f, q, x),
        forall|q: int, x: int| 1 <= q && #[trigger] prow(f.m_num_leaves as int, t, q).contains(x) ==> V(q, x) == phash(V(q - 1, 2 * x), V(q - 1, 2 * x + 1)),
        prow(f.m_num_leaves as int, t, r).contains(i),
    ensures V(r, i) == dat(f, r, i)
    decreases r
{
    let n = f.m_num_leaves as int;
    if r == 0 { let j = t.index_of(i); assert(t[j] == i); }
    else {
        let s = prow_nr(n, t, r - 1); prow_props(n, t, r - 1); prow_props(n, t, r); let m = n / p2(r as nat) as int; p2_pos(r as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(r as nat) as int);
        nxt_props(s, s.len() as int, m); let j = choose|j: int| 0 <= j < s.len() && s[j] / 2 == i; sibs_member(s, s.len() as int, m);
        let c = s[j]; assert(s.contains(c)); let q = sibs(s, s.len() as int);
        if s.contains(sib(c)) { proof_recomputes(f, t, V, r - 1, sib(c)); } else { assert(q.contains(sib(c))) by { assert(sib(s[j]) == sib(c)); } assert(V(r - 1, sib(c)) == dat(f, r - 1, sib(c))); }
        proof_recomputes(f, t, V, r - 1, c);
        let a = prow(n, t, r).index_of(i); assert(prow(n, t, r)[a] < m); lt_div(n, r, i); assert(ex(n, r, i));
        assert(V(r, i) == phash(V(r - 1, 2 * i), V(r - 1, 2 * i + 1)));
    }
}
/// the reported root of the tree on row R is the Merkle root of its leaves (C07)
pub proof fn roots_merkle(f: RamForest, R: int) requires forest_ok(f), R >= 0, bit(f.m_num_leaves as int, R) ensures root_hash(f, trees_above(f.m_num_leaves as int, R) as int) == mk(f.m_data@[0]@, R, ri(f.m_num_leaves as int, R))
{ root_ex(f.m_num_leaves as int, R); mk_dat(f, f.m_num_leaves as int, R, ri(f.m_num_leaves as int, R)); }
pub proof fn sorted_pos_all(f: RamForest, hs: Seq<H>) requires forest_ok(f), all_in(f, hs)
    ensures forall|s: Seq<u64>| #[trigger] sorted_u64(s) && s.to_multiset() == positions(f, hs).to_multiset() && s.len() == hs.len() ==> ((targets_ok(f.m_num_leaves, s) && s.len() <= f.m_num_leaves) <==> nodup(hs)) && sort_of(s, positions(f, hs))
        && (targets_ok(f.m_num_leaves, s) ==> proofs(f.m_num_leaves as int, hh_of(f.m_num_leaves), ints(s), hh_of(f.m_num_leaves) + 1).len() <= f.m_num_leaves)
{
    let n = f.m_num_leaves as int; let R = hh_of(f.m_num_leaves) + 1;
    assert forall|s: Seq<u64>| #[trigger] sorted_u64(s) && s.to_multiset() == positions(f, hs).to_multiset() && s.len() == hs.len() implies ((targets_ok(f.m_num_leaves, s) && s.len() <= f.m_num_leaves) <==> nodup(hs)) && sort_of(s, positions(f, hs))
        && (targets_ok(f.m_num_leaves, s) ==> proofs(n, hh_of(f.m_num_leaves), ints(s), R).len() <= n) by {
        sorted_pos(f, hs, s); if targets_ok(f.m_num_leaves, s) { proofs_len(n, hh_of(f.m_num_leaves), ints(s), R); p2_pos(R as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(R as nat) as int); }
    }
}
