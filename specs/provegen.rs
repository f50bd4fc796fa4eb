// ---------------------------------------------------------------------------
// Proofs: which nodes they name, independent of how the forest is stored
// ---------------------------------------------------------------------------
pub open spec fn nodup(hs: Seq<H>) -> bool { forall|a: int, b: int| 0 <= a < b < hs.len() ==> #[trigger] hs[a] != #[trigger] hs[b] }
pub proof fn sibs_len(s: Seq<int>, k: int) requires asc(s), 0 <= k <= s.len() ensures sibs(s, k).len() <= nxt(s, k).len() decreases k
{
    if k > 0 {
        sibs_len(s, k - 1); nxt_last(s, k - 1); let p = s[k - 1] / 2;
        if k > 1 { assert(s[k - 2] < s[k - 1]); if s[k - 2] / 2 == p { assert(sib(s[k - 1]) == s[k - 2]); assert(s.contains(s[k - 2])); } }
    }
}
pub proof fn proofs_len(n: int, h: int, t: Seq<int>, R: int) requires 0 <= n, 0 <= R, asc(t), within(t, n) ensures proofs(n, h, t, R).len() + n / p2(R as nat) as int <= n decreases R
{
    if R > 0 {
        let r = R - 1; proofs_len(n, h, t, r); let s = prow_nr(n, t, r); prow_props(n, t, r); sibs_len(s, s.len() as int); let m = n / p2(R as nat) as int; p2_pos(R as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(R as nat) as int);
        nxt_props(s, s.len() as int, m); asc_len(nxt(s, s.len() as int), m); div2(n, r);
    } else { assert(p2(0) == 1); assert(n / 1 == n); }
}
/// every proof position names an existing node
pub proof fn proof_at(n: u64, t: Seq<int>, R: int, k: int) requires okn(n), 0 <= R <= hh_of(n) + 1, asc(t), within(t, n as int), 0 <= k < proofs(n as int, hh_of(n), t, R).len()
    ensures exists|r: int, i: int| #[trigger] at(n, proofs(n as int, hh_of(n), t, R)[k], r, i) && ex(n as int, r, i)
    decreases R
{
    let h = hh_of(n); let r = R - 1; let a = proofs(n as int, h, t, r); nr_62(n); nr_spec(n as nat);
    if k < a.len() { proof_at(n, t, r, k); let (r2, i2) = choose|r2: int, i2: int| #[trigger] at(n, a[k], r2, i2) && ex(n as int, r2, i2); assert(at(n, proofs(n as int, h, t, R)[k], r2, i2)); }
    else {
        let s = prow_nr(n as int, t, r); prow_props(n as int, t, r); let q = sibs(s, s.len() as int); p2_pos((r + 1) as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n as int, p2((r + 1) as nat) as int);
        sibs_member(s, s.len() as int, n as int / p2((r + 1) as nat) as int); div2(n as int, r);
        let i = q[k - a.len()]; lt_div(n as int, r, i); idx_gv(n as int, h, r, i); gp_range(h, r, i); p2_vals(); p2_mono((h + 1) as nat, 63);
        assert(at(n, proofs(n as int, h, t, R)[k], r, i));
    }
}
pub proof fn sorted_unique(a: Seq<u64>, b: Seq<u64>) requires sorted_u64(a), sorted_u64(b), a.to_multiset() == b.to_multiset() ensures a == b {
    let leq = |x: u64, y: u64| x <= y;
    assert(vstd::relations::sorted_by(a, leq)); assert(vstd::relations::sorted_by(b, leq)); assert(vstd::relations::total_ordering(leq));
    vstd::seq_lib::lemma_sorted_unique(a, b, leq);
}
/// every proof position names an existing node below a root, the sibling of an ancestor of a target
pub proof fn proof_src(n: u64, t: Seq<int>, R: int, k: int) -> (o: (int, int, int)) requires okn(n), 0 <= R <= hh_of(n) + 1, asc(t), within(t, n as int), 0 <= k < proofs(n as int, hh_of(n), t, R).len()
    ensures at(n, proofs(n as int, hh_of(n), t, R)[k], o.0, o.1), ex(n as int, o.0, o.1), 0 <= o.2 < t.len(), t[o.2] / p2(o.0 as nat) as int == sib(o.1), !(bit(n as int, o.0) && o.1 == ri(n as int, o.0))
    decreases R
{
    let h = hh_of(n); let r = R - 1; let a = proofs(n as int, h, t, r); nr_62(n); nr_spec(n as nat);
    if k < a.len() { proof_src(n, t, r, k) }
    else {
        let s = prow_nr(n as int, t, r); prow_props(n as int, t, r); let q = sibs(s, s.len() as int); p2_pos((r + 1) as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n as int, p2((r + 1) as nat) as int);
        sibs_member(s, s.len() as int, n as int / p2((r + 1) as nat) as int); div2(n as int, r);
        let i = q[k - a.len()]; lt_div(n as int, r, i); idx_gv(n as int, h, r, i); gp_range(h, r, i); p2_vals(); p2_mono((h + 1) as nat, 63);
        assert(q.contains(i)); let c = choose|c: int| 0 <= c < s.len() && sib(#[trigger] s[c]) == i && !s.contains(i); assert(s.contains(s[c])); assert(prow(n as int, t, r).contains(s[c]));
        prow_member(n as int, t, r, s[c]); let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] / p2(r as nat) as int == s[c];
        (r, i, j)
    }
}
/// the positions that the map m gives the hashes, in the order asked
pub open spec fn poss(m: Map<H, u64>, hs: Seq<H>) -> Seq<u64> { hs.map_values(|x: H| m[x]) }
pub open spec fn all_known(m: Map<H, u64>, hs: Seq<H>) -> bool { forall|k: int| 0 <= k < hs.len() ==> m.contains_key(#[trigger] hs[k]) }
/// the map only names positions of leaves that carry the hash
pub open spec fn map_sound(m: Map<H, u64>, lv: Seq<H>) -> bool { forall|h: H| #[trigger] m.contains_key(h) ==> m[h] < lv.len() && lv[m[h] as int] == h }
pub proof fn poss_sorted(m: Map<H, u64>, lv: Seq<H>, n: u64, hs: Seq<H>, s: Seq<u64>) requires lv.len() == n, map_sound(m, lv), all_known(m, hs), sort_of(s, poss(m, hs))
    ensures (targets_ok(n, s) && s.len() <= n) <==> nodup(hs)
{
    let t = poss(m, hs); sorted_uniq(s, t);
    assert forall|a: int| 0 <= a < ints(s).len() implies 0 <= #[trigger] ints(s)[a] < n by { assert(s.contains(s[a])); assert(t.contains(s[a])); let j = t.index_of(s[a]); assert(t[j] == m[hs[j]]); assert(m.contains_key(hs[j])); }
    if nodup(hs) {
        assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { assert(m.contains_key(hs[a])); assert(m.contains_key(hs[b])); assert(lv[t[a] as int] == hs[a]); assert(lv[t[b] as int] == hs[b]); if a < b { assert(hs[a] != hs[b]); } else { assert(hs[b] != hs[a]); } }
        asc_len(ints(s), n as int);
    }
    if asc(ints(s)) { assert forall|a: int, b: int| 0 <= a < b < hs.len() implies #[trigger] hs[a] != #[trigger] hs[b] by { assert(t[a] != t[b]); } }
}
pub proof fn poss_sorted_all(m: Map<H, u64>, lv: Seq<H>, n: u64, hs: Seq<H>) requires okn(n), lv.len() == n, map_sound(m, lv), all_known(m, hs)
    ensures forall|s: Seq<u64>| #[trigger] sorted_u64(s) && s.to_multiset() == poss(m, hs).to_multiset() && s.len() == hs.len() ==> ((targets_ok(n, s) && s.len() <= n) <==> nodup(hs)) && sort_of(s, poss(m, hs))
        && (targets_ok(n, s) ==> proofs(n as int, hh_of(n), ints(s), hh_of(n) + 1).len() <= n)
{
    let R = hh_of(n) + 1;
    assert forall|s: Seq<u64>| #[trigger] sorted_u64(s) && s.to_multiset() == poss(m, hs).to_multiset() && s.len() == hs.len() implies ((targets_ok(n, s) && s.len() <= n) <==> nodup(hs)) && sort_of(s, poss(m, hs))
        && (targets_ok(n, s) ==> proofs(n as int, hh_of(n), ints(s), R).len() <= n) by {
        poss_sorted(m, lv, n, hs, s); if targets_ok(n, s) { proofs_len(n as int, hh_of(n), ints(s), R); p2_pos(R as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n as int, p2(R as nat) as int); }
    }
}
