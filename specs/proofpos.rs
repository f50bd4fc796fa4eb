// ---------------------------------------------------------------------------
// Proof positions: which nodes are computed and which must be supplied
// ---------------------------------------------------------------------------
pub open spec fn sib(i: int) -> int { if i % 2 == 0 { i + 1 } else { i - 1 } }
pub open spec fn asc(s: Seq<int>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> #[trigger] s[a] < #[trigger] s[b] }
pub open spec fn within(s: Seq<int>, m: int) -> bool { forall|a: int| 0 <= a < s.len() ==> 0 <= #[trigger] s[a] < m }
pub open spec fn ints(s: Seq<u64>) -> Seq<int> { s.map_values(|x: u64| x as int) }
/// an acceptable target list of a forest of n leaves
pub open spec fn targets_ok(n: u64, t: Seq<u64>) -> bool { asc(ints(t)) && within(ints(t), n as int) }
/// parents of the first k nodes, without repetition
pub open spec fn nxt(s: Seq<int>, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else { let q = nxt(s, k - 1); let p = s[k - 1] / 2; if q.len() > 0 && q.last() == p { q } else { q.push(p) } }
}
/// siblings of the first k nodes that are not themselves in the list
pub open spec fn sibs(s: Seq<int>, k: int) -> Seq<int> decreases k {
    if k <= 0 { Seq::empty() } else if s.contains(sib(s[k - 1])) { sibs(s, k - 1) } else { sibs(s, k - 1).push(sib(s[k - 1])) }
}
/// the computed nodes of a row that still have a sibling (everything but the root of that row)
pub open spec fn noroot(n: int, r: int, s: Seq<int>) -> Seq<int> { if s.len() > 0 && bit(n, r) && s.last() == ri(n, r) { s.drop_last() } else { s } }
/// the computed nodes of row r (indices): targets on row 0, then the parents
pub open spec fn prow(n: int, t: Seq<int>, r: int) -> Seq<int> decreases r { if r <= 0 { t } else { let s = noroot(n, r - 1, prow(n, t, r - 1)); nxt(s, s.len() as int) } }
pub open spec fn prow_nr(n: int, t: Seq<int>, r: int) -> Seq<int> { noroot(n, r, prow(n, t, r)) }
pub open spec fn gps(h: int, r: int, s: Seq<int>) -> Seq<u64> { s.map_values(|i: int| gp(h, r, i) as u64) }
/// all computed positions of the rows below r, row by row
pub open spec fn comps(n: int, h: int, t: Seq<int>, r: int) -> Seq<u64> decreases r { if r <= 0 { Seq::empty() } else { comps(n, h, t, r - 1) + gps(h, r - 1, prow(n, t, r - 1)) } }
/// all proof positions of the rows below r, row by row
pub open spec fn proofs(n: int, h: int, t: Seq<int>, r: int) -> Seq<u64> decreases r { if r <= 0 { Seq::empty() } else { proofs(n, h, t, r - 1) + gps(h, r - 1, sibs(prow_nr(n, t, r - 1), prow_nr(n, t, r - 1).len() as int)) } }

pub proof fn nxt_props(s: Seq<int>, k: int, m: int) requires asc(s), within(s, 2 * m), 0 <= k <= s.len()
    ensures asc(nxt(s, k)), within(nxt(s, k), m), nxt(s, k).len() <= k, k > 0 ==> nxt(s, k).len() > 0 && nxt(s, k).last() == s[k - 1] / 2,
        forall|p: int| nxt(s, k).contains(p) <==> (exists|j: int| 0 <= j < k && s[j] / 2 == p),
    decreases k
{
    if k > 0 {
        nxt_props(s, k - 1, m); let q = nxt(s, k - 1); let p = s[k - 1] / 2; let o = nxt(s, k);
        if k > 1 { assert(s[k - 2] < s[k - 1]); }
        if q.len() > 0 && q.last() == p { } else {
            assert(o == q.push(p));
            assert forall|a: int, b: int| 0 <= a < b < o.len() implies #[trigger] o[a] < #[trigger] o[b] by { if b == q.len() { if a < q.len() - 1 { assert(q[a] < q[q.len() - 1]); } } }
        }
        assert forall|x: int| o.contains(x) <==> (exists|j: int| 0 <= j < k && s[j] / 2 == x) by {
            if o.contains(x) { let i = o.index_of(x); if i < q.len() { assert(q[i] == x); assert(q.contains(x)); let j = choose|j: int| 0 <= j < k - 1 && s[j] / 2 == x; assert(s[j] / 2 == x); } else { assert(s[k - 1] / 2 == x); } }
            if exists|j: int| 0 <= j < k && s[j] / 2 == x { let j = choose|j: int| 0 <= j < k && s[j] / 2 == x; if j < k - 1 { assert(q.contains(x)); let i = q.index_of(x); assert(o[i] == x); } else { assert(o.last() == x); assert(o[o.len() - 1] == x); } }
        }
    }
}
/// a node whose sibling is the next one: one parent, nothing to supply
pub proof fn step_pair(s: Seq<int>, k: int) requires asc(s), 0 <= k, k + 1 < s.len(), s[k] / 2 == s[k + 1] / 2, k > 0 ==> s[k - 1] / 2 < s[k] / 2
    ensures nxt(s, k + 2) == nxt(s, k).push(s[k] / 2), sibs(s, k + 2) == sibs(s, k), s[k] % 2 == 0, s[k + 1] == s[k] + 1, k + 2 < s.len() ==> s[k + 1] / 2 < s[k + 2] / 2
{
    assert(s[k] < s[k + 1]); if k + 2 < s.len() { assert(s[k + 1] < s[k + 2]); }
    assert(sib(s[k]) == s[k + 1] && sib(s[k + 1]) == s[k]); assert(s.contains(s[k]) && s.contains(s[k + 1]));
    nxt_last(s, k); 
    assert(nxt(s, k + 1) == nxt(s, k).push(s[k] / 2)); assert(nxt(s, k + 1).last() == s[k] / 2); assert(nxt(s, k + 2) == nxt(s, k + 1)); assert(sibs(s, k + 1) == sibs(s, k)); assert(sibs(s, k + 2) == sibs(s, k + 1));
}
pub proof fn nxt_last(s: Seq<int>, k: int) requires 0 <= k <= s.len() ensures k > 0 ==> nxt(s, k).len() > 0 && nxt(s, k).last() == s[k - 1] / 2 decreases k { if k > 0 { nxt_last(s, k - 1); } else { } }
/// a node without sibling in the list: its parent is computed, its sibling must be supplied
pub proof fn step_one(s: Seq<int>, k: int) requires asc(s), 0 <= k < s.len(), k > 0 ==> s[k - 1] / 2 < s[k] / 2, k + 1 < s.len() ==> s[k] / 2 < s[k + 1] / 2
    ensures nxt(s, k + 1) == nxt(s, k).push(s[k] / 2), sibs(s, k + 1) == sibs(s, k).push(sib(s[k]))
{
    nxt_last(s, k);
    if s.contains(sib(s[k])) { let j = s.index_of(sib(s[k])); if j < k { if j < k - 1 { assert(s[j] < s[k - 1]); } assert(s[k - 1] < s[k]); } else if j > k { if j > k + 1 { assert(s[k + 1] < s[j]); } assert(s[k] < s[k + 1]); } }
}
/// rows stay ascending and inside the forest
pub proof fn prow_props(n: int, t: Seq<int>, r: int) requires 0 <= r, 0 <= n, asc(t), within(t, n)
    ensures asc(prow(n, t, r)), within(prow(n, t, r), n / p2(r as nat) as int), prow(n, t, r).len() <= t.len(),
        asc(prow_nr(n, t, r)), within(prow_nr(n, t, r), 2 * (n / p2((r + 1) as nat) as int)), prow_nr(n, t, r).len() <= t.len(),
        forall|i: int| #[trigger] prow_nr(n, t, r).contains(i) <==> prow(n, t, r).contains(i) && !(bit(n, r) && i == ri(n, r)),
    decreases r
{
    p2_pos(r as nat); div2(n, r); 
    if r > 0 { prow_props(n, t, r - 1); div2(n, r - 1); nxt_props(prow_nr(n, t, r - 1), prow_nr(n, t, r - 1).len() as int, n / p2(r as nat) as int); } else { assert(n / 1 == n); assert(p2(0) == 1); }
    let s = prow(n, t, r); let o = prow_nr(n, t, r); let q = n / p2(r as nat) as int;
    assert forall|a: int| 0 <= a < o.len() implies 0 <= #[trigger] o[a] < ri(n, r) by { assert(o[a] == s[a]); assert(s[a] < q); if bit(n, r) && a < s.len() - 1 { assert(s[a] < s[s.len() - 1]); } }
    assert forall|i: int| #[trigger] o.contains(i) <==> s.contains(i) && !(bit(n, r) && i == ri(n, r)) by {
        if o.contains(i) { let a = o.index_of(i); assert(s[a] == i); }
        if s.contains(i) && !(bit(n, r) && i == ri(n, r)) { let a = s.index_of(i); assert(o[a] == i); }
    }
}
/// The computed nodes of row r are exactly the row-r ancestors of the targets whose tree reaches up to row r
pub proof fn prow_member(n: int, t: Seq<int>, r: int, i: int) requires 0 <= r, 0 <= n, asc(t), within(t, n)
    ensures prow(n, t, r).contains(i) <==> (i >= 0 && (exists|j: int| 0 <= j < t.len() && #[trigger] t[j] / p2(r as nat) as int == i) && (i + 1) * p2(r as nat) <= n)
    decreases r
{
    prow_props(n, t, r); p2_pos(r as nat);
    if r == 0 {
        assert(p2(0) == 1); assert((i + 1) * p2(0) == i + 1) by(nonlinear_arith) requires p2(0) == 1; assert(p2(r as nat) == 1);
        if t.contains(i) { let j = t.index_of(i); assert(t[j] / 1 == i); assert(t[j] / p2(0) as int == i); }
        if exists|j: int| 0 <= j < t.len() && #[trigger] t[j] / p2(0) as int == i { let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] / p2(0) as int == i; assert(t[j] / 1 == t[j]); assert(t.contains(i)); }
    } else {
        let r1 = r - 1; let s = prow_nr(n, t, r1); prow_props(n, t, r1); div2(n, r1); p2_pos(r1 as nat); 
        nxt_props(s, s.len() as int, n / p2(r as nat) as int);
        assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] / p2(r as nat) as int == (t[j] / p2(r1 as nat) as int) / 2 by { anc_div(t[j], r1 as nat, 1); assert(p2(1) == 2) by { p2_vals(); } }
        if prow(n, t, r).contains(i) {
            let a = choose|a: int| 0 <= a < s.len() && s[a] / 2 == i; prow_member(n, t, r1, s[a]); assert(s.contains(s[a]));
            let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] / p2(r1 as nat) as int == s[a]; assert(t[j] / p2(r as nat) as int == i);
            lt_div(n, r, i);
        }
        if i >= 0 && (exists|j: int| 0 <= j < t.len() && #[trigger] t[j] / p2(r as nat) as int == i) && (i + 1) * p2(r as nat) <= n {
            let j = choose|j: int| 0 <= j < t.len() && #[trigger] t[j] / p2(r as nat) as int == i; let c = t[j] / p2(r1 as nat) as int;
            lt_div(n, r, i); 
            assert(c / 2 == i); assert(c < ri(n, r1)); assert(c < n / p2(r1 as nat) as int); assert(c >= 0) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(t[j], p2(r1 as nat) as int); } lt_div(n, r1, c);
            prow_member(n, t, r1, c); assert(s.contains(c)); let a = s.index_of(c); assert(s[a] / 2 == i);
        }
    }
}
/// a node exists iff its index is below the number of complete nodes of the row
pub proof fn lt_div(n: int, r: int, i: int) requires 0 <= n, 0 <= r ensures (i + 1) * p2(r as nat) <= n <==> i < n / p2(r as nat) as int
{
    p2_pos(r as nat); let w = p2(r as nat) as int; let q = n / w;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, w); vstd::arithmetic::div_mod::lemma_mod_bound(n, w); assert(q * w == w * q) by(nonlinear_arith);
    if i < q { assert((i + 1) * w <= q * w) by(nonlinear_arith) requires i + 1 <= q, w >= 1; }
    else { assert((i + 1) * w >= (q + 1) * w) by(nonlinear_arith) requires i >= q, w >= 1; assert((q + 1) * w == q * w + w) by(nonlinear_arith); }
}
/// A row's proof positions: exactly the siblings of computed non-root nodes that are not computed, ascending, no duplicates
pub proof fn sibs_member(s: Seq<int>, k: int, m: int) requires asc(s), within(s, 2 * m), 0 <= k <= s.len()
    ensures forall|x: int| sibs(s, k).contains(x) <==> (exists|j: int| 0 <= j < k && sib(#[trigger] s[j]) == x && !s.contains(x)), asc(sibs(s, k)), within(sibs(s, k), 2 * m),
        k > 0 ==> (forall|a: int| 0 <= a < sibs(s, k).len() ==> #[trigger] sibs(s, k)[a] / 2 <= s[k - 1] / 2),
    decreases k
{
    if k > 0 {
        sibs_member(s, k - 1, m); let q = sibs(s, k - 1); let o = sibs(s, k); let y = sib(s[k - 1]);
        if k > 1 { assert(s[k - 2] < s[k - 1]); }
        assert(s[k - 1] < 2 * m);
        if s.contains(y) { } else {
            assert forall|a: int, b: int| 0 <= a < b < o.len() implies #[trigger] o[a] < #[trigger] o[b] by { if b == q.len() { 
                assert(q[a] / 2 <= s[k - 2] / 2); assert(q.contains(q[a])); let j = choose|j: int| 0 <= j < k - 1 && sib(#[trigger] s[j]) == q[a] && !s.contains(q[a]);
                if q[a] / 2 == y / 2 { assert(s[j] / 2 == s[k - 1] / 2); assert(s[j] < s[k - 1]); assert(y == s[j]); assert(s.contains(y)); }
            } }
        }
        assert forall|x: int| o.contains(x) <==> (exists|j: int| 0 <= j < k && sib(#[trigger] s[j]) == x && !s.contains(x)) by {
            if o.contains(x) { let i = o.index_of(x); if i < q.len() { assert(q[i] == x); assert(q.contains(x)); let j = choose|j: int| 0 <= j < k - 1 && sib(#[trigger] s[j]) == x && !s.contains(x); assert(sib(s[j]) == x); } else { assert(sib(s[k - 1]) == x); } }
            if exists|j: int| 0 <= j < k && sib(#[trigger] s[j]) == x && !s.contains(x) { let j = choose|j: int| 0 <= j < k && sib(#[trigger] s[j]) == x && !s.contains(x); if j < k - 1 { assert(q.contains(x)); let i = q.index_of(x); assert(o[i] == x); } else { assert(o[o.len() - 1] == x); } }
        }
    }
}
pub proof fn idx_gv(n: int, h: int, r: int, i: int) requires 0 <= n <= p2(h as nat), 0 <= r <= h, 0 <= i < n / p2(r as nat) as int ensures gv(h, r, i)
{
    lt_div(n, r, i); p2_add(r as nat, (h - r) as nat); p2_pos(r as nat);
    if i >= p2((h - r) as nat) { assert((i + 1) * p2(r as nat) > p2(r as nat) * p2((h - r) as nat)) by(nonlinear_arith) requires i >= p2((h - r) as nat), p2(r as nat) >= 1; }
}
/// a row with a sibling pair lies below the top row
pub proof fn row_below(n: int, h: int, r: int) requires 0 <= n <= p2(h as nat), 0 <= r <= h, ri(n, r) > 0 ensures r < h
{ if r == h { p2_s(h as nat); p2_pos(h as nat); p2_pos((h + 1) as nat); vstd::arithmetic::div_mod::lemma_basic_div(n, p2((h + 1) as nat) as int); } }
pub proof fn top_row(n: int, h: int) requires 0 <= n <= p2(h as nat), h >= 1 ensures ri(n, h - 1) <= 2
{ lt_div(n, h, 1); p2_pos(h as nat); let w = p2(h as nat) as int; assert((1 + 1) * w > w) by(nonlinear_arith) requires w >= 1; }
pub proof fn gps_push(h: int) ensures forall|r: int, s: Seq<int>, x: int, v: u64| v as int == gp(h, r, x) ==> #[trigger] gps(h, r, s.push(x)) == #[trigger] gps(h, r, s).push(v)
{ assert forall|r: int, s: Seq<int>, x: int, v: u64| v as int == gp(h, r, x) implies #[trigger] gps(h, r, s.push(x)) == #[trigger] gps(h, r, s).push(v) by { assert(gps(h, r, s.push(x)) =~= gps(h, r, s).push(v)); } }

pub open spec fn paired(s: Seq<int>, k: int) -> bool { k + 1 < s.len() && s[k + 1] / 2 == s[k] / 2 }
pub open spec fn starts(s: Seq<int>, k: int) -> bool { 0 <= k && (0 < k < s.len() ==> s[k - 1] / 2 < s[k] / 2) }
pub proof fn step(s: Seq<int>, k: int) requires asc(s), 0 <= k
    ensures k < s.len() && starts(s, k) && paired(s, k) ==> nxt(s, k + 2) == nxt(s, k).push(s[k] / 2) && sibs(s, k + 2) == sibs(s, k) && starts(s, k + 2) && s[k + 1] == s[k] + 1 && s[k] % 2 == 0,
        k < s.len() && starts(s, k) && !paired(s, k) ==> nxt(s, k + 1) == nxt(s, k).push(s[k] / 2) && sibs(s, k + 1) == sibs(s, k).push(sib(s[k])) && starts(s, k + 1)
{ if k < s.len() && starts(s, k) { if k + 1 < s.len() { assert(s[k] < s[k + 1]); } if paired(s, k) { step_pair(s, k); } else { step_one(s, k); } } }
pub proof fn app_push() ensures forall|a: Seq<u64>, b: Seq<u64>, v: u64| #[trigger] (a + b).push(v) == a + b.push(v)
{ assert forall|a: Seq<u64>, b: Seq<u64>, v: u64| #[trigger] (a + b).push(v) == a + b.push(v) by { assert((a + b).push(v) =~= a + b.push(v)); } }
/// sorting a list without duplicates makes it strictly ascending
pub proof fn sorted_uniq(s: Seq<u64>, t: Seq<u64>) requires sort_of(s, t) ensures asc(ints(s)) <==> t.no_duplicates(), forall|x: u64| s.contains(x) <==> t.contains(x)
{
    s.to_multiset_ensures(); t.to_multiset_ensures();
    assert forall|x: u64| s.contains(x) <==> t.contains(x) by { assert(s.to_multiset().count(x) == t.to_multiset().count(x)); }
    if t.no_duplicates() {
        t.lemma_multiset_has_no_duplicates();
        assert forall|x: u64| s.to_multiset().contains(x) implies s.to_multiset().count(x) == 1 by { assert(t.to_multiset().contains(x)); }
        s.lemma_multiset_has_no_duplicates_conv();
        assert forall|a: int, b: int| 0 <= a < b < ints(s).len() implies #[trigger] ints(s)[a] < #[trigger] ints(s)[b] by { assert(s[a] <= s[b]); assert(s[a] != s[b]); }
    }
    if asc(ints(s)) {
        assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by { if a < b { assert(ints(s)[a] < ints(s)[b]); } else { assert(ints(s)[b] < ints(s)[a]); } }
        s.lemma_multiset_has_no_duplicates();
        assert forall|x: u64| t.to_multiset().contains(x) implies t.to_multiset().count(x) == 1 by { assert(s.to_multiset().contains(x)); }
        t.lemma_multiset_has_no_duplicates_conv();
    }
}
pub proof fn asc_len(s: Seq<int>, m: int) requires asc(s), within(s, m), m >= 0 ensures s.len() <= m decreases m
{
    if s.len() > 0 { let l = s.len() - 1; let q = s.drop_last(); assert(0 <= s[l] < m); assert forall|a: int| 0 <= a < q.len() implies 0 <= #[trigger] q[a] < m - 1 by { assert(s[a] < s[l]); } asc_len(q, m - 1); }
}
