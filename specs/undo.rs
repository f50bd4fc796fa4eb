// ---------------------------------------------------------------------------
// Undoing a modification (C09)
// ---------------------------------------------------------------------------
pub open spec fn sl(s: Swap) -> int { if s.m_is_range_swap { s.m_range as int } else { 1 } }
/// the exchange of two leaf ranges of a forest of n leaves
pub open spec fn usw(n: int, s: Swap) -> bool { s.m_from + sl(s) <= n && s.m_to + sl(s) <= n && apart(s.m_from as int, s.m_to as int, sl(s)) && sl(s) >= 1 }
pub open spec fn usws(n: int, u: Seq<Swap>) -> bool { forall|i: int| 0 <= i < u.len() ==> usw(n, #[trigger] u[i]) }
pub proof fn usw_is(n: int, r: int, a: int, b: int, s: Swap) requires n >= 0, r >= 0, leafswap(r, a, b, s), ex(n, r, a), ex(n, r, b) ensures usw(n, s)
{
    p2_pos(r as nat); ex_below(n, r, a, 0); ex_below(n, r, b, 0); assert((r - 0) as nat == r as nat); let w = p2(r as nat) as int; ranges_apart(r, a, b); ex0(n, a * w + w - 1); ex0(n, b * w + w - 1);
    if r == 0 { assert(p2(0) == 1); assert(a * 1 == a && b * 1 == b); }
}
pub proof fn usw_part(n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, u: Seq<Swap>, q: int)
    requires n >= 0, 0 <= q <= sw.len(), ulist(h, sw, u, sw.len() as int), forall|q: int, m: int| 0 <= q < sw.len() && 0 <= m < sw[q]@.len() ==> swap_ok(n, n2, h, sw, q, #[trigger] sw[q]@[m])
    ensures forall|i: int| 0 <= i < ulen(sw, q) ==> usw(n, #[trigger] u[i])
    decreases q
{
    if q > 0 {
        let p = q - 1; usw_part(n, n2, h, sw, u, p); let base = ulen(sw, p); ulen_pos(sw, p); assert(urow(h, sw[p]@, p, u, base, sw[p]@.len() as int));
        assert forall|i: int| 0 <= i < ulen(sw, q) implies usw(n, #[trigger] u[i]) by {
            if i >= base { let m = i - base; let s = sw[p]@[m]; assert(swap_ok(n, n2, h, sw, p, s)); let a = sA(h, p, s); let b = sB(h, p, s); assert(leafswap(p, a, b, u[base + m])); ex_div(n, p, a); ex_div(n, p, b); usw_is(n, p, a, b, u[i]); }
        }
    }
}
/// an exchange of ranges stays among the leaves and undoes itself
pub proof fn lsw_fact(n: int, s: Swap, x: int) requires usw(n, s), 0 <= x < n ensures lsw(s, x) == xr(s.m_from as int, s.m_to as int, sl(s), x), 0 <= lsw(s, x) < n, lsw(s, lsw(s, x)) == x {}
pub proof fn undo_range(n: int, u: Seq<Swap>, k: int, x: int) requires usws(n, u), 0 <= k <= u.len(), 0 <= x < n ensures 0 <= undo_all(u, k, x) < n decreases k { if k > 0 { lsw_fact(n, u[k - 1], x); undo_range(n, u, k - 1, lsw(u[k - 1], x)); } }
pub proof fn undo_inj(n: int, u: Seq<Swap>, k: int, x: int, y: int) requires usws(n, u), 0 <= k <= u.len(), 0 <= x < n, 0 <= y < n, undo_all(u, k, x) == undo_all(u, k, y) ensures x == y decreases k
{ if k > 0 { lsw_fact(n, u[k - 1], x); lsw_fact(n, u[k - 1], y); undo_inj(n, u, k - 1, lsw(u[k - 1], x), lsw(u[k - 1], y)); } }
/// with the first k swaps still to come, every leaf is where they take it back to its place in f
pub open spec fn placed(f: RamForest, e: RamForest, n: int, u: Seq<Swap>, k: int) -> bool { forall|p: int| 0 <= p < n ==> dat(e, 0, p) == dat(f, 0, #[trigger] undo_all(u, k, p)) }
/// no targets, no swaps
pub proof fn det_none(n: int, n2: int, h: int, fin: Seq<Vec<Swap>>) requires det(n, n2, h, Seq::empty(), fin) ensures fin.len() == 0
{
    reveal(det); let t = Seq::<int>::empty(); let (ts, sw, cs) = choose|ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>| #[trigger] det_by(n, n2, h, t, ts, sw, cs, fin);
    if sw.len() > 0 { assert(row_det(n, n2, h, 0, ts[0], ts[1], sw[0]@, cs[0])); }
}
/// after the removal the leaves are where the undo swaps start from
pub proof fn undo_from(f: RamForest, m: RamForest, g: RamForest, l: Seq<(H, bool)>, t: Seq<u64>, sw: Seq<Vec<Swap>>, u: Seq<Swap>)
    requires forest_ok(f), targets_ok(f.m_num_leaves, t), t.len() <= f.m_num_leaves, mod_mid(f, m, g, l, t), undo_ok(f.m_num_leaves as int, f.m_num_leaves - t.len(), hh_of(f.m_num_leaves), ints(t), sw, u)
    ensures placed(f, m, f.m_num_leaves as int, u, u.len() as int), usws(f.m_num_leaves as int, u)
{
    let n = f.m_num_leaves as int; let n2 = n - t.len(); let h = hh_of(f.m_num_leaves); usw_part(n, n2, h, sw, u, sw.len() as int);
    assert(moved_by(f, m, n, h, sw)) by {
        if t.len() == 0 { assert(ints(t) =~= Seq::<int>::empty()); det_none(n, n2, h, sw); assert forall|j: int| 0 <= j < n implies dat(m, 0, #[trigger] dest(h, sw, 0, j)) == dat(f, 0, j) by { } }
        else { assert(removed(f, m, t)); let sw0 = choose|sw0: Seq<Vec<Swap>>| #[trigger] removed_by(f, m, t, sw0); det_same(n, n2, h, ints(t), sw0, sw);
            assert forall|j: int| 0 <= j < n implies dat(m, 0, #[trigger] dest(h, sw, 0, j)) == dat(f, 0, j) by { dest_same(h, sw0, sw, 0, j); assert(dat(m, 0, dest(h, sw0, 0, j)) == dat(f, 0, j)); } }
    }
    let k = u.len() as int;
    assert forall|p: int| 0 <= p < n implies dat(m, 0, p) == dat(f, 0, #[trigger] undo_all(u, k, p)) by { undo_range(n, u, k, p); let j = undo_all(u, k, p); let d = dest(h, sw, 0, j); assert(0 <= d < n && undo_all(u, k, d) == j); undo_inj(n, u, k, d, p); assert(dat(m, 0, d) == dat(f, 0, j)); }
}
pub proof fn placed_end(f: RamForest, e: RamForest, n: int, u: Seq<Swap>) requires placed(f, e, n, u, 0) ensures forall|p: int| 0 <= p < n ==> dat(e, 0, p) == #[trigger] dat(f, 0, p) { assert forall|p: int| 0 <= p < n implies dat(e, 0, p) == #[trigger] dat(f, 0, p) by { assert(undo_all(u, 0, p) == p); } }
/// the leaves are distinct
pub open spec fn leaves_differ(e: RamForest, n: int) -> bool { forall|p: int, q: int| 0 <= p < n && 0 <= q < n && #[trigger] dat(e, 0, p) == #[trigger] dat(e, 0, q) ==> p == q }
pub proof fn placed_differ(f: RamForest, e: RamForest, n: int, u: Seq<Swap>, k: int) requires map_ok(f, n), placed(f, e, n, u, k), usws(n, u), 0 <= k <= u.len() ensures leaves_differ(e, n)
{
    assert forall|p: int, q: int| 0 <= p < n && 0 <= q < n && #[trigger] dat(e, 0, p) == #[trigger] dat(e, 0, q) implies p == q by {
        undo_range(n, u, k, p); undo_range(n, u, k, q); let x = undo_all(u, k, p); let y = undo_all(u, k, q); assert(f.m_posmap@[dat(f, 0, x)] == x && f.m_posmap@[dat(f, 0, y)] == y); undo_inj(n, u, k, p, q); }
}
/// one more exchange
pub proof fn placed_step(f: RamForest, e: RamForest, g: RamForest, n: int, u: Seq<Swap>, k: int)
    requires usws(n, u), 0 < k <= u.len(), placed(f, e, n, u, k), e.m_data@.len() > 0, e.m_data@[0]@.len() == n, row_swapped(e, g, 0, u[k - 1].m_from as int, u[k - 1].m_to as int, sl(u[k - 1]))
    ensures placed(f, g, n, u, k - 1)
{
    let s = u[k - 1];
    assert forall|p: int| 0 <= p < n implies dat(g, 0, p) == dat(f, 0, #[trigger] undo_all(u, k - 1, p)) by { lsw_fact(n, s, p); let q = lsw(s, p); assert(g.m_data@[0]@[p] == e.m_data@[0]@[q]); assert(dat(e, 0, q) == dat(f, 0, undo_all(u, k, q))); assert(undo_all(u, k, q) == undo_all(u, k - 1, lsw(s, q))); }
}
pub proof fn map_data(e: RamForest, g: RamForest, c: int) requires map_ok(e, c), g.m_posmap == e.m_posmap, forall|p: int| 0 <= p < c ==> #[trigger] dat(g, 0, p) == dat(e, 0, p) ensures map_ok(g, c)
{ assert forall|i: int| 0 <= i < c implies g.m_posmap@.contains_key(#[trigger] dat(g, 0, i)) && g.m_posmap@[dat(g, 0, i)] == i by { assert(dat(g, 0, i) == dat(e, 0, i)); }
  assert forall|k: H| #[trigger] g.m_posmap@.contains_key(k) implies g.m_posmap@[k] < c && dat(g, 0, g.m_posmap@[k] as int) == k by { let p = g.m_posmap@[k] as int; assert(dat(e, 0, p) == k); assert(dat(g, 0, p) == dat(e, 0, p)); } }
/// a new leaf behind the others
pub proof fn map_put(e: RamForest, g: RamForest, c: int, x: H) requires map_ok(e, c), 0 <= c <= u64::MAX, g.m_posmap@ == e.m_posmap@.insert(x, c as u64), !e.m_posmap@.contains_key(x), dat(g, 0, c) == x, forall|p: int| 0 <= p < c ==> #[trigger] dat(g, 0, p) == dat(e, 0, p) ensures map_ok(g, c + 1)
{
    let m = g.m_posmap@; assert(m.dom() =~= e.m_posmap@.dom().insert(x));
    assert forall|i: int| 0 <= i < c + 1 implies m.contains_key(#[trigger] dat(g, 0, i)) && m[dat(g, 0, i)] == i by { if i < c { assert(dat(g, 0, i) == dat(e, 0, i)); assert(e.m_posmap@.contains_key(dat(e, 0, i))); } }
    assert forall|k: H| #[trigger] m.contains_key(k) implies m[k] < c + 1 && dat(g, 0, m[k] as int) == k by { if k != x { assert(e.m_posmap@.contains_key(k)); let p = m[k] as int; assert(dat(g, 0, p) == dat(e, 0, p)); } }
}
pub proof fn map_new_leaf(e: RamForest, m: RamForest, c: int, n: int) requires map_ok(e, c), 0 <= c < n, forall|p: int| 0 <= p < c ==> #[trigger] dat(e, 0, p) == dat(m, 0, p), leaves_differ(m, n) ensures !e.m_posmap@.contains_key(dat(m, 0, c))
{ let x = dat(m, 0, c); if e.m_posmap@.contains_key(x) { let p = e.m_posmap@[x] as int; assert(dat(e, 0, p) == x); assert(dat(m, 0, p) == dat(m, 0, c)); } }
/// exchanging two ranges in the bottom row and in the position map
pub proof fn map_range(f: RamForest, f1: RamForest, g: RamForest, n: int, a: int, b: int, l: int)
    requires n == f.m_num_leaves, map_ok(f, n), 0 <= a, 0 <= b, a + l <= n, b + l <= n, apart(a, b, l), f.m_data@.len() > 0, f.m_data@[0]@.len() == n, map_moved(f, f1, a, b, l), same_but_map(f, f1), row_swapped(f1, g, 0, a, b, l), g.m_posmap == f1.m_posmap
    ensures map_ok(g, n)
{
    assert forall|i: int| 0 <= i < n implies dat(g, 0, i) == dat(f, 0, #[trigger] xr(a, b, l, i)) && 0 <= xr(a, b, l, i) < n && g.m_posmap@[dat(f, 0, i)] == xr(a, b, l, i) && xr(a, b, l, xr(a, b, l, i)) == i by { assert(g.m_data@[0]@[i] == f1.m_data@[0]@[xr(a, b, l, i)]); }
    assert forall|i: int| 0 <= i < n implies g.m_posmap@.contains_key(#[trigger] dat(g, 0, i)) && g.m_posmap@[dat(g, 0, i)] == i by { let z = xr(a, b, l, i); assert(xr(a, b, l, z) == i); assert(f.m_posmap@.contains_key(dat(f, 0, z))); assert(f.m_posmap@.dom().contains(dat(f, 0, z))); }
    assert forall|k: H| #[trigger] g.m_posmap@.contains_key(k) implies g.m_posmap@[k] < n && dat(g, 0, g.m_posmap@[k] as int) == k by { assert(f.m_posmap@.dom().contains(k)); assert(f.m_posmap@.contains_key(k)); let p = f.m_posmap@[k] as int; assert(dat(f, 0, p) == k); let z = xr(a, b, l, p); assert(g.m_posmap@[k] == z); assert(xr(a, b, l, z) == p); }
}
/// a node with a changed leaf below it
pub open spec fn touched(d: Set<u64>, q: int, y: int) -> bool { exists|p: u64| #[trigger] d.contains(p) && p as int / p2(q as nat) as int == y }
/// everything behind leaf n2 is touched, and nothing beyond leaf n; the other leaves are those of g
pub open spec fn touch_ok(d: Set<u64>, n: int, n2: int) -> bool { (forall|p: u64| n2 <= p < n ==> #[trigger] d.contains(p)) && (forall|p: u64| #[trigger] d.contains(p) ==> p < n) }
pub open spec fn kept_leaves(e: RamForest, g: RamForest, d: Set<u64>, n: int) -> bool { forall|p: u64| p < n && !#[trigger] d.contains(p) ==> dat(e, 0, p as int) == dat(g, 0, p as int) }
pub proof fn untouched_fact(d: Set<u64>, n: int, n2: int, q: int, y: int) requires 0 <= n2 <= n < 0x8000_0000, touch_ok(d, n, n2), ex(n, q, y), !touched(d, q, y) ensures ex(n2, q, y), q >= 1 ==> !touched(d, q - 1, 2 * y) && !touched(d, q - 1, 2 * y + 1)
{
    let w = p2(q as nat) as int; p2_pos(q as nat); let x = (y + 1) * w - 1;
    assert(x / w == y) by { assert(x == y * w + (w - 1)) by(nonlinear_arith) requires x == (y + 1) * w - 1; parts(y, w, w - 1); }
    assert(x >= 0) by(nonlinear_arith) requires x == (y + 1) * w - 1, y >= 0, w >= 1;
    if x >= n2 { let p = x as u64; assert(d.contains(p)); assert(touched(d, q, y)); }
    if q >= 1 {
        assert forall|p: u64| #[trigger] d.contains(p) implies p as int / p2((q - 1) as nat) as int != 2 * y && p as int / p2((q - 1) as nat) as int != 2 * y + 1 by { split_row(p as int, q - 1); p2_s((q - 1) as nat); if p as int / p2((q - 1) as nat) as int / 2 == y { assert(p as int / p2(q as nat) as int == y); } }
    }
}
pub proof fn touched_up(d: Set<u64>, q: int, y: int) -> (z: int) requires q >= 1, y >= 0, touched(d, q, y) ensures touched(d, q - 1, z), z / 2 == y, z == 2 * y || z == 2 * y + 1
{ let p = choose|p: u64| #[trigger] d.contains(p) && p as int / p2(q as nat) as int == y; split_row(p as int, q - 1); p2_s((q - 1) as nat); let z = p as int / p2((q - 1) as nat) as int; assert(touched(d, q - 1, z)); z }
/// before row r is rehashed: the rows below are right, the rows from r on are those of g
pub open spec fn low_ok(e: RamForest, n: int, r: int) -> bool { (forall|q: int, y: int| 0 <= q < r && #[trigger] ex(n, q, y) ==> has(e, q, y)) && (forall|q: int, y: int| 1 <= q < r && #[trigger] ex(n, q, y) ==> good(e, q, y)) }
pub open spec fn clean(e: RamForest, g: RamForest, d: Set<u64>, n: int, r: int) -> bool {
    (forall|y: int| #[trigger] ex(n, r - 1, y) && !touched(d, r - 1, y) ==> dat(e, r - 1, y) == dat(g, r - 1, y)) && e.m_data@.len() >= g.m_data@.len() && (forall|q: int| r <= q < g.m_data@.len() ==> #[trigger] e.m_data@[q] == g.m_data@[q])
}
pub open spec fn listed(d: Set<u64>, n: int, r: int, dl: Seq<int>) -> bool { forall|y: int| #[trigger] ex(n, r, y) && touched(d, r, y) ==> dl.contains(y) }
/// row r brought to its size
pub proof fn row_sized(e: RamForest, e1: RamForest, g: RamForest, d: Set<u64>, n: int, n2: int, ng: int, r: int)
    requires 0 <= n2 <= n < 0x8000_0000, n2 <= ng, r >= 1, r < e.m_data@.len(), low_ok(e, n, r), clean(e, g, d, n, r), touch_ok(d, n, n2), rows_ok(g, ng), hashes_ok(g, ng), e1.m_data@ == e.m_data@.update(r, e1.m_data@[r]), e1.m_data@[r]@.len() == n / p2(r as nat) as int, forall|j: int| 0 <= j < e1.m_data@[r]@.len() && j < e.m_data@[r]@.len() ==> #[trigger] e1.m_data@[r]@[j] == e.m_data@[r]@[j]
    ensures low_ok(e1, n, r), forall|y: int| #[trigger] ex(n, r, y) ==> has(e1, r, y), forall|y: int| #[trigger] ex(n, r, y) && !touched(d, r, y) ==> good(e1, r, y) && dat(e1, r, y) == dat(g, r, y), forall|q: int| r < q < g.m_data@.len() ==> #[trigger] e1.m_data@[q] == g.m_data@[q], forall|y: int| #[trigger] ex(n, r, y) && !touched(d, r, y) ==> phash(dat(e1, r - 1, 2 * y), dat(e1, r - 1, 2 * y + 1)) == dat(g, r, y)
{
    assert forall|q: int, y: int| 0 <= q < r && #[trigger] ex(n, q, y) implies has(e1, q, y) by { assert(has(e, q, y)); }
    assert forall|q: int, y: int| 1 <= q < r && #[trigger] ex(n, q, y) implies good(e1, q, y) by { assert(good(e, q, y)); }
    assert forall|y: int| #[trigger] ex(n, r, y) implies has(e1, r, y) by { ex_div(n, r, y); }
    assert forall|y: int| #[trigger] ex(n, r, y) && !touched(d, r, y) implies good(e1, r, y) && dat(e1, r, y) == dat(g, r, y) && phash(dat(e1, r - 1, 2 * y), dat(e1, r - 1, 2 * y + 1)) == dat(g, r, y) by {
        untouched_fact(d, n, n2, r, y); ex_mono(n2, ng, r, y); assert(has(g, r, y)); assert(e.m_data@[r] == g.m_data@[r]); ex_down(n, r, y); assert(has(e1, r, y)); assert(e1.m_data@[r]@[y] == e.m_data@[r]@[y]);
        assert(dat(e, r - 1, 2 * y) == dat(g, r - 1, 2 * y)); assert(dat(e, r - 1, 2 * y + 1) == dat(g, r - 1, 2 * y + 1)); 
    }
}
/// while row r is rehashed, the first j of dl done
pub open spec fn row_mid(e1: RamForest, e: RamForest, d: Set<u64>, n: int, r: int, dl: Seq<int>, j: int) -> bool {
    e.m_data@ == e1.m_data@.update(r, e.m_data@[r]) && e.m_data@[r]@.len() == e1.m_data@[r]@.len() && (forall|y: int| #[trigger] ex(n, r, y) && !touched(d, r, y) ==> good(e, r, y)) && (forall|k: int| 0 <= k < j ==> good(e, r, #[trigger] dl[k]))
}
pub proof fn row_step(e1: RamForest, e: RamForest, g: RamForest, d: Set<u64>, n: int, r: int, dl: Seq<int>, j: int)
    requires row_mid(e1, e, d, n, r, dl, j), r >= 1, r < e1.m_data@.len(), 0 <= j < dl.len(), has(e, r, dl[j]), rehashed(e, g, r, dl[j]), forall|k: int| 0 <= k < dl.len() ==> has(e, r, #[trigger] dl[k]), forall|y: int| #[trigger] ex(n, r, y) ==> has(e, r, y)
    ensures row_mid(e1, g, d, n, r, dl, j + 1)
{
    assert(g.m_data@ =~= e1.m_data@.update(r, g.m_data@[r]));
    assert forall|y: int| #[trigger] ex(n, r, y) && !touched(d, r, y) implies good(g, r, y) by { assert(good(e, r, y)); assert(has(e, r, y)); }
    assert forall|k: int| 0 <= k < j + 1 implies good(g, r, #[trigger] dl[k]) by { assert(has(e, r, dl[k])); if k < j { assert(good(e, r, dl[k])); } }
}
pub proof fn row_done(e1: RamForest, e: RamForest, g: RamForest, d: Set<u64>, n: int, r: int, dl: Seq<int>, nd: Seq<int>)
    requires row_mid(e1, e, d, n, r, dl, dl.len() as int), r >= 1, r < e1.m_data@.len(), low_ok(e1, n, r), forall|y: int| #[trigger] ex(n, r, y) ==> has(e1, r, y), listed(d, n, r, dl), e1.m_data@.len() >= g.m_data@.len(), forall|q: int| r < q < g.m_data@.len() ==> #[trigger] e1.m_data@[q] == g.m_data@[q], forall|y: int| #[trigger] ex(n, r, y) && !touched(d, r, y) ==> phash(dat(e1, r - 1, 2 * y), dat(e1, r - 1, 2 * y + 1)) == dat(g, r, y),
        forall|k: int| 0 <= k < dl.len() ==> ex(n, r + 1, (#[trigger] dl[k]) / 2) ==> nd.contains(dl[k] / 2)
    ensures low_ok(e, n, r + 1), clean(e, g, d, n, r + 1), listed(d, n, r + 1, nd)
{
    assert forall|q: int, y: int| 0 <= q < r + 1 && #[trigger] ex(n, q, y) implies has(e, q, y) by { assert(has(e1, q, y)); }
    assert forall|q: int, y: int| 1 <= q < r + 1 && #[trigger] ex(n, q, y) implies good(e, q, y) by {
        if q < r { assert(good(e1, q, y)); } else if touched(d, r, y) { assert(dl.contains(y)); let k = dl.index_of(y); assert(good(e, r, dl[k])); } }
    assert forall|y: int| #[trigger] ex(n, r + 1 - 1, y) && !touched(d, r + 1 - 1, y) implies dat(e, r + 1 - 1, y) == dat(g, r + 1 - 1, y) by { assert(ex(n, r, y)); assert(good(e, r, y)); assert(dat(e, r - 1, 2 * y) == dat(e1, r - 1, 2 * y) && dat(e, r - 1, 2 * y + 1) == dat(e1, r - 1, 2 * y + 1)); }
    assert forall|y: int| #[trigger] ex(n, r + 1, y) && touched(d, r + 1, y) implies nd.contains(y) by { let z = touched_up(d, r + 1, y); ex_down(n, r + 1, y); assert(ex(n, r, z)); assert(dl.contains(z)); let k = dl.index_of(z); assert(dl[k] / 2 == y); }
}
/// two correct forests with the same leaves are the same
pub open spec fn same_leaves(f: RamForest, g: RamForest) -> bool { g.m_num_leaves == f.m_num_leaves && (forall|j: int| 0 <= j < f.m_num_leaves ==> dat(g, 0, j) == #[trigger] dat(f, 0, j)) }
pub open spec fn same_state(f: RamForest, g: RamForest) -> bool {
    same_leaves(f, g) && (forall|r: int, i: int| #[trigger] ex(f.m_num_leaves as int, r, i) ==> dat(g, r, i) == dat(f, r, i)) && g.m_posmap@ == f.m_posmap@
    && g.m_roots@.len() == f.m_roots@.len() && (forall|R: int| 0 <= R && #[trigger] bit(f.m_num_leaves as int, R) ==> root_hash(g, trees_above(f.m_num_leaves as int, R) as int) == root_hash(f, trees_above(f.m_num_leaves as int, R) as int))
}
pub proof fn same_node(f: RamForest, g: RamForest, r: int, i: int) requires forest_ok(f), forest_ok(g), same_leaves(f, g), ex(f.m_num_leaves as int, r, i) ensures dat(g, r, i) == dat(f, r, i) decreases r
{ let n = f.m_num_leaves as int; if r > 0 { ex_down(n, r, i); same_node(f, g, r - 1, 2 * i); same_node(f, g, r - 1, 2 * i + 1); } else { ex0(n, i); } }
pub proof fn same_all(f: RamForest, g: RamForest) requires forest_ok(f), forest_ok(g), same_leaves(f, g) ensures same_state(f, g)
{
    let n = f.m_num_leaves as int;
    assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies dat(g, r, i) == dat(f, r, i) by { same_node(f, g, r, i); }
    assert forall|x: H| #[trigger] f.m_posmap@.contains_key(x) implies g.m_posmap@.contains_key(x) && g.m_posmap@[x] == f.m_posmap@[x] by { let p = f.m_posmap@[x] as int; assert(dat(f, 0, p) == x); assert(dat(g, 0, p) == x); }
    assert forall|x: H| #[trigger] g.m_posmap@.contains_key(x) implies f.m_posmap@.contains_key(x) by { let p = g.m_posmap@[x] as int; assert(dat(g, 0, p) == x); assert(dat(f, 0, p) == x); }
    assert(g.m_posmap@ =~= f.m_posmap@);
    assert forall|R: int| 0 <= R && #[trigger] bit(n, R) implies root_hash(g, trees_above(n, R) as int) == root_hash(f, trees_above(n, R) as int) by { nr_spec(n as nat); bit_lt(n, R, nr(n as nat) as int + 1); root_valid(n, nr(n as nat) as int, R); }
}
/// a stack of modifications undone last to first: f[k] are the forests of the history, e[k] what the undos leave
pub proof fn undo_stack(f: Seq<RamForest>, e: Seq<RamForest>)
    requires f.len() > 0, e.len() == f.len(), forest_ok(e[f.len() - 1]), same_leaves(f[f.len() - 1], e[f.len() - 1]), forall|k: int| 0 <= k < f.len() - 1 && forest_ok(e[k + 1]) && same_leaves(f[k + 1], e[k + 1]) ==> forest_ok(#[trigger] e[k]) && same_state(f[k], e[k])
    ensures forall|k: int| 0 <= k < f.len() - 1 ==> forest_ok(#[trigger] e[k]) && same_state(f[k], e[k])
{ let n = f.len() - 1; assert forall|k: int| 0 <= k < n implies forest_ok(#[trigger] e[k]) && same_state(f[k], e[k]) by { undo_stack_at(f, e, k); } }
proof fn undo_stack_at(f: Seq<RamForest>, e: Seq<RamForest>, k: int)
    requires 0 <= k < f.len() - 1, e.len() == f.len(), forest_ok(e[f.len() - 1]), same_leaves(f[f.len() - 1], e[f.len() - 1]), forall|k: int| 0 <= k < f.len() - 1 && forest_ok(e[k + 1]) && same_leaves(f[k + 1], e[k + 1]) ==> forest_ok(#[trigger] e[k]) && same_state(f[k], e[k])
    ensures forest_ok(e[k]), same_state(f[k], e[k])
    decreases f.len() - k
{ if k + 1 < f.len() - 1 { undo_stack_at(f, e, k + 1); } assert(forest_ok(e[k]) && same_state(f[k], e[k])); }
