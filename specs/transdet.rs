// ---------------------------------------------------------------------------
// The transformation is a function of the leaf count and the targets
// ---------------------------------------------------------------------------
pub open spec fn row_det(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, sw: Seq<Swap>, c: Swap) -> bool {
    t.len() > 0 && row_in(n, n2, h, r, t, t2, bit(n, r) && !t.contains(ri(n, r)), noroot(n, r, t).len() % 2 == 1, sw, c)
}
pub open spec fn rows_det(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>) -> bool { forall|q: int| 0 <= q < sw.len() ==> row_det(n, n2, h, q, ts[q], ts[q + 1], (#[trigger] sw[q])@, cs[q]) }
pub open spec fn det_by(n: int, n2: int, h: int, t: Seq<int>, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, fin: Seq<Vec<Swap>>) -> bool {
    ts.len() == sw.len() + 1 && cs.len() == sw.len() && ts[0] == t && rows_det(n, n2, h, ts, sw, cs) && ended(n, n2, h, ts) && (forall|q: int| 0 <= q < sw.len() ==> #[trigger] final_to(n, n2, h, sw, cs, q)) && appended(sw, cs, fin, sw.len() as int)
}
/// the swaps are those the targets determine
#[verifier::opaque] pub open spec fn det(n: int, n2: int, h: int, t: Seq<int>, fin: Seq<Vec<Swap>>) -> bool { exists|ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>| #[trigger] det_by(n, n2, h, t, ts, sw, cs, fin) }
pub open spec fn same_sw(a: Swap, b: Swap) -> bool { a.m_from == b.m_from && a.m_to == b.m_to && a.m_collapse == b.m_collapse }
pub open spec fn same_sws(a: Seq<Swap>, b: Seq<Swap>) -> bool { a.len() == b.len() && (forall|m: int| 0 <= m < a.len() ==> same_sw(#[trigger] a[m], b[m])) }
pub open spec fn same_tr(a: Seq<Vec<Swap>>, b: Seq<Vec<Swap>>) -> bool { a.len() == b.len() && (forall|q: int| 0 <= q < a.len() ==> same_sws((#[trigger] a[q])@, b[q]@)) }
pub proof fn app_inj(h: int, r: int, s: Seq<Swap>, k: int, i: int, j: int) requires app(h, r, s, k, i) == app(h, r, s, k, j) ensures i == j decreases k
{
    if k > 0 {
        let a = sA(h, r, s[k - 1]); let b = sB(h, r, s[k - 1]); let x = app(h, r, s, k - 1, i); let y = app(h, r, s, k - 1, j);
        assert(app(h, r, s, k, i) == xch(a, b, x) && app(h, r, s, k, j) == xch(a, b, y)); assert(x == y); app_inj(h, r, s, k - 1, i, j);
    }
}
pub open spec fn st(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, j: int) -> int { capp(h, r, cs[r], app(h, r, sw[r]@, sw[r]@.len() as int, j)) }
pub proof fn st_inj(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, i: int, j: int) requires st(h, sw, cs, r, i) == st(h, sw, cs, r, j) ensures i == j
{ let s = sw[r]@; let k = s.len() as int; assert(app(h, r, s, k, i) == app(h, r, s, k, j)); app_inj(h, r, s, k, i, j); }
pub proof fn fd_st(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, j: int) requires 0 <= r < sw.len() ensures fd(h, sw, cs, r, j) == 2 * fd(h, sw, cs, r + 1, st(h, sw, cs, r, j) / 2) + st(h, sw, cs, r, j) % 2 {}
pub proof fn fd_end(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, j: int) requires r < 0 || r >= sw.len() ensures fd(h, sw, cs, r, j) == j {}
pub proof fn fd_inj(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, i: int, j: int) requires fd(h, sw, cs, r, i) == fd(h, sw, cs, r, j) ensures i == j decreases sw.len() - r
{
    hide(app); hide(capp); hide(st); hide(fd);
    if 0 <= r < sw.len() {
        let x = st(h, sw, cs, r, i); let y = st(h, sw, cs, r, j); fd_st(h, sw, cs, r, i); fd_st(h, sw, cs, r, j);
        assert(fd(h, sw, cs, r + 1, x / 2) == fd(h, sw, cs, r + 1, y / 2) && x % 2 == y % 2); fd_inj(h, sw, cs, r + 1, x / 2, y / 2); assert(x == y); st_inj(h, sw, cs, r, i, j);
    } else { fd_end(h, sw, cs, r, i); fd_end(h, sw, cs, r, j); }
}
pub proof fn app_same(h: int, r: int, a: Seq<Swap>, b: Seq<Swap>, k: int, j: int) requires same_sws(a, b), k <= a.len() ensures app(h, r, a, k, j) == app(h, r, b, k, j) decreases k { if k > 0 { app_same(h, r, a, b, k - 1, j); assert(same_sw(a[k - 1], b[k - 1])); } }
pub proof fn dest_same(h: int, a: Seq<Vec<Swap>>, b: Seq<Vec<Swap>>, r: int, j: int) requires same_tr(a, b) ensures dest(h, a, r, j) == dest(h, b, r, j) decreases a.len() - r
{ if 0 <= r < a.len() { assert(same_sws(a[r]@, b[r]@)); app_same(h, r, a[r]@, b[r]@, a[r]@.len() as int, j); dest_same(h, a, b, r + 1, app(h, r, a[r]@, a[r]@.len() as int, j) / 2); } }
pub proof fn asc_uniq(a: Seq<int>, b: Seq<int>) requires asc(a), asc(b), forall|p: int| a.contains(p) <==> b.contains(p) ensures a == b decreases a.len()
{
    if a.len() == 0 { if b.len() > 0 { assert(b.contains(b[0])); } assert(a =~= b); }
    else {
        assert(a.contains(a.last())); let k = b.index_of(a.last()); assert(b.len() > 0 && b.contains(b.last())); let m = a.index_of(b.last());
        assert(a.last() == b.last()) by { if k < b.len() - 1 { assert(b[k] < b[b.len() - 1]); } if m < a.len() - 1 { assert(a[m] < a[a.len() - 1]); } }
        let a2 = a.drop_last(); let b2 = b.drop_last();
        assert forall|p: int| a2.contains(p) <==> b2.contains(p) by {
            if a2.contains(p) { let i = a2.index_of(p); assert(a[i] == p && a[i] < a[a.len() - 1]); assert(a.contains(p)); let j = b.index_of(p); assert(j < b.len() - 1); assert(b2[j] == p); }
            if b2.contains(p) { let j = b2.index_of(p); assert(b[j] == p && b[j] < b[b.len() - 1]); assert(b.contains(p)); let i = a.index_of(p); assert(i < a.len() - 1); assert(a2[i] == p); }
        }
        assert(asc(a2)) by { assert forall|x: int, y: int| 0 <= x < y < a2.len() implies a2[x] < a2[y] by { assert(a[x] < a[y]); } } assert(asc(b2)) by { assert forall|x: int, y: int| 0 <= x < y < b2.len() implies b2[x] < b2[y] by { assert(b[x] < b[y]); } }
        asc_uniq(a2, b2); assert(a =~= a2.push(a.last())); assert(b =~= b2.push(b.last()));
    }
}
/// the lists and swaps of row q coincide
pub proof fn det_rows(n: int, n2: int, h: int, t: Seq<int>, ts1: Seq<Seq<int>>, sw1: Seq<Vec<Swap>>, cs1: Seq<Swap>, f1: Seq<Vec<Swap>>, ts2: Seq<Seq<int>>, sw2: Seq<Vec<Swap>>, cs2: Seq<Swap>, f2: Seq<Vec<Swap>>, q: int)
    requires det_by(n, n2, h, t, ts1, sw1, cs1, f1), det_by(n, n2, h, t, ts2, sw2, cs2, f2), 0 <= q <= sw1.len(), q <= sw2.len()
    ensures ts1[q] == ts2[q], forall|p: int| 0 <= p < q ==> (#[trigger] sw1[p])@ == sw2[p]@ && cs1[p].m_collapse == cs2[p].m_collapse && (cs1[p].m_collapse ==> cs1[p].m_from == cs2[p].m_from)
    decreases q
{
    if q > 0 {
        det_rows(n, n2, h, t, ts1, sw1, cs1, f1, ts2, sw2, cs2, f2, q - 1); let p = q - 1;
        assert(row_det(n, n2, h, p, ts1[p], ts1[p + 1], sw1[p]@, cs1[p])); assert(row_det(n, n2, h, p, ts2[p], ts2[p + 1], sw2[p]@, cs2[p]));
        let u = noroot(n, p, ts1[p]); let x = nextp(u, u.len() % 2 == 1 && !(bit(n, p) && !ts1[p].contains(ri(n, p))));
        assert forall|v: int| ts1[q].contains(v) <==> ts2[q].contains(v) by { assert(ts1[q].contains(v) <==> x.contains(v)); assert(ts2[q].contains(v) <==> x.contains(v)); }
        asc_uniq(ts1[q], ts2[q]);
    }
}
pub proof fn det_cols(n: int, n2: int, h: int, t: Seq<int>, ts1: Seq<Seq<int>>, sw1: Seq<Vec<Swap>>, cs1: Seq<Swap>, f1: Seq<Vec<Swap>>, ts2: Seq<Seq<int>>, sw2: Seq<Vec<Swap>>, cs2: Seq<Swap>, f2: Seq<Vec<Swap>>, q: int)
    requires det_by(n, n2, h, t, ts1, sw1, cs1, f1), det_by(n, n2, h, t, ts2, sw2, cs2, f2), 0 <= q <= sw1.len(), sw1.len() == sw2.len()
    ensures forall|p: int| q <= p < sw1.len() && (#[trigger] cs1[p]).m_collapse ==> same_sw(cs1[p], cs2[p]), forall|j: int| fd(h, sw1, cs1, q, j) == #[trigger] fd(h, sw2, cs2, q, j)
    decreases sw1.len() - q
{
    hide(fd); hide(app); hide(row_det); hide(rows_det); hide(ended); hide(appended);
    if q < sw1.len() {
        det_cols(n, n2, h, t, ts1, sw1, cs1, f1, ts2, sw2, cs2, f2, q + 1); det_rows(n, n2, h, t, ts1, sw1, cs1, f1, ts2, sw2, cs2, f2, sw1.len() as int); assert(sw1[q]@ == sw2[q]@);
        assert forall|j: int| fd(h, sw1, cs1, q + 1, j) == #[trigger] fd(h, sw2, cs2, q + 1, j) by {}
        if cs1[q].m_collapse { assert(final_to(n, n2, h, sw1, cs1, q)); assert(final_to(n, n2, h, sw2, cs2, q)); col_same(n, n2, h, sw1, cs1, sw2, cs2, q); }
        assert forall|j: int| fd(h, sw1, cs1, q, j) == #[trigger] fd(h, sw2, cs2, q, j) by { fd_st(h, sw1, cs1, q, j); fd_st(h, sw2, cs2, q, j); assert(st(h, sw1, cs1, q, j) == st(h, sw2, cs2, q, j)); }
    } else { assert forall|j: int| fd(h, sw1, cs1, q, j) == #[trigger] fd(h, sw2, cs2, q, j) by { fd_end(h, sw1, cs1, q, j); fd_end(h, sw2, cs2, q, j); } }
}
pub proof fn col_same(n: int, n2: int, h: int, sw1: Seq<Vec<Swap>>, cs1: Seq<Swap>, sw2: Seq<Vec<Swap>>, cs2: Seq<Swap>, q: int)
    requires cs1[q].m_collapse, cs2[q].m_collapse, final_to(n, n2, h, sw1, cs1, q), final_to(n, n2, h, sw2, cs2, q), cs1[q].m_from == cs2[q].m_from, forall|j: int| fd(h, sw1, cs1, q + 1, j) == #[trigger] fd(h, sw2, cs2, q + 1, j)
    ensures same_sw(cs1[q], cs2[q])
{
    hide(fd); p2_vals(); assert(p2(1) == 2); let x = sB(h, q, cs1[q]); let y = sB(h, q, cs2[q]); let f1 = fd(h, sw1, cs1, q + 1, x / 2); let f2 = fd(h, sw2, cs2, q + 1, y / 2);
    assert(lf(h, sw1, cs1, q + 1, 1, x) == f1 * 2 + x % 2); assert(lf(h, sw2, cs2, q + 1, 1, y) == f2 * 2 + y % 2); assert(f1 == f2 && x % 2 == y % 2);
    assert(fd(h, sw1, cs1, q + 1, x / 2) == fd(h, sw2, cs2, q + 1, x / 2)); fd_inj(h, sw2, cs2, q + 1, x / 2, y / 2); assert(x == y);
}
pub proof fn det_in(n: int, n2: int, h: int, t: Seq<int>, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, fin: Seq<Vec<Swap>>) requires det_by(n, n2, h, t, ts, sw, cs, fin) ensures det(n, n2, h, t, fin) { reveal(det); }
/// two runs of the transformation on the same arguments agree
pub proof fn det_same(n: int, n2: int, h: int, t: Seq<int>, f1: Seq<Vec<Swap>>, f2: Seq<Vec<Swap>>) requires det(n, n2, h, t, f1), det(n, n2, h, t, f2) ensures same_tr(f1, f2)
{
    reveal(det); 
    let (ts1, sw1, cs1) = choose|ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>| #[trigger] det_by(n, n2, h, t, ts, sw, cs, f1);
    let (ts2, sw2, cs2) = choose|ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>| #[trigger] det_by(n, n2, h, t, ts, sw, cs, f2);
    let a = sw1.len() as int; let b = sw2.len() as int; let m = if a < b { a } else { b };
    det_rows(n, n2, h, t, ts1, sw1, cs1, f1, ts2, sw2, cs2, f2, m);
    assert(a == b) by { if a < b { assert(row_det(n, n2, h, a, ts2[a], ts2[a + 1], sw2[a]@, cs2[a])); } if b < a { assert(row_det(n, n2, h, b, ts1[b], ts1[b + 1], sw1[b]@, cs1[b])); } }
    det_cols(n, n2, h, t, ts1, sw1, cs1, f1, ts2, sw2, cs2, f2, 0);
    assert forall|q: int| 0 <= q < f1.len() implies same_sws((#[trigger] f1[q])@, f2[q]@) by { assert(sw1[q]@ == sw2[q]@); if cs1[q].m_collapse { assert(same_sw(cs1[q], cs2[q])); } }
}
