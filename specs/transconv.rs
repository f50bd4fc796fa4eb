// ---------------------------------------------------------------------------
// Converting collapses: destinations are moved along with the subtrees above them
// ---------------------------------------------------------------------------
pub proof fn gp_u64(n: int, h: int, r: int, i: int) requires 0 <= n <= p2(h as nat), h <= 62, 0 <= r <= h, 0 <= i < en(n, r) ensures gv(h, r, i), 0 <= gp(h, r, i) <= 0xffff_ffff_ffff_ffff, gp(h, r, i) == gp(h, r, 0) + i, gp(h, r, i) < p2((h + 1) as nat)
{ idx_gv(n, h, r, i); gp_range(h, r, i); p2_vals(); p2_mono((h + 1) as nat, 63); }
pub proof fn wall_odd(n: int, r: int, u: Seq<int>) requires asc(u) ensures wall(u).len() % 2 == u.len() % 2
{ let k = u.len() as int; cnp_count(u, k); if k > 0 && u.contains(sib(u[k - 1])) && u[k - 1] % 2 == 0 { let i = u.index_of(sib(u[k - 1])); if i < k - 1 { assert(u[i] < u[k - 1]); } } }
pub open spec fn same_but_to(c: Swap, c0: Swap) -> bool { c.m_from == c0.m_from && c.m_collapse == c0.m_collapse && c.m_is_range_swap == c0.m_is_range_swap && c.m_range == c0.m_range }
/// the bit-level step that moves a position together with the subtree it lies in
pub proof fn mv_at(hh: u64, cr: u64, sr: u64, a: int, b: int, x: int) requires hh <= 62, cr < sr <= hh, gv(hh as int, sr as int, a), gv(hh as int, sr as int, b), gv(hh as int, cr as int, x)
    ensures ({ let h = hh as int; let d = sr - cr; let y = x / p2(d as nat) as int; let x2 = mv(d, a, b, x);
        gv(h, sr as int, y) && gv(h, cr as int, x2) && ((y == a) == (y == b) ==> x2 == x)
        && ((y == a) != (y == b) ==> (gp(h, cr as int, x) as u64) ^ (((gp(h, sr as int, a) as u64) ^ (gp(h, sr as int, b) as u64)) << ((sr - cr) as u64)) == gp(h, cr as int, x2)) })
{
    let h = hh as int; let d = (sr - cr) as u64; let w = p2(d as nat) as int; let y = x / w; let x2 = mv(d as int, a, b, x);
    split_row(x, d as int); p2_add((h - sr) as nat, d as nat); p2_pos(d as nat); let lim = p2((h - sr) as nat) as int;
    assert(y < lim) by { if y >= lim { assert(y * w >= lim * w) by(nonlinear_arith) requires y >= lim, w >= 0; } }
    let z = xch(a, b, y); assert(0 <= z < lim); assert(z * w + x % w < lim * w) by(nonlinear_arith) requires z + 1 <= lim, w > 0, x % w < w; assert(z * w >= 0) by(nonlinear_arith) requires z >= 0, w > 0;
    assert(gv(h, cr as int, x2));
    if (y == a) != (y == b) {
        gv_bv(hh, sr, a); gv_bv(hh, sr, b); gv_bv(hh, cr, x); gv_bv(hh, cr, x2); gv_bv(hh, sr, y); let au = a as u64; let bu = b as u64; let xu = x as u64; let yu = y as u64; let zu = z as u64; 
        gp_bv(hh, sr, au); gp_bv(hh, sr, bu); gp_bv(hh, cr, xu); gp_bv(hh, cr, x2 as u64);
        shr_div(xu, d); assert(xu >> d == yu); let m = sub(xu, yu << d);
        p2_vals(); p2_mono((h - cr) as nat, 62); assert(y * w <= x); shl_mul(yu, d); assert(z * w <= x2); shl_mul(zu, d);
        assert(x2 as u64 == add(zu << d, sub(xu, yu << d)));
        let pa = add(sub(2u64 << hh, 1u64 << sub(add(hh, 1), sr)), au); let pb = add(sub(2u64 << hh, 1u64 << sub(add(hh, 1), sr)), bu); let px = add(sub(2u64 << hh, 1u64 << sub(add(hh, 1), cr)), xu); let base = sub(2u64 << hh, 1u64 << sub(add(hh, 1), cr));
        assert(pa ^ pb == au ^ bu) by(bit_vector) requires hh <= 62, sr <= hh, au < (1u64 << sub(hh, sr)), bu < (1u64 << sub(hh, sr)), pa == add(sub(2u64 << hh, 1u64 << sub(add(hh, 1), sr)), au), pb == add(sub(2u64 << hh, 1u64 << sub(add(hh, 1), sr)), bu);
        assert(zu == yu ^ (au ^ bu)) by { assert(bu == au ^ (au ^ bu)) by(bit_vector); assert(au == bu ^ (au ^ bu)) by(bit_vector); }
        let g = au ^ bu;
        assert(g < (1u64 << sub(hh, sr))) by(bit_vector) requires hh <= 62, sr <= hh, g == au ^ bu, au < (1u64 << sub(hh, sr)), bu < (1u64 << sub(hh, sr));
        let gd = g << d; let k = sub(hh, cr); let e = sub(hh, sr);
        assert(gd < (1u64 << k)) by(bit_vector) requires gd == g << d, g < (1u64 << e), k == add(e, d), k <= 62, e <= 62, d <= 62;
        assert(xu ^ gd == add(zu << d, sub(xu, yu << d))) by(bit_vector) requires gd == g << d, d <= 62, zu == yu ^ g, yu == xu >> d;
        assert(px ^ gd == add(base, xu ^ gd)) by(bit_vector) requires hh <= 62, k == sub(hh, cr), cr <= hh, xu < (1u64 << k), gd < (1u64 << k), base == sub(2u64 << hh, 1u64 << sub(add(hh, 1), cr)), px == add(base, xu);
    } else { if y == a { assert(a == b); } assert(z == y); }
}
pub proof fn row_ok_to(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, sw: Seq<Swap>, c: Swap, c2: Swap) requires row_ok(n, n2, h, r, t, t2, sw, c), same_but_to(c2, c) ensures row_ok(n, n2, h, r, t, t2, sw, c2)
{ assert forall|j: int| 0 <= j < en(n, r) implies (#[trigger] t.contains(j) <==> dead2(n, h, r, t2, c2, app(h, r, sw, sw.len() as int, j))) by { assert(dead2(n, h, r, t2, c2, app(h, r, sw, sw.len() as int, j)) == dead2(n, h, r, t2, c, app(h, r, sw, sw.len() as int, j))); } }
/// state of the conversion before row `row` is handled (rows above are done)
pub open spec fn conv_inv(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, row: int) -> bool {
    rows_all(n, n2, h, ts, sw, cs) && ended(n, n2, h, ts)
    && (forall|k: int| 0 <= k <= row && (#[trigger] cs[k]).m_collapse ==> 0 <= sB(h, k, cs[k]) < en(n, k) && lf(h, sw, cs, row + 1, row + 1 - k, sB(h, k, cs[k])) == en(n2, k) - 1)
    && (forall|q: int| row < q < sw.len() ==> #[trigger] final_to(n, n2, h, sw, cs, q))
}
pub proof fn conv_init(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>)
    requires 0 <= n2 <= n, 0 < sw.len(), rows_all(n, n2, h, ts, sw, cs), ended(n, n2, h, ts), forall|q: int| 0 <= q < cs.len() && (#[trigger] cs[q]).m_collapse ==> sB(h, q, cs[q]) == en(n2, q) - 1
    ensures conv_inv(n, n2, h, ts, sw, cs, sw.len() - 1)
{
    let row = sw.len() - 1;
    assert forall|k: int| 0 <= k <= row && (#[trigger] cs[k]).m_collapse implies 0 <= sB(h, k, cs[k]) < en(n, k) && lf(h, sw, cs, row + 1, row + 1 - k, sB(h, k, cs[k])) == en(n2, k) - 1 by {
        assert(row_ok(n, n2, h, k, ts[k], ts[k + 1], sw[k]@, cs[k])); en_half(n2, k); en_mono(n, n2, k); let x = sB(h, k, cs[k]); split_row(x, row + 1 - k); assert(en(n2, k) > 0) by { assert(en(n2, k) % 2 == 1); }
    }
}
/// while row `row` is handled: its first m swaps have been applied to the destinations below
pub open spec fn conv_mid(h: int, c0: Seq<Swap>, c: Seq<Swap>, s: Seq<Swap>, row: int, m: int) -> bool {
    c.len() == c0.len() && (forall|k: int| 0 <= k < c.len() ==> same_but_to(#[trigger] c[k], c0[k])) && (forall|k: int| 0 <= k < c.len() && (k >= row || !c0[k].m_collapse) ==> #[trigger] c[k] == c0[k])
    && (forall|k: int| 0 <= k < row && c0[k].m_collapse ==> sB(h, k, #[trigger] c[k]) == at_desc(row - k, app(h, row, s, m, sB(h, k, c0[k]) / p2((row - k) as nat) as int), sB(h, k, c0[k])))
}
pub open spec fn at_desc(d: int, y: int, x: int) -> int { y * p2(d as nat) + x % p2(d as nat) as int }
pub proof fn app_in(n: int, h: int, r: int, sw: Seq<Swap>, k: int, j: int) requires sws_in(n, h, r, sw), 0 <= k <= sw.len(), j >= 0 ensures ({ let x = app(h, r, sw, k, j); if j < en(n, r) { 0 <= x < en(n, r) } else { x == j } }) decreases k
{ if k > 0 { app_in(n, h, r, sw, k - 1, j); let s = sw[k - 1]; assert(0 <= sA(h, r, s) < en(n, r)); } }
pub proof fn at_desc_in(n: int, k: int, d: int, y: int, x: int) requires n >= 0, k >= 0, d >= 0, 0 <= x < en(n, k), ({ let y0 = x / p2(d as nat) as int; if y0 < en(n, k + d) { 0 <= y < en(n, k + d) } else { y == y0 } }) ensures ({ let z = at_desc(d, y, x); 0 <= z < en(n, k) && z / p2(d as nat) as int == y && z % p2(d as nat) as int == x % p2(d as nat) as int }), y >= 0
{ split_row(x, d); p2_pos(d as nat); join(y, p2(d as nat) as int, x % p2(d as nat) as int); if x / (p2(d as nat) as int) < en(n, k + d) { en_low(n, k, d, at_desc(d, y, x)); } }
/// destinations stay existing nodes
pub proof fn conv_mid_gv(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, c0: Seq<Swap>, c: Seq<Swap>, row: int, m: int)
    requires 0 <= n <= p2(h as nat), 0 <= row < sw.len() <= h, conv_inv(n, n2, h, ts, sw, c0, row), conv_mid(h, c0, c, sw[row]@, row, m), 0 <= m <= sw[row]@.len()
    ensures forall|k: int| 0 <= k < row && (#[trigger] c[k]).m_collapse ==> gv(h, k, sB(h, k, c[k])) && 0 <= sB(h, k, c[k]) < en(n, k)
{
    assert(row_ok(n, n2, h, row, ts[row], ts[row + 1], sw[row]@, c0[row]));
    assert forall|k: int| 0 <= k < row && (#[trigger] c[k]).m_collapse implies gv(h, k, sB(h, k, c[k])) && 0 <= sB(h, k, c[k]) < en(n, k) by {
        assert(same_but_to(c[k], c0[k])); let x = sB(h, k, c0[k]); let d = row - k; split_row(x, d); assert(0 <= x < en(n, k)); app_in(n, h, row, sw[row]@, m, x / p2(d as nat) as int); at_desc_in(n, k, d, app(h, row, sw[row]@, m, x / p2(d as nat) as int), x); idx_gv(n, h, k, sB(h, k, c[k])); }
}
pub proof fn conv_mid0(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, c0: Seq<Swap>, row: int) requires 0 <= row < sw.len(), conv_inv(n, n2, h, ts, sw, c0, row) ensures conv_mid(h, c0, c0, sw[row]@, row, 0)
{ assert forall|k: int| 0 <= k < row && c0[k].m_collapse implies sB(h, k, #[trigger] c0[k]) == at_desc(row - k, app(h, row, sw[row]@, 0, sB(h, k, c0[k]) / p2((row - k) as nat) as int), sB(h, k, c0[k])) by { split_row(sB(h, k, c0[k]), row - k); } }
/// what SwapInRow does to the destinations below
pub open spec fn moved(h: int, row: int, a: int, b: int, c1: Seq<Swap>, c2: Seq<Swap>) -> bool {
    c2.len() == c1.len() && (forall|k: int| 0 <= k < c1.len() ==> same_but_to(#[trigger] c2[k], c1[k])) && (forall|k: int| 0 <= k < c1.len() && (k >= row || !c1[k].m_collapse) ==> #[trigger] c2[k] == c1[k])
    && (forall|k: int| 0 <= k < row && c1[k].m_collapse ==> sB(h, k, #[trigger] c2[k]) == mv(row - k, a, b, sB(h, k, c1[k])))
}
pub proof fn mv_desc(n: int, k: int, d: int, y: int, x: int, a: int, b: int) requires n >= 0, k >= 0, d >= 0, 0 <= x < en(n, k), ({ let y0 = x / p2(d as nat) as int; if y0 < en(n, k + d) { 0 <= y < en(n, k + d) } else { y == y0 } }) ensures mv(d, a, b, at_desc(d, y, x)) == at_desc(d, xch(a, b, y), x)
{ at_desc_in(n, k, d, y, x); }
pub proof fn conv_mid_step(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, c0: Seq<Swap>, c1: Seq<Swap>, c2: Seq<Swap>, row: int, m: int)
    requires 0 <= n <= p2(h as nat), 0 <= row < sw.len() <= h, conv_inv(n, n2, h, ts, sw, c0, row), conv_mid(h, c0, c1, sw[row]@, row, m), 0 <= m < sw[row]@.len(), moved(h, row, sA(h, row, sw[row]@[m]), sB(h, row, sw[row]@[m]), c1, c2)
    ensures conv_mid(h, c0, c2, sw[row]@, row, m + 1)
{
    assert(row_ok(n, n2, h, row, ts[row], ts[row + 1], sw[row]@, c0[row])); let s = sw[row]@;
    assert forall|k: int| 0 <= k < c0.len() implies same_but_to(#[trigger] c2[k], c0[k]) by { assert(same_but_to(c1[k], c0[k])); }
    assert forall|k: int| 0 <= k < c0.len() && (k >= row || !c0[k].m_collapse) implies #[trigger] c2[k] == c0[k] by { assert(same_but_to(c1[k], c0[k])); assert(c1[k] == c0[k]); }
    assert forall|k: int| 0 <= k < row && c0[k].m_collapse implies sB(h, k, #[trigger] c2[k]) == at_desc(row - k, app(h, row, s, m + 1, sB(h, k, c0[k]) / p2((row - k) as nat) as int), sB(h, k, c0[k])) by {
        assert(same_but_to(c1[k], c0[k])); let x = sB(h, k, c0[k]); let d = row - k; split_row(x, d); let y0 = x / p2(d as nat) as int; app_in(n, h, row, s, m, y0); let y = app(h, row, s, m, y0); mv_desc(n, k, d, y, x, sA(h, row, s[m]), sB(h, row, s[m])); assert(sB(h, k, c1[k]) == at_desc(d, y, x)); }
}
/// all of row `row` applied
pub open spec fn conv_all(h: int, c0: Seq<Swap>, c: Seq<Swap>, s: Seq<Swap>, row: int) -> bool {
    c.len() == c0.len() && (forall|k: int| 0 <= k < c.len() ==> same_but_to(#[trigger] c[k], c0[k])) && (forall|k: int| 0 <= k < c.len() && (k >= row || !c0[k].m_collapse) ==> #[trigger] c[k] == c0[k])
    && (forall|k: int| 0 <= k < row && c0[k].m_collapse ==> sB(h, k, #[trigger] c[k]) == at_desc(row - k, capp(h, row, c0[row], app(h, row, s, s.len() as int, sB(h, k, c0[k]) / p2((row - k) as nat) as int)), sB(h, k, c0[k])))
}
pub proof fn conv_col(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, c0: Seq<Swap>, c1: Seq<Swap>, c2: Seq<Swap>, row: int)
    requires 0 <= n <= p2(h as nat), 0 <= row < sw.len() <= h, conv_inv(n, n2, h, ts, sw, c0, row), conv_mid(h, c0, c1, sw[row]@, row, sw[row]@.len() as int), c0[row].m_collapse, moved(h, row, sA(h, row, c0[row]), sB(h, row, c0[row]), c1, c2)
    ensures conv_all(h, c0, c2, sw[row]@, row)
{
    assert(row_ok(n, n2, h, row, ts[row], ts[row + 1], sw[row]@, c0[row])); let s = sw[row]@; let m = s.len() as int;
    assert forall|k: int| 0 <= k < c0.len() implies same_but_to(#[trigger] c2[k], c0[k]) by { assert(same_but_to(c1[k], c0[k])); }
    assert forall|k: int| 0 <= k < c0.len() && (k >= row || !c0[k].m_collapse) implies #[trigger] c2[k] == c0[k] by { assert(same_but_to(c1[k], c0[k])); assert(c1[k] == c0[k]); }
    assert forall|k: int| 0 <= k < row && c0[k].m_collapse implies sB(h, k, #[trigger] c2[k]) == at_desc(row - k, capp(h, row, c0[row], app(h, row, s, m, sB(h, k, c0[k]) / p2((row - k) as nat) as int)), sB(h, k, c0[k])) by {
        assert(same_but_to(c1[k], c0[k])); let x = sB(h, k, c0[k]); let d = row - k; split_row(x, d); let y0 = x / p2(d as nat) as int; app_in(n, h, row, s, m, y0); let y = app(h, row, s, m, y0); mv_desc(n, k, d, y, x, sA(h, row, c0[row]), sB(h, row, c0[row])); assert(sB(h, k, c1[k]) == at_desc(d, y, x)); }
}
pub proof fn conv_nocol(h: int, c0: Seq<Swap>, c1: Seq<Swap>, s: Seq<Swap>, row: int) requires 0 <= row < c0.len(), conv_mid(h, c0, c1, s, row, s.len() as int), !c0[row].m_collapse ensures conv_all(h, c0, c1, s, row) { }
pub proof fn conv_next(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, c0: Seq<Swap>, c: Seq<Swap>, row: int)
    requires 0 <= n2 <= n <= p2(h as nat), 0 < row < sw.len() <= h, conv_inv(n, n2, h, ts, sw, c0, row), conv_all(h, c0, c, sw[row]@, row)
    ensures conv_inv(n, n2, h, ts, sw, c, row - 1)
{
    assert(final_to(n, n2, h, sw, c0, row)) by { if c0[row].m_collapse { assert(row + 1 - row == 1); } }
    all_claims(n, n2, h, ts, sw, c0, row + 1);
    assert forall|q: int| 0 <= q < sw.len() implies row_ok(n, n2, h, q, ts[q], ts[q + 1], (#[trigger] sw[q])@, c[q]) by { assert(row_ok(n, n2, h, q, ts[q], ts[q + 1], sw[q]@, c0[q])); assert(same_but_to(c[q], c0[q])); row_ok_to(n, n2, h, q, ts[q], ts[q + 1], sw[q]@, c0[q], c[q]); }
    assert forall|q: int| row - 1 < q < sw.len() implies #[trigger] final_to(n, n2, h, sw, c, q) by { assert(final_to(n, n2, h, sw, c0, q)); assert(c[q] == c0[q]); fd_frame(h, sw, c0, c, q + 1, sB(h, q, c[q]) / p2(1) as int); }
    assert forall|k: int| 0 <= k <= row - 1 && (#[trigger] c[k]).m_collapse implies 0 <= sB(h, k, c[k]) < en(n, k) && lf(h, sw, c, row, row - k, sB(h, k, c[k])) == en(n2, k) - 1 by {
        assert(same_but_to(c[k], c0[k])); let t = sB(h, k, c0[k]); let t2 = sB(h, k, c[k]); let d = row - k; assert(row_ok(n, n2, h, k, ts[k], ts[k + 1], sw[k]@, c0[k])); assert(0 <= t < en(n, k));
        conv_step(n, n2, h, ts, sw, c0, row, k, t, t2); fd_frame(h, sw, c0, c, row, t2 / p2(d as nat) as int); }
}
/// The sorted positions of the next row
pub open spec fn dec(h: int, r: int, s: Seq<u64>) -> Seq<int> { s.map_values(|x: u64| x as int - gp(h, r, 0)) }
pub proof fn decode(n: int, h: int, r: int, s: Seq<u64>, x: Seq<int>) requires 0 <= n <= p2(h as nat), h <= 62, 0 <= r <= h, within(x, en(n, r)), x.no_duplicates(), sort_of(s, gps(h, r, x))
    ensures asc(dec(h, r, s)), dec(h, r, s).len() == x.len(), forall|p: int| #[trigger] dec(h, r, s).contains(p) <==> x.contains(p), within(dec(h, r, s), en(n, r)), s == gps(h, r, dec(h, r, s))
{
    let g = gps(h, r, x); let d = dec(h, r, s);
    assert forall|a: int| 0 <= a < x.len() implies #[trigger] g[a] as int == gp(h, r, x[a]) && gp(h, r, x[a]) == gp(h, r, 0) + x[a] by { assert(0 <= x[a] < en(n, r)); gp_u64(n, h, r, x[a]); }
    assert(g.no_duplicates()) by { assert forall|a: int, b: int| 0 <= a < g.len() && 0 <= b < g.len() && a != b implies g[a] != g[b] by { assert(x[a] != x[b]); } }
    sorted_uniq(s, g); s.to_multiset_ensures(); g.to_multiset_ensures();
    assert forall|a: int, b: int| 0 <= a < b < d.len() implies #[trigger] d[a] < #[trigger] d[b] by { assert(ints(s)[a] < ints(s)[b]); }
    assert forall|p: int| #[trigger] d.contains(p) <==> x.contains(p) by {
        if d.contains(p) { let a = d.index_of(p); assert(s.contains(s[a])); let b = g.index_of(s[a]); assert(x[b] == p); }
        if x.contains(p) { let b = x.index_of(p); assert(g.contains(g[b])); let a = s.index_of(g[b]); assert(d[a] == p); }
    }
    assert forall|a: int| 0 <= a < d.len() implies 0 <= #[trigger] d[a] < en(n, r) by { assert(d.contains(d[a])); let b = x.index_of(d[a]); assert(0 <= x[b] < en(n, r)); }
    assert(s =~= gps(h, r, d)) by { assert forall|a: int| 0 <= a < s.len() implies s[a] == #[trigger] gps(h, r, d)[a] by { assert(0 <= d[a] < en(n, r)); gp_u64(n, h, r, d[a]); } }
}
pub proof fn idx_all(n: int, h: int, r: int) requires 0 <= n <= p2(h as nat), h <= 62, 0 <= r <= h ensures forall|i: int| 0 <= i < en(n, r) ==> #[trigger] gv(h, r, i) && gp(h, r, i) == gp(h, r, 0) + i { assert forall|i: int| 0 <= i < en(n, r) implies #[trigger] gv(h, r, i) && gp(h, r, i) == gp(h, r, 0) + i by { idx_gv(n, h, r, i); gp_range(h, r, i); } }
