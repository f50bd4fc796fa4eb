// ---------------------------------------------------------------------------
// The undo transformation (C06): the same exchanges as leaf ranges, to be carried out in reverse order
// ---------------------------------------------------------------------------
/// the leaf range exchange of a swap of the nodes a and b of row r
pub open spec fn leafswap(r: int, a: int, b: int, s: Swap) -> bool {
    if r == 0 { !s.m_is_range_swap && s.m_from == a && s.m_to == b } else { s.m_is_range_swap && s.m_from == a * p2(r as nat) && s.m_to == b * p2(r as nat) && s.m_range == p2(r as nat) }
}
/// where a swap of single leaves or leaf ranges moves leaf x
pub open spec fn lsw(s: Swap, x: int) -> int {
    if s.m_is_range_swap { if s.m_from <= x < s.m_from + s.m_range { x - s.m_from + s.m_to } else if s.m_to <= x < s.m_to + s.m_range { x - s.m_to + s.m_from } else { x } } else { xch(s.m_from as int, s.m_to as int, x) }
}
/// the first k swaps carried out in reverse order (the last of them first)
pub open spec fn undo_all(l: Seq<Swap>, k: int, x: int) -> int decreases k { if k <= 0 { x } else { undo_all(l, k - 1, lsw(l[k - 1], x)) } }
/// u lists the swaps of the rows below q and the first m of row q as leaf ranges
pub open spec fn ulen(sw: Seq<Vec<Swap>>, q: int) -> int decreases q { if q <= 0 { 0 } else { ulen(sw, q - 1) + sw[q - 1]@.len() } }
pub open spec fn urow(h: int, s: Seq<Swap>, q: int, u: Seq<Swap>, base: int, m: int) -> bool { forall|i: int| 0 <= i < m ==> leafswap(q, sA(h, q, #[trigger] s[i]), sB(h, q, s[i]), u[base + i]) }
pub open spec fn ulist(h: int, sw: Seq<Vec<Swap>>, u: Seq<Swap>, q: int) -> bool { forall|p: int| 0 <= p < q ==> urow(h, (#[trigger] sw[p])@, p, u, ulen(sw, p), sw[p]@.len() as int) }
/// leaf x after the rows from r upwards are carried out
pub open spec fn ldest(h: int, sw: Seq<Vec<Swap>>, r: int, x: int) -> int { dest(h, sw, r, x / p2(r as nat) as int) * p2(r as nat) + x % p2(r as nat) as int }
/// the first m swaps of row r seen by a leaf
pub open spec fn lapp(h: int, r: int, s: Seq<Swap>, m: int, x: int) -> int { app(h, r, s, m, x / p2(r as nat) as int) * p2(r as nat) + x % p2(r as nat) as int }
pub proof fn ldest_up(h: int, sw: Seq<Vec<Swap>>, r: int, x: int) requires x >= 0, 0 <= r < sw.len(), app(h, r, sw[r]@, sw[r]@.len() as int, x / p2(r as nat) as int) >= 0 ensures ldest(h, sw, r, x) == ldest(h, sw, r + 1, lapp(h, r, sw[r]@, sw[r]@.len() as int, x))
{
    let w = p2(r as nat) as int; p2_pos(r as nat); split_row(x, r); let s = sw[r]@; let y = app(h, r, s, s.len() as int, x / w); let z = lapp(h, r, s, s.len() as int, x); join(y, w, x % w); split_row(z, r);
    let g = dest(h, sw, r + 1, y / 2); let m = y % 2; assert(g * (2 * w) + m * w == (2 * g + m) * w) by(nonlinear_arith); assert(g * p2((r + 1) as nat) == g * (2 * w));
}
/// a range swap moves leaves like the exchange of their subtrees, and undoes itself
pub proof fn lsw_mv(r: int, a: int, b: int, s: Swap, x: int) requires r >= 0, a >= 0, b >= 0, x >= 0, leafswap(r, a, b, s) ensures lsw(s, x) == mv(r, a, b, x), lsw(s, x) >= 0
{
    let w = p2(r as nat) as int; p2_pos(r as nat); split_row(x, r); let y = x / w;
    assert(y == a <==> a * w <= x < a * w + w) by { if a * w <= x < a * w + w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, w, a, x - a * w); } }
    assert(y == b <==> b * w <= x < b * w + w) by { if b * w <= x < b * w + w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, w, b, x - b * w); } }
    let z = xch(a, b, y); assert(z * w >= 0) by(nonlinear_arith) requires z >= 0, w > 0;
    if r == 0 { assert(p2(0) == 1); assert(x / 1 == x && x % 1 == 0); assert(z * 1 == z); }
}
/// undoing a row's first m swaps takes a leaf back
pub proof fn undo_row(n: int, h: int, sw: Seq<Vec<Swap>>, u: Seq<Swap>, r: int, m: int, x: int)
    requires 0 <= r < sw.len(), 0 <= m <= sw[r]@.len(), x >= 0, urow(h, sw[r]@, r, u, ulen(sw, r), sw[r]@.len() as int), forall|i: int| 0 <= i < sw[r]@.len() ==> 0 <= sA(h, r, #[trigger] sw[r]@[i]) && 0 <= sB(h, r, sw[r]@[i])
    ensures undo_all(u, ulen(sw, r) + m, lapp(h, r, sw[r]@, m, x)) == undo_all(u, ulen(sw, r), x), app(h, r, sw[r]@, m, x / p2(r as nat) as int) >= 0, ulen(sw, r) >= 0
    decreases m
{
    ulen_pos(sw, r); let w = p2(r as nat) as int; p2_pos(r as nat); split_row(x, r); let s = sw[r]@; 
    if m > 0 {
        undo_row(n, h, sw, u, r, m - 1, x); let y = app(h, r, s, m - 1, x / w); let z = lapp(h, r, s, m, x); let a = sA(h, r, s[m - 1]); let b = sB(h, r, s[m - 1]); let k = ulen(sw, r) + m;
        let z1 = xch(a, b, y); join(z1, w, x % w); join(y, w, x % w);
        assert(leafswap(r, a, b, u[k - 1])); lsw_mv(r, a, b, u[k - 1], z); assert(xch(a, b, z1) == y); assert(lsw(u[k - 1], z) == lapp(h, r, s, m - 1, x));
        assert(undo_all(u, k, z) == undo_all(u, k - 1, lsw(u[k - 1], z)));
    } else { assert(app(h, r, s, 0, x / w) == x / w); assert(lapp(h, r, s, 0, x) == x); }
}
pub proof fn ulen_pos(sw: Seq<Vec<Swap>>, q: int) ensures ulen(sw, q) >= 0 decreases q { if q > 0 { ulen_pos(sw, q - 1); } }
pub open spec fn nonneg(h: int, sw: Seq<Vec<Swap>>) -> bool { forall|q: int, m: int| 0 <= q < sw.len() && 0 <= m < sw[q]@.len() ==> 0 <= sA(h, q, #[trigger] sw[q]@[m]) && 0 <= sB(h, q, sw[q]@[m]) }
pub proof fn undo_rows(n: int, h: int, sw: Seq<Vec<Swap>>, u: Seq<Swap>, r: int, x: int)
    requires 0 <= r <= sw.len(), x >= 0, ulist(h, sw, u, sw.len() as int), nonneg(h, sw)
    ensures undo_all(u, ulen(sw, sw.len() as int), ldest(h, sw, r, x)) == undo_all(u, ulen(sw, r), x)
    decreases sw.len() - r
{
    if r < sw.len() {
        let s = sw[r]@; assert(urow(h, s, r, u, ulen(sw, r), s.len() as int)); assert forall|i: int| 0 <= i < s.len() implies 0 <= sA(h, r, #[trigger] s[i]) && 0 <= sB(h, r, s[i]) by { assert(s[i] == sw[r]@[i]); }
        undo_row(n, h, sw, u, r, s.len() as int, x); ldest_up(h, sw, r, x); let z = lapp(h, r, s, s.len() as int, x); p2_pos(r as nat); split_row(x, r); join(app(h, r, s, s.len() as int, x / p2(r as nat) as int), p2(r as nat) as int, x % p2(r as nat) as int);
        undo_rows(n, h, sw, u, r + 1, z);
    } else { p2_pos(r as nat); split_row(x, r); }
}
/// the undo swaps take every leaf back to where it was
pub open spec fn undo_ok(n: int, n2: int, h: int, t: Seq<int>, sw: Seq<Vec<Swap>>, u: Seq<Swap>) -> bool {
    trans_ok(n, n2, h, t, sw) && det(n, n2, h, t, sw) && u.len() == ulen(sw, sw.len() as int) && ulist(h, sw, u, sw.len() as int)
    && (forall|j: int| 0 <= j < n ==> undo_all(u, u.len() as int, #[trigger] dest(h, sw, 0, j)) == j)
}
pub proof fn undo_done(n: int, n2: int, h: int, t: Seq<int>, sw: Seq<Vec<Swap>>, u: Seq<Swap>) requires trans_ok(n, n2, h, t, sw), det(n, n2, h, t, sw), u.len() == ulen(sw, sw.len() as int), ulist(h, sw, u, sw.len() as int) ensures undo_ok(n, n2, h, t, sw, u)
{
    assert(nonneg(h, sw)) by { assert forall|q: int, m: int| 0 <= q < sw.len() && 0 <= m < sw[q]@.len() implies 0 <= sA(h, q, #[trigger] sw[q]@[m]) && 0 <= sB(h, q, sw[q]@[m]) by { assert(swap_ok(n, n2, h, sw, q, sw[q]@[m])); } }
    assert forall|j: int| 0 <= j < n implies undo_all(u, u.len() as int, #[trigger] dest(h, sw, 0, j)) == j by { undo_rows(n, h, sw, u, 0, j); assert(p2(0) == 1); assert(j / 1 == j && j % 1 == 0); let d = dest(h, sw, 0, j); assert(d * 1 == d); assert(ldest(h, sw, 0, j) == d); assert(ulen(sw, 0) == 0); }
}
pub proof fn urow_push(h: int, sw: Seq<Vec<Swap>>, u: Seq<Swap>, v: Swap, q: int, m: int)
    requires 0 <= q < sw.len(), 0 <= m < sw[q]@.len(), ulist(h, sw, u, q), u.len() == ulen(sw, q) + m, urow(h, sw[q]@, q, u, ulen(sw, q), m), leafswap(q, sA(h, q, sw[q]@[m]), sB(h, q, sw[q]@[m]), v)
    ensures ulist(h, sw, u.push(v), q), urow(h, sw[q]@, q, u.push(v), ulen(sw, q), m + 1)
{
    ulen_pos(sw, q);
    assert forall|p: int| 0 <= p < q implies urow(h, (#[trigger] sw[p])@, p, u.push(v), ulen(sw, p), sw[p]@.len() as int) by { assert(urow(h, sw[p]@, p, u, ulen(sw, p), sw[p]@.len() as int)); ulen_mono(sw, p + 1, q); ulen_pos(sw, p); }
}
pub proof fn ulen_mono(sw: Seq<Vec<Swap>>, p: int, q: int) requires p <= q ensures ulen(sw, p) <= ulen(sw, q) decreases q - p { if p < q { ulen_mono(sw, p, q - 1); } }
