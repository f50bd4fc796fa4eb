// ---------------------------------------------------------------------------
// The remove transformation (C05): swaps as permutations of node indices
// ---------------------------------------------------------------------------
/// number of complete nodes on row r
pub open spec fn en(n: int, r: int) -> int { n / p2(r as nat) as int }
/// the row indices a swap of row r exchanges
pub open spec fn sA(h: int, r: int, s: Swap) -> int { s.m_from - gp(h, r, 0) }
pub open spec fn sB(h: int, r: int, s: Swap) -> int { s.m_to - gp(h, r, 0) }
pub open spec fn xch(a: int, b: int, j: int) -> int { if j == a { b } else if j == b { a } else { j } }
/// index of the node at index j after the first k swaps of the row
pub open spec fn app(h: int, r: int, sw: Seq<Swap>, k: int, j: int) -> int decreases k { if k <= 0 { j } else { let s = sw[k - 1]; xch(sA(h, r, s), sB(h, r, s), app(h, r, sw, k - 1, j)) } }
/// where the node (r,j) ends up when the swaps of row r and of all rows above are carried out, each exchanging whole subtrees
pub open spec fn dest(h: int, sw: Seq<Vec<Swap>>, r: int, j: int) -> int decreases sw.len() - r {
    if r < 0 || r >= sw.len() { j } else { let x = app(h, r, sw[r]@, sw[r]@.len() as int, j); 2 * dest(h, sw, r + 1, x / 2) + x % 2 }
}
/// the same with the collapses kept apart
pub open spec fn capp(h: int, r: int, c: Swap, j: int) -> int { if c.m_collapse { xch(sA(h, r, c), sB(h, r, c), j) } else { j } }
pub open spec fn fd(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, j: int) -> int decreases sw.len() - r {
    if r < 0 || r >= sw.len() { j } else { let x = capp(h, r, cs[r], app(h, r, sw[r]@, sw[r]@.len() as int, j)); 2 * fd(h, sw, cs, r + 1, x / 2) + x % 2 }
}
/// where a node d rows below row r ends up
pub open spec fn lf(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, d: int, x: int) -> int { fd(h, sw, cs, r, x / p2(d as nat) as int) * p2(d as nat) + x % p2(d as nat) as int }
/// the node with index x, d rows below the row on which a and b are exchanged
pub open spec fn mv(d: int, a: int, b: int, x: int) -> int { xch(a, b, x / p2(d as nat) as int) * p2(d as nat) + x % p2(d as nat) as int }

/// no node is touched by two swaps of the row
pub open spec fn disj(h: int, r: int, sw: Seq<Swap>) -> bool {
    forall|a: int, b: int| 0 <= a < b < sw.len() ==> sA(h, r, #[trigger] sw[a]) != sA(h, r, #[trigger] sw[b]) && sA(h, r, sw[a]) != sB(h, r, sw[b]) && sB(h, r, sw[a]) != sA(h, r, sw[b]) && sB(h, r, sw[a]) != sB(h, r, sw[b])
}
pub proof fn app_hit(h: int, r: int, sw: Seq<Swap>, k: int, m: int) requires disj(h, r, sw), 0 <= m < k <= sw.len() ensures app(h, r, sw, k, sA(h, r, sw[m])) == sB(h, r, sw[m]), app(h, r, sw, k, sB(h, r, sw[m])) == sA(h, r, sw[m]) decreases k
{ if m < k - 1 { app_hit(h, r, sw, k - 1, m); assert(sA(h, r, sw[m]) != sA(h, r, sw[k - 1])); } else { app_miss(h, r, sw, k - 1, sA(h, r, sw[m])); app_miss(h, r, sw, k - 1, sB(h, r, sw[m])); } }
pub open spec fn untouched(h: int, r: int, sw: Seq<Swap>, k: int, j: int) -> bool { forall|m: int| 0 <= m < k ==> sA(h, r, #[trigger] sw[m]) != j && sB(h, r, sw[m]) != j }
pub proof fn app_miss(h: int, r: int, sw: Seq<Swap>, k: int, j: int) requires 0 <= k <= sw.len(), untouched(h, r, sw, k, j) ensures app(h, r, sw, k, j) == j decreases k
{ if k > 0 { app_miss(h, r, sw, k - 1, j); assert(sA(h, r, sw[k - 1]) != j); } }
/// swaps of one row: exchange existing nodes, never siblings, and undo themselves
pub open spec fn sws_in(n: int, h: int, r: int, sw: Seq<Swap>) -> bool { forall|m: int| 0 <= m < sw.len() ==> 0 <= sA(h, r, #[trigger] sw[m]) < en(n, r) && 0 <= sB(h, r, sw[m]) < en(n, r) && sA(h, r, sw[m]) != sB(h, r, sw[m]) && sA(h, r, sw[m]) != sib(sB(h, r, sw[m])) }
pub proof fn app_all(n: int, h: int, r: int, sw: Seq<Swap>, j: int) requires disj(h, r, sw), sws_in(n, h, r, sw)
    ensures ({ let x = app(h, r, sw, sw.len() as int, j); app(h, r, sw, sw.len() as int, x) == j && x != sib(j) && (0 <= j < en(n, r) <==> 0 <= x < en(n, r)) && (j >= en(n, r) || j < 0 ==> x == j) })
{
    let l = sw.len() as int;
    if untouched(h, r, sw, l, j) { app_miss(h, r, sw, l, j); }
    else { let m = choose|m: int| 0 <= m < l && !(sA(h, r, #[trigger] sw[m]) != j && sB(h, r, sw[m]) != j); app_hit(h, r, sw, l, m); let s = sw[m]; assert(sA(h, r, s) != sib(sB(h, r, s))); }
}
/// j is deleted at the end, seen after the swaps of its row: its parent is, or it has none, and it does not collapse
pub open spec fn dead2(n: int, h: int, r: int, t2: Seq<int>, c: Swap, x: int) -> bool { if c.m_collapse && x == sA(h, r, c) { false } else if x / 2 < en(n, r + 1) { t2.contains(x / 2) } else { true } }
pub open spec fn list_ok(n: int, n2: int, r: int, t: Seq<int>) -> bool { asc(t) && within(t, en(n, r)) && t.len() == en(n, r) - en(n2, r) }
/// what the swaps and the collapse of one row achieve
pub open spec fn row_ok(n: int, n2: int, h: int, r: int, t: Seq<int>, t2: Seq<int>, sw: Seq<Swap>, c: Swap) -> bool {
    list_ok(n, n2, r, t) && list_ok(n, n2, r + 1, t2) && disj(h, r, sw) && sws_in(n, h, r, sw)
    && (forall|m: int| 0 <= m < sw.len() ==> !(#[trigger] sw[m]).m_collapse && !sw[m].m_is_range_swap && sB(h, r, sw[m]) / 2 < en(n, r + 1) && (sA(h, r, sw[m]) / 2 < en(n, r + 1) ==> t2.contains(sA(h, r, sw[m]) / 2)))
    && (forall|j: int| 0 <= j < en(n, r) ==> (#[trigger] t.contains(j) <==> dead2(n, h, r, t2, c, app(h, r, sw, sw.len() as int, j))))
    && (c.m_collapse <==> bit(n2, r))
    && (c.m_collapse ==> ({ let f = sA(h, r, c); !c.m_is_range_swap && 0 <= f < en(n, r) && untouched(h, r, sw, sw.len() as int, f) && (sib(f) < en(n, r) ==> untouched(h, r, sw, sw.len() as int, sib(f))) && (f / 2 < en(n, r + 1) ==> t2.contains(f / 2)) }))
}
pub open spec fn rows_all(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>) -> bool {
    ts.len() == sw.len() + 1 && cs.len() == sw.len() && (forall|q: int| 0 <= q < sw.len() ==> row_ok(n, n2, h, q, ts[q], ts[q + 1], (#[trigger] sw[q])@, cs[q]))
}
/// nothing is left to do above the last row handled
pub open spec fn ended(n: int, n2: int, h: int, ts: Seq<Seq<int>>) -> bool { let r = ts.len() - 1; 0 <= r <= h && list_ok(n, n2, r, ts[r]) && (ts[r].len() == 0 || r == h) }
/// the collapse of row q goes to the place of the new root of that row
pub open spec fn final_to(n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, q: int) -> bool { cs[q].m_collapse ==> 0 <= sB(h, q, cs[q]) < en(n, q) && lf(h, sw, cs, q + 1, 1, sB(h, q, cs[q])) == en(n2, q) - 1 }
pub open spec fn claim(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int) -> bool {
    (forall|j: int| 0 <= j < en(n, r) ==> 0 <= #[trigger] fd(h, sw, cs, r, j) < en(n, r) && (ts[r].contains(j) <==> fd(h, sw, cs, r, j) >= en(n2, r)))
    && (forall|j: int| j >= en(n, r) ==> #[trigger] fd(h, sw, cs, r, j) == j)
    && (forall|i: int, j: int| 0 <= i < j < en(n, r) ==> #[trigger] fd(h, sw, cs, r, i) != #[trigger] fd(h, sw, cs, r, j))
}
pub proof fn en_half(n: int, r: int) requires n >= 0, r >= 0 ensures en(n, r + 1) == en(n, r) / 2, en(n, r) >= 0, bit(n, r) <==> en(n, r) % 2 == 1, ri(n, r) == 2 * en(n, r + 1), en(n, r) == ri(n, r) + (if bit(n, r) { 1int } else { 0 })
{ div2(n, r); p2_pos(r as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(r as nat) as int); }
pub proof fn en_mono(n: int, n2: int, r: int) requires 0 <= n2 <= n, r >= 0 ensures 0 <= en(n2, r) <= en(n, r) { p2_pos(r as nat); vstd::arithmetic::div_mod::lemma_div_is_ordered(n2, n, p2(r as nat) as int); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n2, p2(r as nat) as int); }
pub proof fn en_top(n: int, h: int) requires 0 <= n <= p2(h as nat), h >= 0 ensures en(n, h) <= 1 { lt_div(n, h, 1); p2_pos(h as nat); let w = p2(h as nat) as int; assert((1 + 1) * w > w) by(nonlinear_arith) requires w >= 1; }
pub proof fn claim_end(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>) requires 0 <= n2 <= n <= p2(h as nat), ended(n, n2, h, ts), ts.len() == sw.len() + 1 ensures claim(n, n2, h, ts, sw, cs, sw.len() as int)
{
    let r = sw.len() as int; en_mono(n, n2, r); let t = ts[r];
    assert forall|j: int| 0 <= j < en(n, r) implies 0 <= #[trigger] fd(h, sw, cs, r, j) < en(n, r) && (t.contains(j) <==> fd(h, sw, cs, r, j) >= en(n2, r)) by {
        if t.len() > 0 { en_top(n, h); assert(0 <= t[0] < 1); assert(t[0] == 0); assert(t.contains(0)); assert(j == 0); }
    }
}
pub open spec fn up(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, x: int) -> int { 2 * fd(h, sw, cs, r + 1, x / 2) + x % 2 }
pub proof fn up_props(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int) requires 0 <= n2 <= n, 0 <= r, claim(n, n2, h, ts, sw, cs, r + 1)
    ensures forall|x: int| 0 <= x < en(n, r) ==> 0 <= #[trigger] up(h, sw, cs, r, x) < en(n, r) && (up(h, sw, cs, r, x) >= 2 * en(n2, r + 1) <==> (x / 2 < en(n, r + 1) ==> ts[r + 1].contains(x / 2))),
        forall|x: int| x >= en(n, r) ==> #[trigger] up(h, sw, cs, r, x) == x,
        forall|x: int, y: int| 0 <= x && 0 <= y && #[trigger] up(h, sw, cs, r, x) == #[trigger] up(h, sw, cs, r, y) ==> x == y,
        forall|x: int, y: int| 0 <= x && 0 <= y && #[trigger] fd(h, sw, cs, r + 1, x) == #[trigger] fd(h, sw, cs, r + 1, y) ==> x == y,
        forall|x: int| #[trigger] up(h, sw, cs, r, x) % 2 == x % 2 && up(h, sw, cs, r, x) / 2 == fd(h, sw, cs, r + 1, x / 2),
{
    en_half(n, r); en_half(n2, r); en_mono(n, n2, r + 1);
    assert forall|x: int| 0 <= x < en(n, r) implies 0 <= #[trigger] up(h, sw, cs, r, x) < en(n, r) && (up(h, sw, cs, r, x) >= 2 * en(n2, r + 1) <==> (x / 2 < en(n, r + 1) ==> ts[r + 1].contains(x / 2))) by {
        if x / 2 < en(n, r + 1) { let y = fd(h, sw, cs, r + 1, x / 2); assert(0 <= y < en(n, r + 1)); } else { assert(fd(h, sw, cs, r + 1, x / 2) == x / 2); }
    }
    assert forall|x: int| x >= en(n, r) implies #[trigger] up(h, sw, cs, r, x) == x by { assert(x / 2 >= en(n, r + 1)); }
    assert forall|x: int, y: int| 0 <= x && 0 <= y && #[trigger] fd(h, sw, cs, r + 1, x) == #[trigger] fd(h, sw, cs, r + 1, y) implies x == y by {
        if x < en(n, r + 1) { assert(fd(h, sw, cs, r + 1, x) < en(n, r + 1)); } if y < en(n, r + 1) { assert(fd(h, sw, cs, r + 1, y) < en(n, r + 1)); }
        if x < y && y < en(n, r + 1) { } if y < x && x < en(n, r + 1) { }
    }
    assert forall|x: int, y: int| 0 <= x && 0 <= y && #[trigger] up(h, sw, cs, r, x) == #[trigger] up(h, sw, cs, r, y) implies x == y by { assert(fd(h, sw, cs, r + 1, x / 2) == fd(h, sw, cs, r + 1, y / 2)); assert(x % 2 == y % 2); }
}
pub proof fn up_lf(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, t: int) ensures up(h, sw, cs, r, t) == lf(h, sw, cs, r + 1, 1, t) { hide(fd); p2_vals(); let f = fd(h, sw, cs, r + 1, t / 2); assert(p2(1) == 2); assert(lf(h, sw, cs, r + 1, 1, t) == f * 2 + t % 2); }
pub proof fn fd_up(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, j: int) requires 0 <= r < sw.len() ensures fd(h, sw, cs, r, j) == up(h, sw, cs, r, capp(h, r, cs[r], app(h, r, sw[r]@, sw[r]@.len() as int, j))) {}
/// the leaves of a row, one by one
pub proof fn claim_in(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, j: int)
    requires 0 <= n2 <= n, 0 <= r < sw.len(), rows_all(n, n2, h, ts, sw, cs), claim(n, n2, h, ts, sw, cs, r + 1), final_to(n, n2, h, sw, cs, r),
        0 <= j < en(n, r)
    ensures 0 <= fd(h, sw, cs, r, j) < en(n, r), ts[r].contains(j) <==> fd(h, sw, cs, r, j) >= en(n2, r)
{
    hide(fd); hide(app); en_half(n, r); en_half(n2, r); en_mono(n, n2, r); up_props(n, n2, h, ts, sw, cs, r);
    let s = sw[r]@; let c = cs[r]; let l = s.len() as int; assert(row_ok(n, n2, h, r, ts[r], ts[r + 1], s, c));
    let f = sA(h, r, c); let t = sB(h, r, c); if c.m_collapse { up_lf(h, sw, cs, r, t); assert(up(h, sw, cs, r, t) == en(n2, r) - 1); app_miss(h, r, s, l, f); }
    fd_up(h, sw, cs, r, j); app_all(n, h, r, s, j); let y = app(h, r, s, l, j); let z = capp(h, r, c, y);
    assert(ts[r].contains(j) <==> dead2(n, h, r, ts[r + 1], c, y));
    assert(0 <= up(h, sw, cs, r, z) < en(n, r));
    if c.m_collapse {
        if y == f { assert(z == t); } else if y == t { assert(z == f); assert(up(h, sw, cs, r, f) >= 2 * en(n2, r + 1)); assert(up(h, sw, cs, r, f) != up(h, sw, cs, r, t)); assert(up(h, sw, cs, r, y) >= 2 * en(n2, r + 1)); } else { assert(z == y); assert(up(h, sw, cs, r, y) != up(h, sw, cs, r, t)); }
    }
}
pub proof fn claim_out(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, j: int)
    requires 0 <= n2 <= n, 0 <= r < sw.len(), rows_all(n, n2, h, ts, sw, cs), claim(n, n2, h, ts, sw, cs, r + 1), final_to(n, n2, h, sw, cs, r),
        j >= en(n, r)
    ensures fd(h, sw, cs, r, j) == j
{
    hide(fd); hide(app); en_half(n, r); en_half(n2, r); en_mono(n, n2, r); up_props(n, n2, h, ts, sw, cs, r); let s = sw[r]@; let c = cs[r]; assert(row_ok(n, n2, h, r, ts[r], ts[r + 1], s, c)); fd_up(h, sw, cs, r, j); app_all(n, h, r, s, j);
    let y = app(h, r, s, s.len() as int, j); assert(y == j); assert(capp(h, r, c, y) == j); assert(up(h, sw, cs, r, j) == j);
}
pub proof fn claim_inj(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, i: int, j: int)
    requires 0 <= n2 <= n, 0 <= r < sw.len(), rows_all(n, n2, h, ts, sw, cs), claim(n, n2, h, ts, sw, cs, r + 1), final_to(n, n2, h, sw, cs, r),
        0 <= i < j < en(n, r)
    ensures fd(h, sw, cs, r, i) != fd(h, sw, cs, r, j)
{
    hide(fd); hide(app); en_half(n, r); en_half(n2, r); en_mono(n, n2, r); up_props(n, n2, h, ts, sw, cs, r); let s = sw[r]@; let c = cs[r]; let l = s.len() as int; assert(row_ok(n, n2, h, r, ts[r], ts[r + 1], s, c)); fd_up(h, sw, cs, r, i); fd_up(h, sw, cs, r, j);
    app_all(n, h, r, s, i); app_all(n, h, r, s, j); let yi = app(h, r, s, l, i); let yj = app(h, r, s, l, j); assert(yi != yj); assert(capp(h, r, c, yi) != capp(h, r, c, yj));
}
pub proof fn claim_step(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int)
    requires 0 <= n2 <= n, 0 <= r < sw.len(), rows_all(n, n2, h, ts, sw, cs), claim(n, n2, h, ts, sw, cs, r + 1), final_to(n, n2, h, sw, cs, r),
    ensures claim(n, n2, h, ts, sw, cs, r)
{
    hide(fd); hide(app); hide(rows_all); hide(final_to);
    assert forall|j: int| 0 <= j < en(n, r) implies 0 <= #[trigger] fd(h, sw, cs, r, j) < en(n, r) && (ts[r].contains(j) <==> fd(h, sw, cs, r, j) >= en(n2, r)) by { claim_in(n, n2, h, ts, sw, cs, r, j); }
    assert forall|j: int| j >= en(n, r) implies #[trigger] fd(h, sw, cs, r, j) == j by { claim_out(n, n2, h, ts, sw, cs, r, j); }
    assert forall|i: int, j: int| 0 <= i < j < en(n, r) implies #[trigger] fd(h, sw, cs, r, i) != #[trigger] fd(h, sw, cs, r, j) by { claim_inj(n, n2, h, ts, sw, cs, r, i, j); }
}
/// collapses below a row do not matter for it
pub proof fn fd_frame(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, cs2: Seq<Swap>, r: int, j: int) requires 0 <= r, cs.len() == cs2.len(), forall|q: int| r <= q < cs.len() ==> cs[q] == cs2[q], cs.len() == sw.len()
    ensures fd(h, sw, cs, r, j) == fd(h, sw, cs2, r, j) decreases sw.len() - r
{ if r < sw.len() { let x = capp(h, r, cs[r], app(h, r, sw[r]@, sw[r]@.len() as int, j)); fd_frame(h, sw, cs, cs2, r + 1, x / 2); } }
/// splitting off one row: x / 2^(d+1) and x % 2^(d+1)
pub proof fn split_row(x: int, d: int) requires x >= 0, d >= 0
    ensures x / p2((d + 1) as nat) as int == (x / p2(d as nat) as int) / 2, x % p2((d + 1) as nat) as int == ((x / p2(d as nat) as int) % 2) * p2(d as nat) + x % p2(d as nat) as int, x / p2(d as nat) as int >= 0, x == (x / p2(d as nat) as int) * p2(d as nat) + x % p2(d as nat) as int, 0 <= x % p2(d as nat) as int, x % (p2(d as nat) as int) < p2(d as nat)
{
    let w = p2(d as nat) as int; p2_pos(d as nat); p2_pos((d + 1) as nat); let q = x / w; vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, w); div_div(x, w, 2); assert(p2((d + 1) as nat) == w * 2);
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, w); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, w * 2); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, 2); vstd::arithmetic::div_mod::lemma_mod_bound(x, w);
    let p = q / 2; let m = q % 2; assert(q == 2 * p + m); assert(w * q == (w * 2) * p + m * w) by(nonlinear_arith) requires q == 2 * p + m; assert(w * q == q * w) by(nonlinear_arith);
}
pub proof fn join(y: int, w: int, m: int) requires w > 0, 0 <= m < w, y >= 0 ensures (y * w + m) / w == y, (y * w + m) % w == m, y * w + m >= 0
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(y * w + m, w, y, m); assert(y * w >= 0) by(nonlinear_arith) requires y >= 0, w > 0; }
/// lf in terms of the row below
pub proof fn lf_up(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, d: int, x: int) requires x >= 0, d >= 0, r >= 0
    ensures lf(h, sw, cs, r + 1, d + 1, x) == up(h, sw, cs, r, x / p2(d as nat) as int) * p2(d as nat) + x % p2(d as nat) as int
{
    split_row(x, d); let w = p2(d as nat) as int; let y = x / w; let g = fd(h, sw, cs, r + 1, y / 2); let m = y % 2;
    assert(g * (2 * w) + m * w == (2 * g + m) * w) by(nonlinear_arith); 
}
pub proof fn lf_one(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int, x: int) ensures lf(h, sw, cs, r + 1, 1, x) == up(h, sw, cs, r, x) { let d: int = 1; let w = p2(d as nat) as int; assert(w == 2) by { p2_vals(); } let g = fd(h, sw, cs, r + 1, x / w); assert(g * w == 2 * g) by(nonlinear_arith) requires w == 2; }
pub proof fn en_desc(n: int, k: int, d: int) requires n >= 0, k >= 0, d >= 0 ensures en(n, k + d) == en(n, k) / p2(d as nat) as int { anc_div(n, k as nat, d as nat); }
/// the row index of a target position lies below en exactly when the ancestor does or sits at the end
pub proof fn en_low(n: int, k: int, d: int, x: int) requires n >= 0, k >= 0, d >= 0, 0 <= x, x / (p2(d as nat) as int) < en(n, k + d) ensures x < en(n, k)
{ let w = p2(d as nat) as int; p2_pos(d as nat); en_desc(n, k, d); let q = en(n, k); let e = q / w; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(q, w); vstd::arithmetic::div_mod::lemma_mod_bound(q, w); split_row(x, d); let y = x / w; assert((y + 1) * w <= e * w) by(nonlinear_arith) requires y + 1 <= e, w >= 1; assert((y + 1) * w == y * w + w) by(nonlinear_arith); assert(e * w == w * e) by(nonlinear_arith); }
/// One row's swaps and collapse are applied to a collapse target below: it still leads to the new root's place
pub proof fn conv_step(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, row: int, k: int, t: int, t2: int)
    requires 0 <= n2 <= n, 0 <= k < row < sw.len(), rows_all(n, n2, h, ts, sw, cs), claim(n, n2, h, ts, sw, cs, row + 1), final_to(n, n2, h, sw, cs, row), bit(n2, k),
        0 <= t < en(n, k), lf(h, sw, cs, row + 1, row + 1 - k, t) == en(n2, k) - 1,
        t2 == capp(h, row, cs[row], app(h, row, sw[row]@, sw[row]@.len() as int, t / p2((row - k) as nat) as int)) * p2((row - k) as nat) + t % p2((row - k) as nat) as int,
    ensures 0 <= t2 < en(n, k), lf(h, sw, cs, row, row - k, t2) == en(n2, k) - 1
{
    let d = row - k; let w = p2(d as nat) as int; p2_pos(d as nat); split_row(t, d); let y = t / w; let s = sw[row]@; let l = s.len() as int; let c = cs[row]; assert(row_ok(n, n2, h, row, ts[row], ts[row + 1], s, c));
    let y1 = app(h, row, s, l, y); let y2 = capp(h, row, c, y1); let f = sA(h, row, c); let ct = sB(h, row, c);
    app_all(n, h, row, s, y); app_all(n, h, row, s, ct); en_half(n, row); en_half(n2, row); en_mono(n, n2, row); up_props(n, n2, h, ts, sw, cs, row); lf_up(h, sw, cs, row, d, t);
    let g = up(h, sw, cs, row, y);
    assert(g == en(n2, row)) by {
        en_half(n2, k); en_desc(n2, k, d); en_desc(n2, k + 1, d - 1); let e = 2 * en(n2, k + 1); p2_pos((d - 1) as nat);
        assert(e == g * w + t % w); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(e, w, g, t % w); 
        assert(w == 2 * p2((d - 1) as nat)); div_div(e, 2, p2((d - 1) as nat) as int); assert(e / 2 == en(n2, k + 1));
    }
    // the row's swaps and its collapse undo themselves on y2
    assert(capp(h, row, c, app(h, row, s, l, y2)) == y && (y >= en(n, row) ==> y2 == y) && (y < en(n, row) ==> 0 <= y2 < en(n, row))) by {
        if y < en(n, row) && c.m_collapse {
            assert(p2(1) == 2) by { p2_vals(); } assert(lf(h, sw, cs, row + 1, 1, ct) == en(n2, row) - 1); lf_one(h, sw, cs, row, ct); assert(up(h, sw, cs, row, ct) == en(n2, row) - 1);
            assert(fd(h, sw, cs, row + 1, y / 2) == fd(h, sw, cs, row + 1, ct / 2)); assert(y / 2 == ct / 2); assert(y == ct + 1 && ct % 2 == 0);
            app_miss(h, row, s, l, f);
            if y == f { assert(sib(f) == ct); app_miss(h, row, s, l, ct); assert(y1 == f); assert(y2 == ct); } else { assert(y1 != f); assert(y1 != ct) by { assert(sib(y) == ct); } assert(y2 == y1); assert(capp(h, row, c, y) == y); }
        } else if y < en(n, row) { assert(y2 == y1); } else { assert(y1 == y); assert(y2 == y); assert(app(h, row, s, l, y) == y); }
        assert(y >= en(n, row) ==> y2 == y); assert(y < en(n, row) ==> 0 <= y2 < en(n, row)); assert(y < en(n, row) && !c.m_collapse ==> capp(h, row, c, app(h, row, s, l, y2)) == y); 
        assert(y < en(n, row) && c.m_collapse ==> capp(h, row, c, app(h, row, s, l, y2)) == y); assert(y >= en(n, row) ==> capp(h, row, c, app(h, row, s, l, y2)) == y);
    }
    join(y2, w, t % w);
    assert(fd(h, sw, cs, row, y2) == g);
    if y < en(n, row) { en_low(n, k, d, t2); }
}
/// what the transformation achieves
pub open spec fn trans_ok(n: int, n2: int, h: int, t: Seq<int>, sw: Seq<Vec<Swap>>) -> bool {
    sw.len() <= h
    && (forall|q: int, m: int| 0 <= q < sw.len() && 0 <= m < sw[q]@.len() ==> swap_ok(n, n2, h, sw, q, #[trigger] sw[q]@[m]))
    && perm_ok(n, n2, h, t, sw)
}
/// the swap exchanges two different existing nodes of the row; the parents it breaks are deleted at the end, except that of `to` for a swap that is no collapse
pub open spec fn swap_ok(n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, q: int, s: Swap) -> bool {
    let a = sA(h, q, s); let b = sB(h, q, s);
    !s.m_is_range_swap && 0 <= a < en(n, q) && 0 <= b < en(n, q) && a != b
    && (a / 2 < en(n, q + 1) ==> dest(h, sw, q + 1, a / 2) >= en(n2, q + 1))
    && (s.m_collapse ==> (b / 2 < en(n, q + 1) ==> dest(h, sw, q + 1, b / 2) >= en(n2, q + 1)))
    && (!s.m_collapse ==> b / 2 < en(n, q + 1))
}
/// a permutation of the leaves that moves exactly the targets behind the first n2 leaves
pub open spec fn perm_ok(n: int, n2: int, h: int, t: Seq<int>, sw: Seq<Vec<Swap>>) -> bool {
    (forall|j: int| 0 <= j < n ==> 0 <= #[trigger] dest(h, sw, 0, j) < n && (t.contains(j) <==> dest(h, sw, 0, j) >= n2))
    && (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] dest(h, sw, 0, i) != #[trigger] dest(h, sw, 0, j))
}
/// the collapses appended to the swaps of their rows
pub open spec fn appended(sw: Seq<Vec<Swap>>, cs: Seq<Swap>, fin: Seq<Vec<Swap>>, k: int) -> bool {
    fin.len() == sw.len() && (forall|q: int| 0 <= q < sw.len() ==> (#[trigger] fin[q])@ == if q < k && cs[q].m_collapse && cs[q].m_from != cs[q].m_to { sw[q]@.push(cs[q]) } else { sw[q]@ })
}
pub proof fn app_push_(h: int, r: int, sw: Seq<Swap>, c: Swap, k: int, j: int) requires 0 <= k <= sw.len() ensures app(h, r, sw.push(c), k, j) == app(h, r, sw, k, j) decreases k { if k > 0 { app_push_(h, r, sw, c, k - 1, j); } }
pub proof fn dest_fd(h: int, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, fin: Seq<Vec<Swap>>, r: int, j: int) requires 0 <= r, appended(sw, cs, fin, sw.len() as int), cs.len() == sw.len() ensures dest(h, fin, r, j) == fd(h, sw, cs, r, j) decreases sw.len() - r
{
    if r < sw.len() {
        let x = capp(h, r, cs[r], app(h, r, sw[r]@, sw[r]@.len() as int, j)); dest_fd(h, sw, cs, fin, r + 1, x / 2); app_push_(h, r, sw[r]@, cs[r], sw[r]@.len() as int, j);
        assert(app(h, r, fin[r]@, fin[r]@.len() as int, j) == x);
    }
}
pub proof fn trans_done(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, fin: Seq<Vec<Swap>>)
    requires 0 <= n2 <= n <= p2(h as nat), 0 <= h, rows_all(n, n2, h, ts, sw, cs), ended(n, n2, h, ts), forall|q: int| 0 <= q < sw.len() ==> final_to(n, n2, h, sw, cs, q), appended(sw, cs, fin, sw.len() as int)
    ensures trans_ok(n, n2, h, ts[0], fin)
{
    all_claims(n, n2, h, ts, sw, cs, 0);
    assert forall|r: int, j: int| 0 <= r implies #[trigger] dest(h, fin, r, j) == fd(h, sw, cs, r, j) by { dest_fd(h, sw, cs, fin, r, j); }
    assert forall|q: int, m: int| 0 <= q < fin.len() && 0 <= m < fin[q]@.len() implies swap_ok(n, n2, h, fin, q, #[trigger] fin[q]@[m]) by {
        all_claims(n, n2, h, ts, sw, cs, q + 1); assert(row_ok(n, n2, h, q, ts[q], ts[q + 1], sw[q]@, cs[q])); let s = fin[q]@[m]; let a = sA(h, q, s); let b = sB(h, q, s); en_half(n, q); en_half(n2, q); 
        if m < sw[q]@.len() { assert(s == sw[q]@[m]); if a / 2 < en(n, q + 1) { assert(fd(h, sw, cs, q + 1, a / 2) >= en(n2, q + 1)); } }
        else { assert(s == cs[q]); assert(final_to(n, n2, h, sw, cs, q)); assert(p2(1) == 2) by { p2_vals(); } if a / 2 < en(n, q + 1) { assert(fd(h, sw, cs, q + 1, a / 2) >= en(n2, q + 1)); } assert(fd(h, sw, cs, q + 1, b / 2) == en(n2, q + 1)); }
    }
    assert(p2(0) == 1); assert(n / 1 == n && n2 / 1 == n2); assert(en(n, 0) == n && en(n2, 0) == n2);
}
pub proof fn all_claims(n: int, n2: int, h: int, ts: Seq<Seq<int>>, sw: Seq<Vec<Swap>>, cs: Seq<Swap>, r: int)
    requires 0 <= n2 <= n <= p2(h as nat), 0 <= r <= sw.len(), rows_all(n, n2, h, ts, sw, cs), ended(n, n2, h, ts), forall|q: int| r <= q < sw.len() ==> final_to(n, n2, h, sw, cs, q)
    ensures claim(n, n2, h, ts, sw, cs, r) decreases sw.len() - r
{ if r == sw.len() { claim_end(n, n2, h, ts, sw, cs); } else { all_claims(n, n2, h, ts, sw, cs, r + 1); claim_step(n, n2, h, ts, sw, cs, r); } }
