// ---------------------------------------------------------------------------
// Removing leaves (C08): what holds between the swaps and the rehashing of the rows
// ---------------------------------------------------------------------------
/// the node holds the hash of its children
pub open spec fn good(f: RamForest, q: int, y: int) -> bool { dat(f, q, y) == phash(dat(f, q - 1, 2 * y), dat(f, q - 1, 2 * y + 1)) }
pub open spec fn rowsw(sw: Seq<Vec<Swap>>, r: int) -> Seq<Swap> { if 0 <= r < sw.len() { sw[r]@ } else { Seq::empty() } }
/// where the swaps m.. of the row leave the node that is at index j now
pub open spec fn later(h: int, r: int, s: Seq<Swap>, m: int, j: int) -> int decreases s.len() - m { if m >= s.len() { j } else { later(h, r, s, m + 1, xch(sA(h, r, s[m]), sB(h, r, s[m]), j)) } }
/// where the remaining swaps (m.. of row R, and the rows above) leave the node that is at (q,y) now
pub open spec fn fin(h: int, sw: Seq<Vec<Swap>>, R: int, m: int, q: int, y: int) -> int {
    let w = p2((R - q) as nat) as int; let t = later(h, R, rowsw(sw, R), m, y / w); (2 * dest(h, sw, R + 1, t / 2) + t % 2) * w + y % w
}
pub proof fn later_app(h: int, r: int, s: Seq<Swap>, m: int, j: int) requires 0 <= m <= s.len() ensures later(h, r, s, m, app(h, r, s, m, j)) == app(h, r, s, s.len() as int, j) decreases s.len() - m
{ if m < s.len() { later_app(h, r, s, m + 1, j); assert(app(h, r, s, m + 1, j) == xch(sA(h, r, s[m]), sB(h, r, s[m]), app(h, r, s, m, j))); } }
pub proof fn xch_twice(a: int, b: int, j: int) ensures xch(a, b, xch(a, b, j)) == j { }
pub proof fn parts(z: int, w: int, c: int) requires w >= 1, 0 <= c < w ensures (z * w + c) / w == z, (z * w + c) % w == c { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(z * w + c, w, z, c); }
pub proof fn fin_step(h: int, sw: Seq<Vec<Swap>>, R: int, m: int, q: int, y: int)
    requires 0 <= q <= R < sw.len(), 0 <= m < sw[R]@.len(), y >= 0
    ensures fin(h, sw, R, m + 1, q, y) == fin(h, sw, R, m, q, mv(R - q, sA(h, R, sw[R]@[m]), sB(h, R, sw[R]@[m]), y))
{
    let a = sA(h, R, sw[R]@[m]); let b = sB(h, R, sw[R]@[m]); let w = p2((R - q) as nat) as int; p2_pos((R - q) as nat); let z = xch(a, b, y / w);
    vstd::arithmetic::div_mod::lemma_mod_bound(y, w); parts(z, w, y % w); xch_twice(a, b, y / w);
    assert(later(h, R, sw[R]@, m, z) == later(h, R, sw[R]@, m + 1, xch(a, b, z)));
}
pub proof fn fin_next(h: int, sw: Seq<Vec<Swap>>, R: int, q: int, y: int) requires 0 <= q <= R, y >= 0 ensures fin(h, sw, R, rowsw(sw, R).len() as int, q, y) == fin(h, sw, R + 1, 0, q, y)
{
    let d = R - q; let w = p2(d as nat) as int; p2_pos(d as nat); split_row(y, d); let t = y / w; assert(p2((d + 1) as nat) == 2 * w); let t2 = y / p2((d + 1) as nat) as int; assert(t2 == t / 2);
    let s = rowsw(sw, R + 1); let x = later(h, R + 1, s, 0, t2); later_app(h, R + 1, s, 0, t2); assert(x == app(h, R + 1, s, s.len() as int, t2));
    let e = 2 * dest(h, sw, R + 2, x / 2) + x % 2;
    assert(dest(h, sw, R + 1, t2) == e);
    assert((2 * e + t % 2) * w == e * (2 * w) + (t % 2) * w) by(nonlinear_arith);
}
pub proof fn fin_top(h: int, sw: Seq<Vec<Swap>>, R: int, y: int) requires R >= 0 ensures fin(h, sw, R, 0, R, y) == dest(h, sw, R, y)
{
    assert(p2(0) == 1); assert(y / 1 == y && y % 1 == 0); let s = rowsw(sw, R); later_app(h, R, s, 0, y); let x = later(h, R, s, 0, y); let e = 2 * dest(h, sw, R + 1, x / 2) + x % 2; assert(e * 1 == e); 
    assert(dest(h, sw, R, y) == e);
}
/// after the last row nothing moves
pub proof fn fin_end(h: int, sw: Seq<Vec<Swap>>, R: int, m: int, q: int, y: int) requires sw.len() <= R, 0 <= q <= R, m >= 0, y >= 0 ensures fin(h, sw, R, m, q, y) == y
{ let w = p2((R - q) as nat) as int; p2_pos((R - q) as nat); split_row(y, R - q); let t = y / w; assert(dest(h, sw, R + 1, t / 2) == t / 2); assert(2 * (t / 2) + t % 2 == t); }
pub proof fn mv_ex(n: int, R: int, q: int, a: int, b: int, y: int) requires n >= 0, 0 <= q <= R, ex(n, R, a), ex(n, R, b), ex(n, q, y) ensures ex(n, q, mv(R - q, a, b, y))
{
    let w = p2((R - q) as nat) as int; p2_pos((R - q) as nat); split_row(y, R - q); let c = y % w; vstd::arithmetic::div_mod::lemma_mod_bound(y, w); let p = p2(q as nat) as int; p2_pos(q as nat);
    ex_below(n, R, a, q); ex_below(n, R, b, q); let z = xch(a, b, y / w);
    if z != y / w { assert(z == a || z == b); assert((z * w + c + 1) * p <= (z * w + w - 1 + 1) * p) by(nonlinear_arith) requires c + 1 <= w, p >= 1; assert(z * w >= 0) by(nonlinear_arith) requires z >= 0, w >= 1; }
}
/// the children of a moved node move along
pub proof fn mv_child(d: int, a: int, b: int, y: int) requires d >= 0, y >= 0 ensures mv(d + 1, a, b, 2 * y) == 2 * mv(d, a, b, y), mv(d + 1, a, b, 2 * y + 1) == 2 * mv(d, a, b, y) + 1
{
    let w = p2(d as nat) as int; p2_pos(d as nat); let z = y / w; let c = y % w; vstd::arithmetic::div_mod::lemma_mod_bound(y, w); vstd::arithmetic::div_mod::lemma_fundamental_div_mod(y, w); assert(p2((d + 1) as nat) == 2 * w);
    assert(2 * y == z * (2 * w) + 2 * c) by(nonlinear_arith) requires y == w * z + c; 
    parts(z, 2 * w, 2 * c); parts(z, 2 * w, 2 * c + 1); let x = xch(a, b, z); assert(x * (2 * w) == 2 * (x * w)) by(nonlinear_arith);
}
/// between the swaps of row R: the nodes that survive are hashed, but for the parents in dl
pub open spec fn rem_low(f: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, m: int) -> bool { forall|q: int, y: int| 1 <= q <= R && #[trigger] ex(n, q, y) && fin(h, sw, R, m, q, y) < en(n2, q) ==> good(f, q, y) }
pub open spec fn rem_hash(f: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, m: int, dl: Seq<int>) -> bool {
    rem_low(f, n, n2, h, sw, R, m)
    && (forall|y: int| #[trigger] ex(n, R + 1, y) && dest(h, sw, R + 1, y) < en(n2, R + 1) ==> good(f, R + 1, y) || dl.contains(y))
    && (forall|q: int, y: int| q >= R + 2 && #[trigger] ex(n, q, y) ==> good(f, q, y))
}
/// between the swaps: every leaf is where the remaining swaps take it to its destination
pub open spec fn rem_leaf(f: RamForest, f0: RamForest, n: int, h: int, sw: Seq<Vec<Swap>>, R: int, m: int) -> bool { forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] dest(h, sw, 0, x) == #[trigger] fin(h, sw, R, m, 0, y) ==> dat(f, 0, y) == dat(f0, 0, x) }
/// while the row above R is rehashed: done up to the j-th of dl, the parents still to do in nd
pub open spec fn rem_mid(f: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, dl: Seq<int>, j: int, nd: Seq<int>) -> bool {
    rem_low(f, n, n2, h, sw, R, rowsw(sw, R).len() as int)
    && (forall|y: int| #[trigger] ex(n, R + 1, y) && dest(h, sw, R + 1, y) < en(n2, R + 1) ==> good(f, R + 1, y) || dl.subrange(j, dl.len() as int).contains(y))
    && (forall|y: int| #[trigger] ex(n, R + 2, y) ==> good(f, R + 2, y) || nd.contains(y))
    && (forall|q: int, y: int| q >= R + 3 && #[trigger] ex(n, q, y) ==> good(f, q, y))
}
pub proof fn rem_start(f: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>) requires hashes_ok(f, n), perm_ok(n, n2, h, Seq::empty(), sw) || (forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] dest(h, sw, 0, i) != #[trigger] dest(h, sw, 0, j)) ensures rem_hash(f, n, n2, h, sw, 0, 0, Seq::empty()), rem_leaf(f, f, n, h, sw, 0, 0)
{ assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] dest(h, sw, 0, x) == #[trigger] fin(h, sw, 0, 0, 0, y) implies dat(f, 0, y) == dat(f, 0, x) by { fin_top(h, sw, 0, y); assert(dest(h, sw, 0, y) == dest(h, sw, 0, x)); if x < y { assert(dest(h, sw, 0, x) != dest(h, sw, 0, y)); } if y < x { assert(dest(h, sw, 0, y) != dest(h, sw, 0, x)); } } 
  assert forall|q: int, y: int| q >= 1 && #[trigger] ex(n, q, y) implies good(f, q, y) by { } }
pub proof fn mv_zero(a: int, b: int, u: int) requires u >= 0 ensures mv(0, a, b, u) == xch(a, b, u) { assert(p2(0) == 1); assert(u / 1 == u && u % 1 == 0); let x = xch(a, b, u); assert(x * 1 == x); }
pub open spec fn swap_in(f: RamForest, g: RamForest, n: int, R: int, a: int, b: int) -> bool { sub_swapped(f, g, R, a, b) && rows_ok(f, n) && rows_ok(g, n) && n >= 0 && ex(n, R, a) && ex(n, R, b) }
pub proof fn swap_low(f: RamForest, g: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, m: int)
    requires 0 <= R < sw.len(), 0 <= m < sw[R]@.len(), swap_in(f, g, n, R, sA(h, R, sw[R]@[m]), sB(h, R, sw[R]@[m])), rem_low(f, n, n2, h, sw, R, m)
    ensures rem_low(g, n, n2, h, sw, R, m + 1)
{
    let a = sA(h, R, sw[R]@[m]); let b = sB(h, R, sw[R]@[m]);
    assert forall|q: int, y: int| 1 <= q <= R && #[trigger] ex(n, q, y) && fin(h, sw, R, m + 1, q, y) < en(n2, q) implies good(g, q, y) by {
        fin_step(h, sw, R, m, q, y); mv_ex(n, R, q, a, b, y); let y2 = mv(R - q, a, b, y); assert(good(f, q, y2)); mv_child(R - q, a, b, y); ex_down(n, q, y);
        assert(has(g, q, y)); assert(has(g, q - 1, 2 * y)); assert(has(g, q - 1, 2 * y + 1)); 
        assert(dat(g, q, y) == dat(f, q, y2)); assert(dat(g, q - 1, 2 * y) == dat(f, q - 1, 2 * y2)); assert(dat(g, q - 1, 2 * y + 1) == dat(f, q - 1, 2 * y2 + 1));
    }
}
pub proof fn swap_leaf(f: RamForest, g: RamForest, f0: RamForest, n: int, h: int, sw: Seq<Vec<Swap>>, R: int, m: int)
    requires 0 <= R < sw.len(), 0 <= m < sw[R]@.len(), swap_in(f, g, n, R, sA(h, R, sw[R]@[m]), sB(h, R, sw[R]@[m])), rem_leaf(f, f0, n, h, sw, R, m)
    ensures rem_leaf(g, f0, n, h, sw, R, m + 1)
{
    let a = sA(h, R, sw[R]@[m]); let b = sB(h, R, sw[R]@[m]);
    assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] dest(h, sw, 0, x) == #[trigger] fin(h, sw, R, m + 1, 0, y) implies dat(g, 0, y) == dat(f0, 0, x) by {
        ex0(n, y); fin_step(h, sw, R, m, 0, y); mv_ex(n, R, 0, a, b, y); let y2 = mv(R - 0, a, b, y); ex0(n, y2); assert(has(g, 0, y)); assert(dat(g, 0, y) == dat(f, 0, y2)); assert(fin(h, sw, R, m, 0, y2) == dest(h, sw, 0, x)); }
}
pub proof fn swap_high(f: RamForest, g: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, m: int, dl: Seq<int>, dl2: Seq<int>)
    requires 0 <= R < sw.len(), 0 <= m < sw[R]@.len(), swap_in(f, g, n, R, sA(h, R, sw[R]@[m]), sB(h, R, sw[R]@[m])), swap_ok(n, n2, h, sw, R, sw[R]@[m]), rem_hash(f, n, n2, h, sw, R, m, dl),
        dl2 == if sw[R]@[m].m_collapse { dl } else { dl.push(sB(h, R, sw[R]@[m]) / 2) },
    ensures rem_hash(g, n, n2, h, sw, R, m + 1, dl2)
{
    swap_low(f, g, n, n2, h, sw, R, m);
    let a = sA(h, R, sw[R]@[m]); let b = sB(h, R, sw[R]@[m]);
    assert forall|y: int| #[trigger] ex(n, R + 1, y) && dest(h, sw, R + 1, y) < en(n2, R + 1) implies good(g, R + 1, y) || dl2.contains(y) by {
        ex_div(n, R + 1, y); ex_down(n, R + 1, y);
        if y == b / 2 { assert(!sw[R]@[m].m_collapse); assert(dl2[dl2.len() - 1] == y); }
        else {
            if dl.contains(y) { let k = dl.index_of(y); assert(dl2[k] == y); }
            mv_zero(a, b, 2 * y); mv_zero(a, b, 2 * y + 1); assert(R + 1 - 1 == R); let u = 2 * y; let v = 2 * y + 1; assert(ex(n, R, u) && ex(n, R, v));
            assert(has(g, R, u)); assert(has(g, R, v));
            assert(has(g, R + 1, y)); assert(R - R == 0);
            assert(mv(R - R, a, b, u) == u); assert(mv(R - R, a, b, v) == v);
            assert(dat(g, R, u) == dat(f, R, u)); assert(dat(g, R, v) == dat(f, R, v)); assert(g.m_data@[R + 1] == f.m_data@[R + 1]); assert(dat(g, R + 1, y) == dat(f, R + 1, y));
        }
    }
    assert forall|q: int, y: int| q >= R + 2 && #[trigger] ex(n, q, y) implies good(g, q, y) by { assert(has(f, q, y)); ex_down(n, q, y); assert(has(f, q - 1, 2 * y)); assert(g.m_data@[q] == f.m_data@[q]); assert(g.m_data@[q - 1] == f.m_data@[q - 1]); assert(good(f, q, y)); }
}
pub proof fn mid_start(f: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, dl: Seq<int>) requires rem_hash(f, n, n2, h, sw, R, rowsw(sw, R).len() as int, dl) ensures rem_mid(f, n, n2, h, sw, R, dl, 0, Seq::empty())
{ assert(dl.subrange(0, dl.len() as int) =~= dl); }
pub proof fn mid_step(f: RamForest, g: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, dl: Seq<int>, j: int, nd: Seq<int>, nd2: Seq<int>)
    requires rem_mid(f, n, n2, h, sw, R, dl, j, nd), R >= 0, 0 <= j < dl.len(), rows_ok(f, n), n >= 0, ex(n, R + 1, dl[j]), rehashed(f, g, R + 1, dl[j]), ex(n, R + 2, dl[j] / 2) ==> nd2.contains(dl[j] / 2), nd2 == nd || nd2 == nd.push(dl[j] / 2)
    ensures rem_mid(g, n, n2, h, sw, R, dl, j + 1, nd2)
{
    let i = dl[j]; let s = dl.subrange(j, dl.len() as int); let s2 = dl.subrange(j + 1, dl.len() as int); assert(has(f, R + 1, i));
    assert forall|q: int, y: int| 1 <= q <= R && #[trigger] ex(n, q, y) && fin(h, sw, R, rowsw(sw, R).len() as int, q, y) < en(n2, q) implies good(g, q, y) by { assert(good(f, q, y)); }
    assert forall|y: int| #[trigger] ex(n, R + 1, y) && dest(h, sw, R + 1, y) < en(n2, R + 1) implies good(g, R + 1, y) || s2.contains(y) by {
        ex_down(n, R + 1, y); ex_down(n, R + 1, i); assert(has(f, R + 1, y));
        if y != i && s.contains(y) { let k = s.index_of(y); assert(k != 0); assert(s2[k - 1] == y); }
    }
    assert forall|y: int| #[trigger] ex(n, R + 2, y) implies good(g, R + 2, y) || nd2.contains(y) by {
        if y == i / 2 { } else { ex_down(n, R + 2, y); if nd.contains(y) { let k = nd.index_of(y); assert(nd2[k] == y); } else { assert(good(f, R + 2, y)); } } }
    assert forall|q: int, y: int| q >= R + 3 && #[trigger] ex(n, q, y) implies good(g, q, y) by { assert(good(f, q, y)); }
}
pub proof fn mid_done(f: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, dl: Seq<int>, nd: Seq<int>) requires R >= 0, n >= 0, rem_mid(f, n, n2, h, sw, R, dl, dl.len() as int, nd) ensures rem_hash(f, n, n2, h, sw, R + 1, 0, nd)
{
    assert forall|q: int, y: int| 1 <= q <= R + 1 && #[trigger] ex(n, q, y) && fin(h, sw, R + 1, 0, q, y) < en(n2, q) implies good(f, q, y) by { if q == R + 1 { fin_top(h, sw, R + 1, y); assert(!dl.subrange(dl.len() as int, dl.len() as int).contains(y)); } else { fin_next(h, sw, R, q, y); } }
    assert(R + 1 + 1 == R + 2 && R + 1 + 2 == R + 3);
}
pub proof fn leaf_next(f: RamForest, f0: RamForest, n: int, h: int, sw: Seq<Vec<Swap>>, R: int) requires R >= 0, rem_leaf(f, f0, n, h, sw, R, rowsw(sw, R).len() as int) ensures rem_leaf(f, f0, n, h, sw, R + 1, 0)
{ assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] dest(h, sw, 0, x) == #[trigger] fin(h, sw, R + 1, 0, 0, y) implies dat(f, 0, y) == dat(f0, 0, x) by { fin_next(h, sw, R, 0, y); assert(dest(h, sw, 0, x) == fin(h, sw, R, rowsw(sw, R).len() as int, 0, y)); } }
/// the other leaves only: rehashing does not touch them
pub proof fn leaf_kept(f: RamForest, g: RamForest, f0: RamForest, n: int, h: int, sw: Seq<Vec<Swap>>, R: int, m: int, i: int) requires rem_leaf(f, f0, n, h, sw, R, m), R >= 0, rehashed(f, g, R + 1, i) ensures rem_leaf(g, f0, n, h, sw, R, m)
{ assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] dest(h, sw, 0, x) == #[trigger] fin(h, sw, R, m, 0, y) implies dat(g, 0, y) == dat(f0, 0, x) by { assert(dat(f, 0, y) == dat(f0, 0, x)); } }
/// every leaf at its destination
pub open spec fn moved_by(f: RamForest, g: RamForest, n: int, h: int, sw: Seq<Vec<Swap>>) -> bool { forall|j: int| 0 <= j < n ==> dat(g, 0, #[trigger] dest(h, sw, 0, j)) == dat(f, 0, j) }
pub proof fn rem_done(f: RamForest, f0: RamForest, n: int, n2: int, h: int, t: Seq<int>, sw: Seq<Vec<Swap>>, dl: Seq<int>)
    requires 0 <= n2 <= n <= p2(h as nat), h == nr(n as nat), trans_ok(n, n2, h, t, sw), rem_hash(f, n, n2, h, sw, h, 0, dl), rem_leaf(f, f0, n, h, sw, h, 0)
    ensures hashes_ok(f, n2), moved_by(f0, f, n, h, sw)
{
    assert forall|q: int, y: int| q >= 1 && #[trigger] ex(n2, q, y) implies dat(f, q, y) == phash(dat(f, q - 1, 2 * y), dat(f, q - 1, 2 * y + 1)) by { ex_mono(n2, n, q, y); ex_row(n, q, y); fin_end(h, sw, h, 0, q, y); ex_div(n2, q, y); assert(good(f, q, y)); }
    assert forall|j: int| 0 <= j < n implies dat(f, 0, #[trigger] dest(h, sw, 0, j)) == dat(f0, 0, j) by { let y = dest(h, sw, 0, j); assert(0 <= y < n); fin_end(h, sw, h, 0, 0, y); assert(fin(h, sw, h, 0, 0, y) == dest(h, sw, 0, j)); }
}
/// exchanging the subtrees and updating the position map
pub proof fn map_swap(f: RamForest, f1: RamForest, g: RamForest, n: int, R: int, a: int, b: int)
    requires n == f.m_num_leaves, map_ok(f, n), R >= 0, a >= 0, b >= 0, ex(n, R, a), ex(n, R, b), rows_ok(f, n), rows_ok(g, n), map_moved(f, f1, a * p2(R as nat), b * p2(R as nat), p2(R as nat) as int), same_but_map(f, f1), sub_swapped(f1, g, R, a, b), g.m_posmap == f1.m_posmap
    ensures map_ok(g, n), g.m_posmap@.dom() == f.m_posmap@.dom()
{
    let w = p2(R as nat) as int; p2_pos(R as nat);
    assert forall|i: int| 0 <= i < n implies dat(g, 0, i) == dat(f, 0, #[trigger] mv(R, a, b, i)) && 0 <= mv(R, a, b, i) < n && g.m_posmap@[dat(f, 0, i)] == mv(R, a, b, i) && mv(R, a, b, mv(R, a, b, i)) == i by {
        ex0(n, i); mv_xr(R, a, b, i); mv_ex(n, R, 0, a, b, i); ex0(n, mv(R, a, b, i)); assert(has(g, 0, i)); assert(dat(f1, 0, i) == dat(f, 0, i)); 
        mv_xr(R, a, b, mv(R, a, b, i)); ranges_apart(R, a, b); }
    assert forall|i: int| 0 <= i < n implies g.m_posmap@.contains_key(#[trigger] dat(g, 0, i)) && g.m_posmap@[dat(g, 0, i)] == i by { let z = mv(R, a, b, i); assert(mv(R, a, b, z) == i); assert(f.m_posmap@.contains_key(dat(f, 0, z))); }
    assert forall|k: H| #[trigger] g.m_posmap@.contains_key(k) implies g.m_posmap@[k] < n && dat(g, 0, g.m_posmap@[k] as int) == k by { assert(f.m_posmap@.contains_key(k)); let p = f.m_posmap@[k] as int; assert(dat(f, 0, p) == k); let z = mv(R, a, b, p); assert(g.m_posmap@[k] == z); assert(mv(R, a, b, z) == p); }
}
/// the handles of the nodes dl of a row
pub open spec fn nodes_at(f: RamForest, v: Seq<NP>, n: u64, r: int, dl: Seq<int>) -> bool { v.len() == dl.len() && (forall|k: int| 0 <= k < v.len() ==> node_at(f, #[trigger] v[k], n, r, dl[k])) }
pub proof fn nodes_keep(f: RamForest, g: RamForest, v: Seq<NP>, n: u64, r: int, dl: Seq<int>) requires nodes_at(f, v, n, r, dl), heap_kept(f, g) ensures nodes_at(g, v, n, r, dl) { assert forall|k: int| 0 <= k < v.len() implies node_at(g, #[trigger] v[k], n, r, dl[k]) by { assert(node_at(f, v[k], n, r, dl[k])); } }
pub proof fn nodes_none(f: RamForest, v: Seq<NP>, n: u64, r: int, dl: Seq<int>) requires nodes_at(f, v, n, r, dl), r == hh_of(n) + 1 ensures v.len() == 0 { if v.len() > 0 { assert(node_at(f, v[0], n, r, dl[0])); ex_row(n as int, r, dl[0]); } }
/// rows keep their length
pub proof fn rows_same(f: RamForest, g: RamForest, n: int) requires rows_ok(f, n), g.m_data@.len() == f.m_data@.len(), forall|q: int| 0 <= q < f.m_data@.len() ==> (#[trigger] g.m_data@[q])@.len() == f.m_data@[q]@.len() ensures rows_ok(g, n)
{ assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies has(g, r, i) by { assert(has(f, r, i)); assert(g.m_data@[r]@.len() == f.m_data@[r]@.len()); } }
pub proof fn map_rehash(f: RamForest, g: RamForest, n: int, r: int, i: int) requires map_ok(f, n), rehashed(f, g, r, i), r >= 1, g.m_posmap == f.m_posmap ensures map_ok(g, n)
{ assert forall|j: int| 0 <= j < n implies g.m_posmap@.contains_key(#[trigger] dat(g, 0, j)) && g.m_posmap@[dat(g, 0, j)] == j by { assert(dat(g, 0, j) == dat(f, 0, j)); } 
  assert forall|k: H| #[trigger] g.m_posmap@.contains_key(k) implies g.m_posmap@[k] < n && dat(g, 0, g.m_posmap@[k] as int) == k by { assert(dat(f, 0, f.m_posmap@[k] as int) == k); } }
pub open spec fn same_nodes(f: RamForest, g: RamForest) -> bool { g.m_data == f.m_data && g.m_posmap == f.m_posmap && g.m_num_leaves == f.m_num_leaves }
pub proof fn same_kept(f: RamForest, g: RamForest, f0: RamForest, n: int, h: int, sw: Seq<Vec<Swap>>, R: int, m: int) requires same_nodes(f, g), rows_ok(f, n), map_ok(f, n), rem_leaf(f, f0, n, h, sw, R, m) ensures rows_ok(g, n), map_ok(g, n), rem_leaf(g, f0, n, h, sw, R, m)
{ assert forall|x: int, y: int| 0 <= x < n && 0 <= y < n && #[trigger] dest(h, sw, 0, x) == #[trigger] fin(h, sw, R, m, 0, y) implies dat(g, 0, y) == dat(f0, 0, x) by { assert(dat(f, 0, y) == dat(f0, 0, x)); }
  assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies has(g, r, i) by { assert(has(f, r, i)); } 
  assert forall|j: int| 0 <= j < n implies g.m_posmap@.contains_key(#[trigger] dat(g, 0, j)) && g.m_posmap@[dat(g, 0, j)] == j by { assert(dat(g, 0, j) == dat(f, 0, j)); } }
pub proof fn same_mid(f: RamForest, g: RamForest, n: int, n2: int, h: int, sw: Seq<Vec<Swap>>, R: int, dl: Seq<int>, j: int, nd: Seq<int>) requires same_nodes(f, g), rem_mid(f, n, n2, h, sw, R, dl, j, nd) ensures rem_mid(g, n, n2, h, sw, R, dl, j, nd)
{
    assert forall|q: int, y: int| 1 <= q <= R && #[trigger] ex(n, q, y) && fin(h, sw, R, rowsw(sw, R).len() as int, q, y) < en(n2, q) implies good(g, q, y) by { assert(good(f, q, y)); }
    assert forall|y: int| #[trigger] ex(n, R + 1, y) && dest(h, sw, R + 1, y) < en(n2, R + 1) implies good(g, R + 1, y) || dl.subrange(j, dl.len() as int).contains(y) by { assert(good(f, R + 1, y) || dl.subrange(j, dl.len() as int).contains(y)); }
    assert forall|y: int| #[trigger] ex(n, R + 2, y) implies good(g, R + 2, y) || nd.contains(y) by { assert(good(f, R + 2, y) || nd.contains(y)); }
    assert forall|q: int, y: int| q >= R + 3 && #[trigger] ex(n, q, y) implies good(g, q, y) by { assert(good(f, q, y)); }
}
/// the outcome of a removal: the targets gone, every other leaf kept at its place in the order the transformation gives
pub open spec fn removed_by(f: RamForest, g: RamForest, t: Seq<u64>, sw: Seq<Vec<Swap>>) -> bool {
    let n = f.m_num_leaves as int; let h = hh_of(f.m_num_leaves); trans_ok(n, n - t.len(), h, ints(t), sw) && det(n, n - t.len(), h, ints(t), sw) && moved_by(f, g, n, h, sw)
}
pub open spec fn removed(f: RamForest, g: RamForest, t: Seq<u64>) -> bool {
    g.m_num_leaves == f.m_num_leaves - t.len() && forest_ok(g) && rows_ok(g, f.m_num_leaves as int) && (exists|sw: Seq<Vec<Swap>>| #[trigger] removed_by(f, g, t, sw))
    && (forall|x: H| #[trigger] g.m_posmap@.contains_key(x) <==> f.m_posmap@.contains_key(x) && !t.contains(f.m_posmap@[x]))
}
pub proof fn removed_is(f: RamForest, e: RamForest, g: RamForest, t: Seq<u64>, sw: Seq<Vec<Swap>>, n2: int)
    requires forest_ok(f), n2 == f.m_num_leaves - t.len(), n2 >= 0, trans_ok(f.m_num_leaves as int, n2, hh_of(f.m_num_leaves), ints(t), sw), det(f.m_num_leaves as int, n2, hh_of(f.m_num_leaves), ints(t), sw), hashes_ok(e, n2), moved_by(f, e, f.m_num_leaves as int, hh_of(f.m_num_leaves), sw), rows_ok(e, f.m_num_leaves as int), map_ok(e, f.m_num_leaves as int), e.m_posmap@.dom() == f.m_posmap@.dom(),
        g.m_data == e.m_data, g.m_num_leaves == n2, map_ok(g, n2), map_cut(e.m_posmap@, g.m_posmap@, n2, f.m_num_leaves as int), roots_ok(g, n2),
    ensures removed(f, g, t)
{
    let n = f.m_num_leaves as int; let h = hh_of(f.m_num_leaves);
    assert forall|r: int, i: int| r >= 1 && #[trigger] ex(n2, r, i) implies dat(g, r, i) == phash(dat(g, r - 1, 2 * i), dat(g, r - 1, 2 * i + 1)) by { assert(dat(e, r, i) == phash(dat(e, r - 1, 2 * i), dat(e, r - 1, 2 * i + 1))); }
    assert(rows_ok(g, n)) by { assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies has(g, r, i) by { assert(has(e, r, i)); } }
    rows_mono(g, n2, n);
    assert forall|j: int| 0 <= j < n implies dat(g, 0, #[trigger] dest(h, sw, 0, j)) == dat(f, 0, j) by { assert(dat(e, 0, dest(h, sw, 0, j)) == dat(f, 0, j)); }
    assert(removed_by(f, g, t, sw));
    assert forall|x: H| #[trigger] g.m_posmap@.contains_key(x) <==> f.m_posmap@.contains_key(x) && !t.contains(f.m_posmap@[x]) by {
        assert(g.m_posmap@.contains_key(x) <==> e.m_posmap@.contains_key(x) && !(n2 <= e.m_posmap@[x] < n));
        assert(e.m_posmap@.contains_key(x) <==> f.m_posmap@.contains_key(x)) by { assert(e.m_posmap@.dom().contains(x) <==> f.m_posmap@.dom().contains(x)); }
        if f.m_posmap@.contains_key(x) { let j = f.m_posmap@[x]; assert(dat(f, 0, j as int) == x); let d = dest(h, sw, 0, j as int); assert(0 <= d < n && (ints(t).contains(j as int) <==> d >= n2)); assert(dat(e, 0, d) == x); assert(e.m_posmap@[x] == d);
            assert(t.contains(j) <==> ints(t).contains(j as int)) by { if t.contains(j) { let k = t.index_of(j); assert(ints(t)[k] == j); } if ints(t).contains(j as int) { let k = ints(t).index_of(j as int); assert(t[k] == j); } }
        }
    }
}
pub proof fn swap_from(f: RamForest, f1: RamForest, g: RamForest, r: int, a: int, b: int) requires sub_swapped(f1, g, r, a, b), f1.m_data == f.m_data ensures sub_swapped(f, g, r, a, b)
{ assert forall|q: int, x: int| 0 <= q < r + 1 && #[trigger] has(g, q, x) implies dat(g, q, x) == dat(f, q, mv(r - q, a, b, x)) by { assert(dat(g, q, x) == dat(f1, q, mv(r - q, a, b, x))); } }
/// only the number of leaves differs
pub proof fn count_ext(f: RamForest, g: RamForest, n2: int) requires g.m_data == f.m_data, g.m_posmap == f.m_posmap, g.heap == f.heap, g.m_roots == f.m_roots, map_ok(f, n2), roots_ok(f, n2) ensures map_ok(g, n2), roots_ok(g, n2)
{ assert forall|j: int| 0 <= j < n2 implies g.m_posmap@.contains_key(#[trigger] dat(g, 0, j)) && g.m_posmap@[dat(g, 0, j)] == j by { assert(dat(g, 0, j) == dat(f, 0, j)); }
  assert forall|k: int| 0 <= k < g.m_roots@.len() implies np_ok(g, #[trigger] g.m_roots@[k]) by { assert(np_ok(f, f.m_roots@[k])); }
  assert forall|R: int| 0 <= R && #[trigger] bit(n2, R) implies root_hash(g, trees_above(n2, R) as int) == dat(g, R, ri(n2, R)) by { assert(root_hash(f, trees_above(n2, R) as int) == dat(f, R, ri(n2, R))); } }
/// the undo data of a modification that added k leaves: the removed positions, and the hashes the removal has put behind the remaining leaves
pub open spec fn undo_built(f: RamForest, u: UndoBatch, k: int, t: Seq<u64>) -> bool {
    u.m_num_additions == k && u.m_deleted_positions@ == t && u.m_deleted_hashes@.len() == t.len() && (forall|i: int| 0 <= i < t.len() ==> #[trigger] u.m_deleted_hashes@[i] == dat(f, 0, f.m_num_leaves + i))
}
/// the forest m between removing the targets of f and adding the leaves to get g
pub open spec fn mod_mid(f: RamForest, m: RamForest, g: RamForest, l: Seq<(H, bool)>, t: Seq<u64>) -> bool {
    (if t.len() == 0 { m == f } else { removed(f, m, t) }) && added(m, g, l, l.len() as int)
}
/// the new leaves are distinct and none of them is a leaf that stays
pub open spec fn mod_ok(f: RamForest, l: Seq<(H, bool)>, t: Seq<u64>) -> bool {
    f.m_num_leaves + l.len() - t.len() < 0x8000_0000 && distinct(l) && (forall|a: int| 0 <= a < l.len() ==> f.m_posmap@.contains_key((#[trigger] l[a]).0) ==> t.contains(f.m_posmap@[l[a].0]))
}
pub proof fn mod_add(f: RamForest, m: RamForest, l: Seq<(H, bool)>, t: Seq<u64>) requires forest_ok(f), mod_ok(f, l, t), if t.len() == 0 { m == f } else { removed(f, m, t) } ensures forest_ok(m), add_ok(m, l), m.m_num_leaves == f.m_num_leaves - t.len(), rows_ok(m, f.m_num_leaves as int)
{
    assert forall|a: int| 0 <= a < l.len() implies !m.m_posmap@.contains_key((#[trigger] l[a]).0) by { let x = l[a].0; assert(m.m_posmap@.contains_key(x) ==> f.m_posmap@.contains_key(x)); }
}
