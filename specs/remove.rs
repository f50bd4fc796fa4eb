// ---------------------------------------------------------------------------
// Removing leaves (C08): swapping subtrees, rehashing what is dirty
// ---------------------------------------------------------------------------
/// exchange of the ranges [a, a+l) and [b, b+l)
pub open spec fn xr(a: int, b: int, l: int, j: int) -> int { if a <= j < a + l { j - a + b } else if b <= j < b + l { j - b + a } else { j } }
pub open spec fn apart(a: int, b: int, l: int) -> bool { a + l <= b || b + l <= a || a == b }
/// exchanging subtrees exchanges ranges on every row below
pub proof fn mv_xr(d: int, a: int, b: int, x: int) requires d >= 0, a >= 0, b >= 0, x >= 0 ensures mv(d, a, b, x) == xr(a * p2(d as nat), b * p2(d as nat), p2(d as nat) as int, x), mv(d, a, b, x) >= 0
{
    let w = p2(d as nat) as int; p2_pos(d as nat); split_row(x, d); let y = x / w;
    assert(y == a <==> a * w <= x < a * w + w) by { if a * w <= x < a * w + w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, w, a, x - a * w); } }
    assert(y == b <==> b * w <= x < b * w + w) by { if b * w <= x < b * w + w { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, w, b, x - b * w); } }
    let z = xch(a, b, y); assert(z * w >= 0) by(nonlinear_arith) requires z >= 0, w > 0;
}
pub proof fn ranges_apart(d: int, a: int, b: int) requires d >= 0, a >= 0, b >= 0 ensures apart(a * p2(d as nat), b * p2(d as nat), p2(d as nat) as int)
{ let w = p2(d as nat) as int; p2_pos(d as nat); if a < b { assert((a + 1) * w <= b * w) by(nonlinear_arith) requires a + 1 <= b, w >= 1; assert((a + 1) * w == a * w + w) by(nonlinear_arith); } if b < a { assert((b + 1) * w <= a * w) by(nonlinear_arith) requires b + 1 <= a, w >= 1; assert((b + 1) * w == b * w + w) by(nonlinear_arith); } }
/// the leaf data of g: the ranges exchanged
pub open spec fn row_swapped(f: RamForest, g: RamForest, r: int, a: int, b: int, l: int) -> bool {
    g.m_data@ == f.m_data@.update(r, g.m_data@[r]) && g.m_data@[r]@.len() == f.m_data@[r]@.len() && (forall|j: int| 0 <= j < f.m_data@[r]@.len() ==> #[trigger] g.m_data@[r]@[j] == f.m_data@[r]@[xr(a, b, l, j)])
}
pub open spec fn same_but_data(f: RamForest, g: RamForest) -> bool { g.m_num_leaves == f.m_num_leaves && g.m_roots == f.m_roots && g.m_posmap == f.m_posmap && g.heap == f.heap && g.m_file == f.m_file }
/// the subtrees of the nodes a and b of row r exchanged
pub open spec fn sub_swapped(f: RamForest, g: RamForest, r: int, a: int, b: int) -> bool { rows_swapped(f, g, r, a, b, r + 1) }
/// the same on the first k rows
pub open spec fn rows_swapped(f: RamForest, g: RamForest, r: int, a: int, b: int, k: int) -> bool {
    g.m_data@.len() == f.m_data@.len() && (forall|q: int| 0 <= q < f.m_data@.len() ==> (#[trigger] g.m_data@[q])@.len() == f.m_data@[q]@.len() && (q >= k ==> g.m_data@[q] == f.m_data@[q]))
    && (forall|q: int, x: int| 0 <= q < k && #[trigger] has(g, q, x) ==> dat(g, q, x) == dat(f, q, mv(r - q, a, b, x)))
}
/// the leaves below an existing node exist, on every row
pub proof fn ex_below(n: int, r: int, a: int, q: int) requires 0 <= q <= r, a >= 0, ex(n, r, a) ensures ex(n, q, a * p2((r - q) as nat) + p2((r - q) as nat) - 1), a * p2((r - q) as nat) >= 0
{
    let w = p2((r - q) as nat) as int; let p = p2(q as nat) as int; p2_pos((r - q) as nat); p2_add((r - q) as nat, q as nat); assert(a * w >= 0) by(nonlinear_arith) requires a >= 0, w >= 1;
    assert(((a * w + w - 1) + 1) * p == (a + 1) * (w * p)) by(nonlinear_arith);
}
pub proof fn rows_step(f: RamForest, g: RamForest, g2: RamForest, r: int, a: int, b: int, k: int)
    requires rows_swapped(f, g, r, a, b, k), 0 <= k <= r, k < f.m_data@.len(), a >= 0, b >= 0, row_swapped(g, g2, k, a * p2((r - k) as nat), b * p2((r - k) as nat), p2((r - k) as nat) as int)
    ensures rows_swapped(f, g2, r, a, b, k + 1)
{
    assert forall|q: int, x: int| 0 <= q < k + 1 && #[trigger] has(g2, q, x) implies dat(g2, q, x) == dat(f, q, mv(r - q, a, b, x)) by {
        if q < k { assert(g2.m_data@[q] == g.m_data@[q]); assert(has(g, q, x)); } else { mv_xr(r - k, a, b, x); }
    }
    assert forall|q: int| 0 <= q < f.m_data@.len() implies (#[trigger] g2.m_data@[q])@.len() == f.m_data@[q]@.len() && (q >= k + 1 ==> g2.m_data@[q] == f.m_data@[q]) by { assert(g.m_data@[q]@.len() == f.m_data@[q]@.len()); if q != k { assert(g2.m_data@[q] == g.m_data@[q]); } }
}
/// the parent of the leftmost node below a
pub proof fn half_left(r: int, q: int, a: int) requires 0 <= q < r, a >= 0 ensures (a * p2((r - q) as nat)) / 2 == a * p2((r - q - 1) as nat)
{ let w = p2((r - q - 1) as nat) as int; assert(p2((r - q) as nat) == 2 * w); assert(a * (2 * w) == 2 * (a * w)) by(nonlinear_arith); }
pub proof fn p2_31() ensures p2(31) == 0x8000_0000, p2(1) == 2, p2(0) == 1 { assert(p2(31) == 0x8000_0000) by(compute); assert(p2(1) == 2) by(compute); }
pub open spec fn same_but_map(f: RamForest, g: RamForest) -> bool { g.m_num_leaves == f.m_num_leaves && g.m_roots == f.m_roots && g.m_data == f.m_data && g.heap == f.heap && g.m_file == f.m_file }
/// the position map of g knows the leaves of f at the places to which the exchange of two ranges takes them
pub open spec fn map_moved(f: RamForest, g: RamForest, a: int, b: int, l: int) -> bool { g.m_posmap@.dom() == f.m_posmap@.dom() && (forall|i: int| 0 <= i < f.m_num_leaves ==> g.m_posmap@[#[trigger] dat(f, 0, i)] == xr(a, b, l, i)) }
pub proof fn leaves_has(f: RamForest, n: int) requires rows_ok(f, n), n >= 0 ensures forall|i: int| 0 <= i < n ==> #[trigger] has(f, 0, i) { assert forall|i: int| 0 <= i < n implies #[trigger] has(f, 0, i) by { ex0(n, i); } }
pub proof fn sub_ext(f: RamForest, g: RamForest, g2: RamForest, r: int, a: int, b: int) requires sub_swapped(f, g, r, a, b), g2.m_data == g.m_data ensures sub_swapped(f, g2, r, a, b)
{ assert forall|q: int, x: int| 0 <= q < r + 1 && #[trigger] has(g2, q, x) implies dat(g2, q, x) == dat(f, q, mv(r - q, a, b, x)) by { assert(has(g, q, x)); } 
  assert forall|q: int| 0 <= q < f.m_data@.len() implies (#[trigger] g2.m_data@[q])@.len() == f.m_data@[q]@.len() && (q >= r + 1 ==> g2.m_data@[q] == f.m_data@[q]) by { assert(g.m_data@[q]@.len() == f.m_data@[q]@.len()); } }
/// the k-th root of the list, and the tree it is the root of
pub proof fn rl_row(n: int, h: int, top: int, k: int) -> (R: int) requires 0 <= n, -1 <= top <= h, 0 <= k < rl(n, h, top).len()
    ensures 0 <= R <= top, bit(n, R), rl(n, h, top)[k] == gp(h, R, ri(n, R)) as u64, trees_above(n, R) == k + trees_above(n, top)
    decreases top + 1
{
    div2(n, top); p2_pos(top as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(top as nat) as int); popc_step((n / p2(top as nat) as int) as nat);
    if bit(n, top) { if k == 0 { top } else { let R = rl_row(n, h, top - 1, k - 1); R } } else { let R = rl_row(n, h, top - 1, k); R }
}
/// exactly the hash of the node (r,i) recomputed
pub open spec fn rehashed(f: RamForest, g: RamForest, r: int, i: int) -> bool {
    g.m_data@ == f.m_data@.update(r, g.m_data@[r]) && g.m_data@[r]@ == f.m_data@[r]@.update(i, phash(dat(f, r - 1, 2 * i), dat(f, r - 1, 2 * i + 1)))
}
/// nodes keep their place
pub open spec fn heap_kept(f: RamForest, g: RamForest) -> bool { g.heap@.len() >= f.heap@.len() && (forall|k: int| 0 <= k < f.heap@.len() ==> (#[trigger] g.heap@[k]).m_position == f.heap@[k].m_position && g.heap@[k].m_num_leaves == f.heap@[k].m_num_leaves) }
pub open spec fn rest_kept(f: RamForest, g: RamForest) -> bool { g.m_num_leaves == f.m_num_leaves && g.m_roots == f.m_roots && g.m_posmap == f.m_posmap && g.m_file == f.m_file }
/// the handle of the existing node (r,i)
pub open spec fn node_at(f: RamForest, p: NP, n: u64, r: int, i: int) -> bool { np_ok(f, p) && f.heap@[p.i as int].m_num_leaves == n && at(n, f.heap@[p.i as int].m_position, r, i) && ex(n as int, r, i) }
/// a node of the forest that is no root has a parent
pub proof fn up_or_root(n: int, r: int, i: int) requires n >= 0, ex(n, r, i) ensures (bit(n, r) && i == ri(n, r)) || ex(n, r + 1, i / 2), bit(n, r) && i == ri(n, r) ==> !ex(n, r + 1, i / 2)
{ ex_div(n, r, i); ex_div(n, r + 1, i / 2); div2(n, r); }
/// the map knows the leaves of f except those at positions n2 .. k
pub open spec fn map_cut(m0: Map<H, u64>, m: Map<H, u64>, n2: int, k: int) -> bool { forall|x: H| (#[trigger] m.contains_key(x) <==> m0.contains_key(x) && !(n2 <= m0[x] < k)) && (m.contains_key(x) ==> m[x] == m0[x]) }
pub proof fn map_cut_ok(f: RamForest, g: RamForest, n: int, n2: int) requires map_ok(f, n), 0 <= n2 <= n, map_cut(f.m_posmap@, g.m_posmap@, n2, n), g.m_data == f.m_data, g.m_posmap@.dom().finite(), g.m_posmap@.dom().len() == n2 ensures map_ok(g, n2)
{ assert forall|i: int| 0 <= i < n2 implies g.m_posmap@.contains_key(#[trigger] dat(g, 0, i)) && g.m_posmap@[dat(g, 0, i)] == i by { assert(f.m_posmap@.contains_key(dat(f, 0, i))); } }
pub proof fn map_cut_step(f: RamForest, m: Map<H, u64>, n: int, n2: int, k: int, x: H) requires map_ok(f, n), 0 <= n2 <= k < n, map_cut(f.m_posmap@, m, n2, k), m.dom().finite(), x == dat(f, 0, k) ensures map_cut(f.m_posmap@, m.remove(x), n2, k + 1), m.remove(x).dom().finite(), m.remove(x).dom().len() == m.dom().len() - 1
{ let m0 = f.m_posmap@; assert(m0.contains_key(x) && m0[x] == k); assert(m.contains_key(x)); let m2 = m.remove(x); assert(m2.dom() =~= m.dom().remove(x));
  assert forall|y: H| (#[trigger] m2.contains_key(y) <==> m0.contains_key(y) && !(n2 <= m0[y] < k + 1)) && (m2.contains_key(y) ==> m2[y] == m0[y]) by { assert(m.contains_key(y) <==> m0.contains_key(y) && !(n2 <= m0[y] < k)); if m0.contains_key(y) && m0[y] == k { assert(dat(f, 0, m0[y] as int) == y); } } }
/// what is known of the positions of existing nodes
pub proof fn at_facts(n: u64) requires okn(n)
    ensures forall|m: u64, pos: u64, q: int, j: int| m == n && #[trigger] at(m, pos, q, j) && ex(n as int, q, j) ==> pos < p2((hh_of(n) + 1) as nat) - 1,
        forall|m: u64, m2: u64, pos: u64, q: int, j: int, q2: int, j2: int| m == n && m2 == n && #[trigger] at(m, pos, q, j) && #[trigger] at(m2, pos, q2, j2) ==> q == q2 && j == j2,
{
    let h = hh_of(n); nr_62(n); nr_spec(n as nat); p2_s(h as nat); p2_pos(h as nat);
    assert forall|m: u64, pos: u64, q: int, j: int| m == n && #[trigger] at(m, pos, q, j) && ex(n as int, q, j) implies pos < p2((h + 1) as nat) - 1 by { gp_range(h, q, j); if q == h { assert(p2((h + 1 - h) as nat) == 2) by { p2_vals(); } assert(p2((h - q) as nat) == 1) by { p2_vals(); } } }
    assert forall|m: u64, m2: u64, pos: u64, q: int, j: int, q2: int, j2: int| m == n && m2 == n && #[trigger] at(m, pos, q, j) && #[trigger] at(m2, pos, q2, j2) implies q == q2 && j == j2 by { gp_inj(h, q, j, q2, j2); }
}
/// the tree of the k-th root, seen from the numbering of a larger forest
pub proof fn root_in(n: u64, n2: int, k: int, R: int) requires okn(n), 0 <= n2 <= n, 0 <= k < rl(n2, hh_of(n), hh_of(n)).len(), 0 <= R <= hh_of(n), bit(n2, R), rl(n2, hh_of(n), hh_of(n))[k] == gp(hh_of(n), R, ri(n2, R)) as u64
    ensures at(n, rl(n2, hh_of(n), hh_of(n))[k], R, ri(n2, R)), ex(n2, R, ri(n2, R)), ex(n as int, R, ri(n2, R)), forall|R2: int| 0 <= R2 && #[trigger] bit(n2, R2) && trees_above(n2, R2) == k ==> R2 == R
{
    let h = hh_of(n); nr_62(n); nr_spec(n as nat); root_valid(n2, h, R); gp_range(h, R, ri(n2, R)); p2_vals(); p2_mono((h + 1) as nat, 63); p2_s(h as nat); p2_pos(h as nat);
    assert forall|R2: int| 0 <= R2 && #[trigger] bit(n2, R2) && trees_above(n2, R2) == k implies R2 == R by {
        bit_lt(n2, R2, h + 1); rl_index(n2, h, h, R2); root_valid(n2, h, R2); gp_range(h, R2, ri(n2, R2)); gp_inj(h, R, ri(n2, R), R2, ri(n2, R2)); }
}
