// ---------------------------------------------------------------------------
// The full forest
// ---------------------------------------------------------------------------
/// std::make_shared: a new object, distinct from all others
pub fn mk_node(heap: &mut Vec<RNode>, x: RNode) -> (r: NP) ensures !r.null, r.i == old(heap)@.len(), final(heap)@ == old(heap)@.push(x) { let i = heap.len(); heap.push(x); NP { null: false, i: i } }
pub open spec fn dat(f: RamForest, r: int, i: int) -> H { f.m_data@[r]@[i] }
pub open spec fn has(f: RamForest, r: int, i: int) -> bool { 0 <= r < f.m_data@.len() && 0 <= i < f.m_data@[r]@.len() }
pub open spec fn root_hash(f: RamForest, k: int) -> H { f.heap@[f.m_roots@[k].i as int].m_hash }
pub open spec fn np_ok(f: RamForest, p: NP) -> bool { !p.null && p.i < f.heap@.len() }
/// every node of a forest of n leaves is stored
pub open spec fn rows_ok(f: RamForest, n: int) -> bool { f.m_data@.len() > nr(n as nat) && (forall|r: int, i: int| #[trigger] ex(n, r, i) ==> has(f, r, i)) }
/// every inner node holds the parent hash of its children
pub open spec fn hashes_ok(f: RamForest, n: int) -> bool { forall|r: int, i: int| r >= 1 && #[trigger] ex(n, r, i) ==> dat(f, r, i) == phash(dat(f, r - 1, 2 * i), dat(f, r - 1, 2 * i + 1)) }
/// one root per tree, tallest first, holding the hash of the tree's top node
pub open spec fn roots_ok(f: RamForest, n: int) -> bool {
    f.m_roots@.len() == popc(n as nat) && (forall|k: int| 0 <= k < f.m_roots@.len() ==> np_ok(f, #[trigger] f.m_roots@[k]))
    && (forall|R: int| 0 <= R && #[trigger] bit(n, R) ==> root_hash(f, trees_above(n, R) as int) == dat(f, R, ri(n, R)))
}
/// the position map holds exactly the leaves at their positions (so leaves are distinct)
pub open spec fn map_ok(f: RamForest, n: int) -> bool {
    f.m_posmap@.dom().finite() && f.m_posmap@.dom().len() == n
    && (forall|i: int| 0 <= i < n ==> f.m_posmap@.contains_key(#[trigger] dat(f, 0, i)) && f.m_posmap@[dat(f, 0, i)] == i)
    && (forall|k: H| #[trigger] f.m_posmap@.contains_key(k) ==> f.m_posmap@[k] < n && dat(f, 0, f.m_posmap@[k] as int) == k)
}
/// the invariant of a full forest
pub open spec fn forest_ok(f: RamForest) -> bool { let n = f.m_num_leaves as int; okf(n) && rows_ok(f, n) && hashes_ok(f, n) && roots_ok(f, n) && map_ok(f, n) }
/// in a correct forest every node is the Merkle hash over its leaves
pub proof fn mk_dat(f: RamForest, n: int, r: int, i: int) requires hashes_ok(f, n), rows_ok(f, n), ex(n, r, i) ensures dat(f, r, i) == mk(f.m_data@[0]@, r, i) decreases r
{ if r > 0 { ex_down(n, r, i); mk_dat(f, n, r - 1, 2 * i); mk_dat(f, n, r - 1, 2 * i + 1); } }
pub proof fn rows_mono(f: RamForest, n: int, m: int) requires rows_ok(f, m), 0 <= n <= m ensures rows_ok(f, n) { nr_spec(m as nat); nr_least(n as nat, nr(m as nat)); assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies has(f, r, i) by { ex_mono(n, m, r, i); } }
pub open spec fn distinct(l: Seq<(H, bool)>) -> bool { forall|a: int, b: int| 0 <= a < b < l.len() ==> (#[trigger] l[a]).0 != (#[trigger] l[b]).0 }
pub open spec fn fresh(f: RamForest, l: Seq<(H, bool)>) -> bool { forall|a: int| 0 <= a < l.len() ==> !f.m_posmap@.contains_key((#[trigger] l[a]).0) }
pub open spec fn add_ok(f: RamForest, l: Seq<(H, bool)>) -> bool { f.m_num_leaves + l.len() < 0x8000_0000 && distinct(l) && fresh(f, l) }
/// the leaves after adding: the old ones where they were, then the new ones in order
pub open spec fn added(f: RamForest, g: RamForest, l: Seq<(H, bool)>, k: int) -> bool {
    g.m_num_leaves == f.m_num_leaves + k && (forall|i: int| 0 <= i < f.m_num_leaves ==> dat(g, 0, i) == #[trigger] dat(f, 0, i)) && (forall|j: int| 0 <= j < k ==> dat(g, 0, f.m_num_leaves + j) == (#[trigger] l[j]).0)
}
/// in the middle of adding leaf n to f: the carry chain has reached row
pub open spec fn adding(f: RamForest, g: RamForest, row: int, p: NP, x: H) -> bool {
    let n = f.m_num_leaves as int;
    g.m_num_leaves == n && ones(n, row) && g.m_roots@.len() == popc(n as nat) + 1 - row && g.m_roots@.last() == p && np_ok(g, p) && f.heap@.len() <= g.heap@.len()
    && (forall|k: int| 0 <= k < g.m_roots@.len() - 1 ==> #[trigger] g.m_roots@[k] == f.m_roots@[k])
    && (forall|k: int| 0 <= k < f.heap@.len() ==> #[trigger] g.heap@[k] == f.heap@[k])
    && g.heap@[p.i as int].m_hash == dat(g, row, n / p2(row as nat) as int)
    && (gv(hh_of(f.m_num_leaves), row, n / p2(row as nat) as int) ==> g.heap@[p.i as int].m_position == gp(hh_of(f.m_num_leaves), row, n / p2(row as nat) as int))
    && (n == 1 ==> g.heap@[p.i as int].m_position == 1)
    && (forall|r: int, i: int| r >= 1 && #[trigger] ex(n + 1, r, i) && (r <= row || ex(n, r, i)) ==> dat(g, r, i) == phash(dat(g, r - 1, 2 * i), dat(g, r - 1, 2 * i + 1)))
    && (forall|r: int, i: int| #[trigger] ex(n, r, i) ==> dat(g, r, i) == dat(f, r, i))
    && dat(g, 0, n) == x && g.m_posmap@ == f.m_posmap@.insert(x, n as u64)
}
pub proof fn adding_start(f: RamForest, g: RamForest, p: NP, x: H, nf: int) 
    requires forest_ok(f), rows_ok(f, nf), f.m_num_leaves < nf,
        g.m_data@ == f.m_data@.update(0, g.m_data@[0]), g.m_data@[0]@ == f.m_data@[0]@.update(f.m_num_leaves as int, x), g.m_posmap@ == f.m_posmap@.insert(x, f.m_num_leaves), g.m_num_leaves == f.m_num_leaves,
        g.m_roots@ == f.m_roots@.push(p), !p.null, p.i == f.heap@.len(), g.heap@.len() == p.i + 1, forall|k: int| 0 <= k < p.i ==> #[trigger] g.heap@[k] == f.heap@[k],
        g.heap@[p.i as int].m_hash == x, g.heap@[p.i as int].m_position == f.m_num_leaves,
    ensures adding(f, g, 0, p, x), rows_ok(g, nf)
{
    let n = f.m_num_leaves as int; assert(p2(0) == 1); assert(n / 1 == n); nr_spec(n as nat);
    ex0(nf, n); assert(has(f, 0, n));
    assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies dat(g, r, i) == dat(f, r, i) by { if r == 0 { ex0(n, i); assert(i < n); } else { assert(g.m_data@[r] == f.m_data@[r]); } }
    assert forall|r: int, i: int| r >= 1 && #[trigger] ex(n + 1, r, i) && (r <= 0 || ex(n, r, i)) implies dat(g, r, i) == phash(dat(g, r - 1, 2 * i), dat(g, r - 1, 2 * i + 1)) by { ex_down(n, r, i); }
    assert forall|r: int, i: int| #[trigger] ex(nf, r, i) implies has(g, r, i) by { assert(has(f, r, i)); if r != 0 { assert(g.m_data@[r] == f.m_data@[r]); } }
}
pub proof fn adding_step(f: RamForest, g: RamForest, g2: RamForest, row: int, p: NP, p2_: NP, x: H, ph: H, i: int, pos: u64, nf: int)
    requires forest_ok(f), adding(f, g, row, p, x), rows_ok(g, nf), f.m_num_leaves < nf, 0 <= row, bit(f.m_num_leaves as int, row), i == f.m_num_leaves as int / p2((row + 1) as nat) as int, has(g, row + 1, i),
        ph == phash(root_hash(g, g.m_roots@.len() - 2), g.heap@[p.i as int].m_hash),
        g2.m_data@ == g.m_data@.update(row + 1, g2.m_data@[row + 1]), g2.m_data@[row + 1]@ == g.m_data@[row + 1]@.push(ph).update(i, ph), g2.m_posmap@ == g.m_posmap@, g2.m_num_leaves == g.m_num_leaves,
        g2.m_roots@ == g.m_roots@.drop_last().drop_last().push(p2_), !p2_.null, p2_.i == g.heap@.len(), g2.heap@.len() == p2_.i + 1, forall|k: int| 0 <= k < p2_.i ==> #[trigger] g2.heap@[k] == g.heap@[k],
        g2.heap@[p2_.i as int].m_hash == ph, g2.heap@[p2_.i as int].m_position == pos,
        gv(hh_of(f.m_num_leaves), row + 1, i) ==> pos == gp(hh_of(f.m_num_leaves), row + 1, i), f.m_num_leaves == 1 ==> pos == 1,
    ensures adding(f, g2, row + 1, p2_, x), rows_ok(g2, nf), g2.m_data@.len() == g.m_data@.len()
{
    let n = f.m_num_leaves as int; let q = n / p2(row as nat) as int; div2(n, row); carry(n, row); p2_pos(row as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(row as nat) as int);
    assert(ones(n, row + 1)); carry(n, row + 1); popc_step(q as nat);
    assert(q == 2 * i + 1);
    // the left child is the root of the tree on this row
    assert(trees_above(n, row) == g.m_roots@.len() - 2); root_index_ok(n, row);
    let k0 = trees_above(n, row) as int; assert(g.m_roots@[k0] == f.m_roots@[k0]); assert(np_ok(f, f.m_roots@[k0]));
    assert(root_hash(g, k0) == dat(f, row, ri(n, row))); assert(ri(n, row) == 2 * i);
    ex_div(n, row, 2 * i); assert(dat(g, row, 2 * i) == dat(f, row, 2 * i));
    assert(ph == phash(dat(g, row, 2 * i), dat(g, row, 2 * i + 1)));
    // only (row+1, i) changes among the nodes of n+1 leaves
    assert forall|r: int, j: int| #[trigger] ex(n + 1, r, j) && !(r == row + 1 && j == i) implies dat(g2, r, j) == dat(g, r, j) && has(g, r, j) by { rows_mono(g, n + 1, nf); assert(has(g, r, j)); if r != row + 1 { assert(g2.m_data@[r] == g.m_data@[r]); } }
    assert(dat(g2, row + 1, i) == ph);
    assert forall|r: int, j: int| #[trigger] ex(n, r, j) implies dat(g2, r, j) == dat(f, r, j) by { ex_mono(n, n + 1, r, j); ex_div(n, r, j); assert(dat(g, r, j) == dat(f, r, j)); }
    assert forall|r: int, j: int| r >= 1 && #[trigger] ex(n + 1, r, j) && (r <= row + 1 || ex(n, r, j)) implies dat(g2, r, j) == phash(dat(g2, r - 1, 2 * j), dat(g2, r - 1, 2 * j + 1)) by {
        ex_down(n + 1, r, j);
        if r == row + 1 && j == i { assert(dat(g2, row, 2 * i) == dat(g, row, 2 * i)); assert(dat(g2, row, 2 * i + 1) == dat(g, row, 2 * i + 1)); }
        else {
            if r == row + 1 { ex_div(n + 1, r, j); ex_div(n, r, j); 
                if !ex(n, r, j) { let p = p2(r as nat) as int; p2_pos(r as nat); assert(j != i); assert(j > i); assert((j + 1) * p >= (i + 2) * p) by(nonlinear_arith) requires j + 1 >= i + 2, p >= 1; assert((i + 2) * p == (i + 1) * p + p) by(nonlinear_arith); } 
                ex_down(n, r, j); }
            if r - 1 == row + 1 { 
                assert(ex(n, r, j)); ex_down(n, r, j); ex_div(n, r - 1, 2 * j); ex_div(n, r - 1, 2 * j + 1); }
            assert(dat(g, r, j) == phash(dat(g, r - 1, 2 * j), dat(g, r - 1, 2 * j + 1)));
        }
    }
    assert forall|k: int| 0 <= k < g2.m_roots@.len() - 1 implies #[trigger] g2.m_roots@[k] == f.m_roots@[k] by { assert(g2.m_roots@[k] == g.m_roots@[k]); }
    assert forall|r: int, j: int| #[trigger] ex(nf, r, j) implies has(g2, r, j) by { assert(has(g, r, j)); if r != row + 1 { assert(g2.m_data@[r] == g.m_data@[r]); } }
    assert(dat(g2, 0, n) == dat(g, 0, n)) by { if row + 1 == 0 { } else { assert(g2.m_data@[0] == g.m_data@[0]); } }
}
/// the carry chain has stopped: g is a correct forest of n+1 leaves, except for the leaf count
pub open spec fn almost(f: RamForest, n: int) -> bool { okf(n) && rows_ok(f, n) && hashes_ok(f, n) && roots_ok(f, n) && map_ok(f, n) }
pub proof fn adding_done(f: RamForest, g: RamForest, row: int, p: NP, x: H, nf: int)
    requires forest_ok(f), adding(f, g, row, p, x), rows_ok(g, nf), f.m_num_leaves < nf < 0x8000_0000, 0 <= row, !bit(f.m_num_leaves as int, row), !f.m_posmap@.contains_key(x),
    ensures almost(g, f.m_num_leaves as int + 1), forest_ok(RamForest { m_num_leaves: (f.m_num_leaves + 1) as u64, ..g }),
        forall|i: int| 0 <= i < f.m_num_leaves ==> #[trigger] dat(g, 0, i) == dat(f, 0, i), dat(g, 0, f.m_num_leaves as int) == x, g.m_posmap@ == f.m_posmap@.insert(x, f.m_num_leaves), rows_ok(g, nf),
        nr(f.m_num_leaves as nat) != 0 && nr((f.m_num_leaves + 1) as nat) != nr(f.m_num_leaves as nat) ==> g.m_roots@.len() >= 2,
{
    let n = f.m_num_leaves as int; carry_done(n, row); rows_mono(g, n + 1, nf);
    let q = n / p2(row as nat) as int;
    assert forall|R: int| 0 <= R && #[trigger] bit(n + 1, R) implies root_hash(g, trees_above(n + 1, R) as int) == dat(g, R, ri(n + 1, R)) by {
        if R > row { assert(bit(n, R)); let k = trees_above(n, R) as int; root_index_ok(n, R); assert(g.m_roots@[k] == f.m_roots@[k]); assert(np_ok(f, f.m_roots@[k])); root_ex(n, R); assert(dat(g, R, ri(n, R)) == dat(f, R, ri(n, R))); }
        else { assert(R == row); assert(trees_above(n + 1, row) == g.m_roots@.len() - 1); }
    }
    assert forall|k: int| 0 <= k < g.m_roots@.len() implies np_ok(g, #[trigger] g.m_roots@[k]) by { if k < g.m_roots@.len() - 1 { assert(g.m_roots@[k] == f.m_roots@[k]); assert(np_ok(f, f.m_roots@[k])); } }
    assert forall|r: int, i: int| r >= 1 && #[trigger] ex(n + 1, r, i) implies dat(g, r, i) == phash(dat(g, r - 1, 2 * i), dat(g, r - 1, 2 * i + 1)) by { if r > row { assert(ex(n, r, i)); } }
    assert(p2(0) == 1);
    assert forall|i: int| 0 <= i < n implies dat(g, 0, i) == #[trigger] dat(f, 0, i) by { ex0(n, i); }
    assert forall|i: int| 0 <= i < n + 1 implies g.m_posmap@.contains_key(#[trigger] dat(g, 0, i)) && g.m_posmap@[dat(g, 0, i)] == i by { if i < n { assert(dat(g, 0, i) == dat(f, 0, i)); assert(f.m_posmap@.contains_key(dat(f, 0, i))); } }
    assert forall|k: H| #[trigger] g.m_posmap@.contains_key(k) implies g.m_posmap@[k] < n + 1 && dat(g, 0, g.m_posmap@[k] as int) == k by { if k != x { assert(f.m_posmap@.contains_key(k)); assert(dat(g, 0, f.m_posmap@[k] as int) == dat(f, 0, f.m_posmap@[k] as int)); } }
    assert(g.m_posmap@.dom() =~= f.m_posmap@.dom().insert(x));
    assert(map_ok(g, n + 1));
    let g1 = RamForest { m_num_leaves: (f.m_num_leaves + 1) as u64, ..g };
    almost_is(g, g1, n + 1);
    if nr(n as nat) != 0 && nr((n + 1) as nat) != nr(n as nat) { 
        let h = nr(n as nat); nr_spec(n as nat); p2_s((h - 1) as nat); p2_pos((h - 1) as nat);
        if n < p2(h) { nr_least((n + 1) as nat, h); nr_spec((n + 1) as nat); if nr((n + 1) as nat) < h { p2_mono(nr((n + 1) as nat), (h - 1) as nat); } }
        assert(n == p2(h)); assert(n % 2 == 0); if row > 0 { assert(bit(n, 0)); assert(p2(0) == 1); assert(n / 1 == n); }
        popc_pos(n as nat);
    }
}
/// the invariant only depends on the rows, the map, and the hashes of the roots
pub proof fn almost_is(g: RamForest, g1: RamForest, n: int) requires almost(g, n), g1.m_num_leaves == n, same_forest(g, g1) ensures forest_ok(g1)
{
    assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies has(g1, r, i) by { assert(has(g, r, i)); }
    assert forall|r: int, i: int| r >= 1 && #[trigger] ex(n, r, i) implies dat(g1, r, i) == phash(dat(g1, r - 1, 2 * i), dat(g1, r - 1, 2 * i + 1)) by { assert(dat(g, r, i) == phash(dat(g, r - 1, 2 * i), dat(g, r - 1, 2 * i + 1))); }
    assert forall|k: int| 0 <= k < g1.m_roots@.len() implies np_ok(g1, #[trigger] g1.m_roots@[k]) by { assert(np_ok(g, g.m_roots@[k])); }
    assert forall|R: int| 0 <= R && #[trigger] bit(n, R) implies root_hash(g1, trees_above(n, R) as int) == dat(g1, R, ri(n, R)) by { root_index_ok(n, R); assert(np_ok(g, g.m_roots@[trees_above(n, R) as int])); assert(root_hash(g, trees_above(n, R) as int) == dat(g, R, ri(n, R))); }
    assert forall|i: int| 0 <= i < n implies g1.m_posmap@.contains_key(#[trigger] dat(g1, 0, i)) && g1.m_posmap@[dat(g1, 0, i)] == i by { assert(g.m_posmap@.contains_key(dat(g, 0, i))); }
    assert forall|k: H| #[trigger] g1.m_posmap@.contains_key(k) implies g1.m_posmap@[k] < n && dat(g1, 0, g1.m_posmap@[k] as int) == k by { assert(g.m_posmap@.contains_key(k)); assert(dat(g, 0, g.m_posmap@[k] as int) == k); }
}
pub open spec fn same_forest(g: RamForest, g1: RamForest) -> bool { g1.m_data@ == g.m_data@ && g1.m_roots@ == g.m_roots@ && g1.m_posmap@ == g.m_posmap@ && g1.heap@.len() == g.heap@.len() && (forall|k: int| 0 <= k < g.heap@.len() ==> (#[trigger] g1.heap@[k]).m_hash == g.heap@[k].m_hash) }
pub proof fn added_more(f0: RamForest, f: RamForest, g: RamForest, l: Seq<(H, bool)>, k: int)
    requires added(f0, f, l, k), 0 <= k < l.len(), forall|i: int| 0 <= i < f.m_num_leaves ==> #[trigger] dat(g, 0, i) == dat(f, 0, i), dat(g, 0, f.m_num_leaves as int) == l[k].0, g.m_num_leaves == f.m_num_leaves + 1
    ensures added(f0, g, l, k + 1)
{
    assert forall|i: int| 0 <= i < f0.m_num_leaves implies dat(g, 0, i) == #[trigger] dat(f0, 0, i) by { assert(dat(f, 0, i) == dat(f0, 0, i)); }
    assert forall|j: int| 0 <= j < k + 1 implies dat(g, 0, f0.m_num_leaves + j) == (#[trigger] l[j]).0 by { if j < k { assert(dat(f, 0, f0.m_num_leaves + j) == l[j].0); } }
}

pub proof fn empty_ok(f: RamForest) requires f.m_num_leaves == 0, f.m_data@.len() == 1, f.m_roots@.len() == 0, f.m_posmap@ == Map::<H, u64>::empty() ensures forest_ok(f) {
    nr_spec(0); assert(nr(0) == 0); assert(popc(0) == 0);
    assert forall|r: int, i: int| !#[trigger] ex(0, r, i) by { if r >= 0 && i >= 0 { p2_pos(r as nat); assert((i + 1) * p2(r as nat) > 0) by(nonlinear_arith) requires i >= 0, p2(r as nat) >= 1; } }
    assert forall|R: int| 0 <= R implies !#[trigger] bit(0, R) by { p2_pos(R as nat); vstd::arithmetic::div_mod::lemma_basic_div(0, p2(R as nat) as int); }
    assert(f.m_posmap@.dom() =~= Set::<H>::empty());
}
/// allocating the rows of nf leaves keeps the forest
pub proof fn resized(f0: RamForest, f: RamForest, nf: int)
    requires forest_ok(f0), f0.m_num_leaves <= nf < 0x8000_0000, f.m_num_leaves == f0.m_num_leaves, f.m_roots == f0.m_roots, f.m_posmap == f0.m_posmap, f.heap == f0.heap, f.m_data@.len() > nr(nf as nat), f.m_data@.len() >= f0.m_data@.len(),
        forall|r: int| 0 <= r <= nr(nf as nat) ==> (#[trigger] f.m_data@[r])@.len() == nf / p2(r as nat) as int && (forall|i: int| 0 <= i < f0.m_data@[r]@.len() && i < f.m_data@[r]@.len() && r < f0.m_data@.len() ==> f.m_data@[r]@[i] == #[trigger] f0.m_data@[r]@[i]),
    ensures forest_ok(f), rows_ok(f, nf), forall|i: int| 0 <= i < f0.m_num_leaves ==> #[trigger] dat(f, 0, i) == dat(f0, 0, i)
{
    let n = f0.m_num_leaves as int; nr_spec(nf as nat);
    assert forall|r: int, i: int| #[trigger] ex(nf, r, i) implies has(f, r, i) by { ex_row(nf, r, i); ex_div(nf, r, i); assert(f.m_data@[r]@.len() == nf / p2(r as nat) as int); }
    rows_mono(f, n, nf);
    assert forall|r: int, i: int| #[trigger] ex(n, r, i) implies dat(f, r, i) == dat(f0, r, i) by { ex_mono(n, nf, r, i); ex_row(nf, r, i); assert(has(f0, r, i)); assert(has(f, r, i)); assert(f.m_data@[r]@.len() == nf / p2(r as nat) as int); assert(f.m_data@[r]@[i] == f0.m_data@[r]@[i]); }
    assert forall|r: int, i: int| r >= 1 && #[trigger] ex(n, r, i) implies dat(f, r, i) == phash(dat(f, r - 1, 2 * i), dat(f, r - 1, 2 * i + 1)) by { ex_down(n, r, i); }
    assert forall|k: int| 0 <= k < f.m_roots@.len() implies np_ok(f, #[trigger] f.m_roots@[k]) by { assert(np_ok(f0, f0.m_roots@[k])); }
    assert forall|R: int| 0 <= R && #[trigger] bit(n, R) implies root_hash(f, trees_above(n, R) as int) == dat(f, R, ri(n, R)) by { root_ex(n, R); assert(root_hash(f0, trees_above(n, R) as int) == dat(f0, R, ri(n, R))); }
    assert forall|i: int| 0 <= i < n implies #[trigger] dat(f, 0, i) == dat(f0, 0, i) by { ex0(n, i); }
    assert forall|i: int| 0 <= i < n implies f.m_posmap@.contains_key(#[trigger] dat(f, 0, i)) && f.m_posmap@[dat(f, 0, i)] == i by { assert(f0.m_posmap@.contains_key(dat(f0, 0, i))); }
    assert forall|k: H| #[trigger] f.m_posmap@.contains_key(k) implies f.m_posmap@[k] < n && dat(f, 0, f.m_posmap@[k] as int) == k by { assert(f0.m_posmap@.contains_key(k)); assert(dat(f0, 0, f0.m_posmap@[k] as int) == k); }
}
/// existing nodes lie on the rows of the forest
pub proof fn ex_row(n: int, r: int, i: int) requires n >= 0, ex(n, r, i) ensures 0 <= r <= nr(n as nat), gv(nr(n as nat) as int, r, i) {
    let h = nr(n as nat) as int; nr_spec(n as nat); p2_pos(r as nat); let p = p2(r as nat) as int;
    assert((i + 1) * p >= p) by(nonlinear_arith) requires i >= 0, p >= 1;
    if r > h { p2_mono_s(h as nat, r as nat); }
    p2_add(r as nat, (h - r) as nat); let b = p2((h - r) as nat) as int;
    if i >= b { assert((i + 1) * p > b * p) by(nonlinear_arith) requires i >= b, p >= 1; assert(b * p == p * b) by(nonlinear_arith); }
}
pub proof fn leaf_pos(n: u64, i: u64) requires i < n, okn(n) ensures at(n, i, 0, i as int), i < p2((hh_of(n) + 1) as nat) - 1, hh_of(n) <= 62 {
    nr_spec(n as nat); nr_62(n); let h = hh_of(n); ex0(n as int, i as int); ex_row(n as int, 0, i as int); gp_range(h, 0, i as int); p2_s(h as nat); p2_pos(h as nat);
}
pub proof fn leaf_at(f: RamForest, pos: u64) requires forest_ok(f), pos < f.m_num_leaves
    ensures at(f.m_num_leaves, pos, 0, pos as int), okn(f.m_num_leaves), pos < p2((hh_of(f.m_num_leaves) + 1) as nat) - 1, has(f, 0, pos as int), forall|r: int, i: int| #[trigger] at(f.m_num_leaves, pos, r, i) ==> has(f, r, i) && r == 0 && i == pos
{
    leaf_pos(f.m_num_leaves, pos); ex0(f.m_num_leaves as int, pos as int); assert(has(f, 0, pos as int));
    assert forall|r: int, i: int| #[trigger] at(f.m_num_leaves, pos, r, i) implies has(f, r, i) && r == 0 && i == pos by { gp_inj(hh_of(f.m_num_leaves), 0, pos as int, r, i); }
}
