// ---------------------------------------------------------------------------
// The pollard as a partial Merkle forest: every cached node carries a label (row, index), and its hash is the Merkle hash of that node
// ---------------------------------------------------------------------------
/// an object made by a query: nothing is known about the pointer but that it refers to no object of the arena
pub fn mk_away<T>(heap: &Vec<T>, x: T) -> (r: NP) ensures !r.null, r.i >= heap@.len() { NP { null: false, i: heap.len() } }
/// std::shared_ptr::use_count: any number
#[verifier::external_body] pub fn sp_use_count(p: NP) -> (r: i64) ensures r >= 0 { unimplemented!() }
#[verifier::external_body] pub fn vnew_np(n: u64) -> (r: Vec<NP>) ensures r@.len() == n, forall|j: int| 0 <= j < n ==> (#[trigger] r@[j]).null { unimplemented!() }

/// the hash of root number k
pub open spec fn rhash(f: Pollard, k: int) -> H { f.iheap@[f.heap@[f.m_roots@[k].i as int].m_node.i as int].m_hash }
/// the root nodes of a forest of n leaves
pub open spec fn rs_of(n: int) -> spec_fn(int, int) -> bool { |r: int, i: int| r >= 0 && bit(n, r) && i == ri(n, r) }
/// the root nodes while leaf n is added and the carry chain has reached row
pub open spec fn rs_mid(n: int, row: int) -> spec_fn(int, int) -> bool { |r: int, i: int| (r >= row && bit(n, r) && i == ri(n, r)) || (r == row && i == n / p2(row as nat) as int) }
/// the node whose children an inner node refers to: a root refers to its own, any other node to those of its sibling
pub open spec fn sibc(rs: spec_fn(int, int) -> bool, r: int, i: int) -> int { if rs(r, i) { i } else if i % 2 == 0 { i + 1 } else { i - 1 } }
pub open spec fn child_ok(co: Map<int, (int, int)>, p: NP, r: int, i: int) -> bool { p.null || (co.contains_key(p.i as int) && co[p.i as int] == (r, i)) }
/// below a leaf there is at most the remember marker
pub open spec fn mark_ok(f: Pollard, p: NP) -> bool { p.null || p.i == f.m_remember.i }
pub open spec fn dead(f: Pollard, k: int) -> bool { nc(f, k, 0).null && nc(f, k, 1).null }
/// inner node k, which holds the children of the ancestor of leaf i on row d, leads along the siblings of the path to leaf i and to its marker: all hashes of the leaf's proof are cached
pub open spec fn held(f: Pollard, k: int, d: int, i: int) -> bool decreases d {
    if d <= 0 { let p = nc(f, k, 0); !p.null && p.i == f.m_remember.i } else { let c = nc(f, k, if bit(i, d - 1) { 0 } else { 1 }); !c.null && held(f, c.i as int, d - 1, i) }
}
/// the inner node of the root of the tree on row R
pub open spec fn rnode(f: Pollard, n: int, R: int) -> int { f.heap@[f.m_roots@[trees_above(n, R) as int].i as int].m_node.i as int }
pub open spec fn rheld(f: Pollard, i: int) -> bool { let n = f.m_num_leaves as int; forall|R: int| R >= 0 && #[trigger] in_tree(n, R, 0, i) ==> held(f, rnode(f, n, R), R, i) }
/// every leaf of the position map is at its position, with its whole proof cached
#[verifier::opaque]
pub open spec fn kept(f: Pollard, lv: Seq<H>) -> bool { map_sound(f.m_posmap@, lv) && forall|h: H| #[trigger] f.m_posmap@.contains_key(h) ==> rheld(f, f.m_posmap@[h] as int) }
/// ... in the middle of adding leaf n
pub open spec fn mheld(f: Pollard, n: int, row: int, i: int) -> bool {
    (i / p2(row as nat) as int == n / p2(row as nat) as int ==> held(f, f.heap@[f.m_roots@.last().i as int].m_node.i as int, row, i)) && (forall|R: int| R >= row && #[trigger] in_tree(n, R, 0, i) ==> held(f, rnode(f, n, R), R, i))
}
#[verifier::opaque]
pub open spec fn mkept(f: Pollard, n: int, lv: Seq<H>, row: int) -> bool { map_sound(f.m_posmap@, lv) && forall|h: H| #[trigger] f.m_posmap@.contains_key(h) ==> mheld(f, n, row, f.m_posmap@[h] as int) }
pub proof fn held_frame(g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, rs: spec_fn(int, int) -> bool, k: int, d: int, i: int, top: int)
    requires lab(g, lv, co, rs), co.contains_key(k), co[k].0 == d, 0 <= d < top, f.m_remember == g.m_remember, held(g, k, d, i),
        forall|x: int| #[trigger] co.contains_key(x) && co[x].0 < top ==> nc(f, x, 0) == nc(g, x, 0) && nc(f, x, 1) == nc(g, x, 1)
    ensures held(f, k, d, i)
    decreases d
{
    assert(nc(f, k, 0) == nc(g, k, 0) && nc(f, k, 1) == nc(g, k, 1));
    if d > 0 { let b: int = if bit(i, d - 1) { 0 } else { 1 }; kid(g, lv, co, rs, k, b); held_frame(g, f, lv, co, rs, nc(g, k, b).i as int, d - 1, i, top); }
}
/// the same with the children of k moved to k2
pub proof fn held_move(g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, rs: spec_fn(int, int) -> bool, k: int, k2: int, d: int, i: int)
    requires lab(g, lv, co, rs), co.contains_key(k), co[k].0 == d, 0 <= d, f.m_remember == g.m_remember, held(g, k, d, i), nc(f, k2, 0) == nc(g, k, 0), nc(f, k2, 1) == nc(g, k, 1),
        forall|x: int| #[trigger] co.contains_key(x) && co[x].0 < d ==> nc(f, x, 0) == nc(g, x, 0) && nc(f, x, 1) == nc(g, x, 1)
    ensures held(f, k2, d, i), !dead(f, k2)
{
    if d > 0 { let b: int = if bit(i, d - 1) { 0 } else { 1 }; kid(g, lv, co, rs, k, b); held_frame(g, f, lv, co, rs, nc(g, k, b).i as int, d - 1, i, d); }
}
/// inner node k has the Merkle hash of its label over the leaves lv, and refers to the right nodes only
pub open spec fn labk(f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, rs: spec_fn(int, int) -> bool, k: int) -> bool {
    let r = co[k].0; let i = co[k].1;
    &&& 0 <= k < f.iheap@.len() && k != f.m_remember.i && r >= 0 && i >= 0 && f.iheap@[k].m_hash == mk(lv, r, i)
    &&& r == 0 ==> mark_ok(f, nc(f, k, 0)) && mark_ok(f, nc(f, k, 1))
    &&& r >= 1 ==> child_ok(co, nc(f, k, 0), r - 1, 2 * sibc(rs, r, i)) && child_ok(co, nc(f, k, 1), r - 1, 2 * sibc(rs, r, i) + 1)
}
pub open spec fn lab(f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, rs: spec_fn(int, int) -> bool) -> bool {
    &&& forall|k: int| #[trigger] co.contains_key(k) ==> labk(f, lv, co, rs, k)
    &&& forall|k: int, k2: int| #[trigger] co.contains_key(k) && #[trigger] co.contains_key(k2) && co[k] == co[k2] ==> k == k2
}
/// root number j is the node (r,i), its own sibling
pub open spec fn rootlab(f: Pollard, co: Map<int, (int, int)>, r: int, i: int, j: int) -> bool {
    let x = f.m_roots@[j].i as int;
    0 <= j < f.m_roots@.len() && f.heap@[x].m_node.i == f.heap@[x].m_sibling.i && co.contains_key(f.heap@[x].m_node.i as int) && co[f.heap@[x].m_node.i as int] == (r, i)
}
pub open spec fn roots_wf(f: Pollard) -> bool {
    iok(f, f.m_remember) && inn(f) && (forall|j: int| 0 <= j < f.m_roots@.len() ==> nok(f, #[trigger] f.m_roots@[j]) && f.heap@[f.m_roots@[j].i as int].m_parent.null && iok(f, f.heap@[f.m_roots@[j].i as int].m_node) && iok(f, f.heap@[f.m_roots@[j].i as int].m_sibling))
}
/// the pollard is a partial Merkle forest over the leaves lv
pub open spec fn pinv(f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>) -> bool {
    let n = f.m_num_leaves as int;
    &&& pol_wf(f) && lv.len() == n && lab(f, lv, co, rs_of(n))
    &&& forall|R: int| R >= 0 && #[trigger] bit(n, R) ==> rootlab(f, co, R, ri(n, R), trees_above(n, R) as int)
    &&& forall|k: int| #[trigger] co.contains_key(k) ==> ex(n, co[k].0, co[k].1)
}
pub open spec fn prep(f: Pollard, lv: Seq<H>) -> bool { exists|co: Map<int, (int, int)>| pinv(f, lv, co) }
/// in the middle of adding leaf n to a pollard: the carry chain has reached row
pub open spec fn pmid(n: u64, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, row: int) -> bool {
    let q = n as int / p2(row as nat) as int; let p = f.m_roots@.last();
    &&& f.m_num_leaves == n && lv.len() == n + 1 && ones(n as int, row) && f.m_roots@.len() == popc(n as nat) + 1 - row && roots_wf(f) && lab(f, lv, co, rs_mid(n as int, row))
    &&& forall|R: int| R >= row && #[trigger] bit(n as int, R) ==> rootlab(f, co, R, ri(n as int, R), trees_above(n as int, R) as int)
    &&& rootlab(f, co, row, q, f.m_roots@.len() - 1)
    &&& forall|k: int| #[trigger] co.contains_key(k) ==> ex(n as int, co[k].0, co[k].1) || (co[k].0 <= row && co[k].1 == n as int / p2(co[k].0 as nat) as int)
    &&& gv(hh_of(n), row, q) ==> f.heap@[p.i as int].m_position == gp(hh_of(n), row, q)
    &&& n == 1 ==> f.heap@[p.i as int].m_position == 1
}
/// the position map after adding the first k leaves: the leaves to remember are entered with their positions
pub open spec fn padd(m: Map<H, u64>, n: int, l: Seq<(H, bool)>, k: int) -> Map<H, u64> decreases k { if k <= 0 { m } else if l[k - 1].1 { padd(m, n, l, k - 1).insert(l[k - 1].0, (n + k - 1) as u64) } else { padd(m, n, l, k - 1) } }
pub open spec fn hashes(l: Seq<(H, bool)>, k: int) -> Seq<H> { Seq::new(k as nat, |j: int| l[j].0) }

pub proof fn mk_push(lv: Seq<H>, x: H, r: int, i: int) requires r >= 0, ex(lv.len() as int, r, i) ensures mk(lv.push(x), r, i) == mk(lv, r, i) decreases r
{ if r > 0 { ex_down(lv.len() as int, r, i); mk_push(lv, x, r - 1, 2 * i); mk_push(lv, x, r - 1, 2 * i + 1); } else { ex0(lv.len() as int, i); } }
/// nodes on a carry path are not nodes of the old forest
pub proof fn carry_new(n: int, r: int) requires n >= 0, r >= 0 ensures !ex(n, r, n / p2(r as nat) as int) { ex_div(n, r, n / p2(r as nat) as int); }

pub proof fn pmid_start(g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, x: H, p: NP)
    requires pinv(g, lv, co), f.m_num_leaves == g.m_num_leaves, f.m_remember == g.m_remember, g.m_num_leaves < MAXN,
        f.heap@.len() == g.heap@.len() + 1, forall|y: int| 0 <= y < g.heap@.len() ==> #[trigger] f.heap@[y] == g.heap@[y],
        f.iheap@.len() == g.iheap@.len() + 1, forall|k: int| 0 <= k < g.iheap@.len() ==> #[trigger] f.iheap@[k] == g.iheap@[k],
        f.m_roots@ == g.m_roots@.push(p), !p.null, p.i == g.heap@.len(),
        ({ let nd = f.heap@[p.i as int]; let c = g.iheap@.len() as int; nd.m_parent.null && nd.m_position == g.m_num_leaves && !nd.m_node.null && nd.m_node.i == c && nd.m_sibling == nd.m_node && f.iheap@[c].m_hash == x && inn(f) && mark_ok(f, nc(f, c, 0)) && mark_ok(f, nc(f, c, 1)) }),
    ensures pmid(g.m_num_leaves, f, lv.push(x), co.insert(g.iheap@.len() as int, (0int, g.m_num_leaves as int)), 0)
{
    let n = g.m_num_leaves as int; let c = g.iheap@.len() as int; let co2 = co.insert(c, (0int, n)); let lv2 = lv.push(x);
    assert(p2(0) == 1); assert(n / 1 == n);
    assert forall|k: int| #[trigger] co2.contains_key(k) implies labk(f, lv2, co2, rs_mid(n, 0), k) && (ex(n, co2[k].0, co2[k].1) || (co2[k].0 <= 0 && co2[k].1 == n / p2(co2[k].0 as nat) as int)) by {
        if k != c {
            assert(co.contains_key(k)); assert(labk(g, lv, co, rs_of(n), k)); assert(f.iheap@[k] == g.iheap@[k]); mk_push(lv, x, co[k].0, co[k].1);
            if co[k].0 >= 1 { assert(nc(f, k, 0) == nc(g, k, 0)); assert(nc(f, k, 1) == nc(g, k, 1));
                assert(sibc(rs_mid(n, 0), co[k].0, co[k].1) == sibc(rs_of(n), co[k].0, co[k].1));
                if !nc(g, k, 0).null { assert(co.contains_key(nc(g, k, 0).i as int)); assert(labk(g, lv, co, rs_of(n), nc(g, k, 0).i as int)); }
                if !nc(g, k, 1).null { assert(co.contains_key(nc(g, k, 1).i as int)); assert(labk(g, lv, co, rs_of(n), nc(g, k, 1).i as int)); } }
        }
    }
    assert forall|k: int, k2: int| #[trigger] co2.contains_key(k) && #[trigger] co2.contains_key(k2) && co2[k] == co2[k2] implies k == k2 by {
        carry_new(n, 0);
        if k != c { assert(co.contains_key(k)); } if k2 != c { assert(co.contains_key(k2)); }
    }
    assert forall|R: int| R >= 0 && #[trigger] bit(n, R) implies rootlab(f, co2, R, ri(n, R), trees_above(n, R) as int) by {
        let j = trees_above(n, R) as int; assert(rootlab(g, co, R, ri(n, R), j)); assert(f.m_roots@[j] == g.m_roots@[j]); assert(nok(g, g.m_roots@[j]));
        assert(co.contains_key(g.heap@[g.m_roots@[j].i as int].m_node.i as int)); assert(labk(g, lv, co, rs_of(n), g.heap@[g.m_roots@[j].i as int].m_node.i as int));
    }
    assert forall|j: int| 0 <= j < f.m_roots@.len() implies nok(f, #[trigger] f.m_roots@[j]) && f.heap@[f.m_roots@[j].i as int].m_parent.null && iok(f, f.heap@[f.m_roots@[j].i as int].m_node) && iok(f, f.heap@[f.m_roots@[j].i as int].m_sibling) by {
        if j < g.m_roots@.len() { assert(f.m_roots@[j] == g.m_roots@[j]); assert(nok(g, g.m_roots@[j])); }
    }
    if gv(hh_of(g.m_num_leaves), 0, n) { assert(gp(hh_of(g.m_num_leaves), 0, n) == n); }
}
/// one merge: the last two roots L, R become the children of a new root (or are dropped)
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn pmid_step(n: u64, g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, row: int, p: NP, ph: H, pos: u64)
    requires pmid(n, g, lv, co, row), okn(n), n < MAXN, row >= 0, bit(n as int, row), f.m_num_leaves == n, f.m_remember == g.m_remember, g.m_roots@.len() >= 2,
        f.heap@.len() == g.heap@.len() + 1, forall|y: int| 0 <= y < g.heap@.len() ==> #[trigger] f.heap@[y] == g.heap@[y],
        f.m_roots@ == g.m_roots@.drop_last().drop_last().push(p), !p.null, p.i == g.heap@.len(),
        ph == phash(rhash(g, g.m_roots@.len() - 2), rhash(g, g.m_roots@.len() - 1)),
        ({ let L = g.heap@[g.m_roots@[g.m_roots@.len() - 2].i as int].m_node.i as int; let R = g.heap@[g.m_roots@[g.m_roots@.len() - 1].i as int].m_node.i as int; let c = g.iheap@.len() as int; let nd = f.heap@[p.i as int];
            &&& merged(g, f, L, R, c)
            &&& nd.m_parent.null && nd.m_position == pos && !nd.m_node.null && nd.m_node.i == c && nd.m_sibling == nd.m_node && f.iheap@[c].m_hash == ph && inn(f) }),
        gv(hh_of(n), row + 1, n as int / p2((row + 1) as nat) as int) ==> pos == gp(hh_of(n), row + 1, n as int / p2((row + 1) as nat) as int), n == 1 ==> pos == 1,
    ensures pmid(n, f, lv, co.insert(g.iheap@.len() as int, (row + 1, n as int / p2((row + 1) as nat) as int)), row + 1)
{
    let nn = n as int; let c = g.iheap@.len() as int; let q = nn / p2(row as nat) as int; let q2 = nn / p2((row + 1) as nat) as int; let co2 = co.insert(c, (row + 1, q2));
    let rs = rs_mid(nn, row); let rs2 = rs_mid(nn, row + 1); let k0 = trees_above(nn, row) as int; let len = g.m_roots@.len() as int;
    div2(nn, row); carry(nn, row); p2_pos(row as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(nn, p2(row as nat) as int); assert(ones(nn, row + 1)); carry(nn, row + 1); popc_step(q as nat); assert(q == 2 * q2 + 1);
    assert(k0 == len - 2); assert(rootlab(g, co, row, ri(nn, row), k0)); assert(ri(nn, row) == q - 1); assert(rootlab(g, co, row, q, len - 1));
    let L = g.heap@[g.m_roots@[len - 2].i as int].m_node.i as int; let R = g.heap@[g.m_roots@[len - 1].i as int].m_node.i as int;
    assert(co.contains_key(L) && co[L] == (row, q - 1)); assert(co.contains_key(R) && co[R] == (row, q)); assert(labk(g, lv, co, rs, L)); assert(labk(g, lv, co, rs, R));
    assert(L != R); assert(mk(lv, row + 1, q2) == phash(mk(lv, row, 2 * q2), mk(lv, row, 2 * q2 + 1)));
    assert(nok(g, g.m_roots@[len - 1])); assert(nok(g, g.m_roots@[len - 2]));
    assert forall|k: int| #[trigger] co2.contains_key(k) implies labk(f, lv, co2, rs2, k) && (ex(nn, co2[k].0, co2[k].1) || (co2[k].0 <= row + 1 && co2[k].1 == nn / p2(co2[k].0 as nat) as int)) by {
        if k != c {
            assert(co.contains_key(k)); assert(labk(g, lv, co, rs, k)); let r = co[k].0; let i = co[k].1; carry_new(nn, row + 1);
            assert(f.iheap@[k].m_hash == g.iheap@[k].m_hash);
            if r >= 1 {
                assert(!(r == row + 1 && i == q2));
                if k == L { assert(!rs2(row, q - 1)); assert(rs(row, q)); assert(sibc(rs2, r, i) == q); assert(nc(f, L, 0) == nc(g, R, 0) && nc(f, L, 1) == nc(g, R, 1)); kid(g, lv, co, rs, R, 0); kid(g, lv, co, rs, R, 1); }
                else if k == R { assert(!rs2(row, q)); assert(rs(row, q - 1)); assert(sibc(rs2, r, i) == q - 1); assert(nc(f, R, 0) == nc(g, L, 0) && nc(f, R, 1) == nc(g, L, 1)); kid(g, lv, co, rs, L, 0); kid(g, lv, co, rs, L, 1); }
                else {
                    assert(f.iheap@[k] == g.iheap@[k]); assert(nc(f, k, 0) == nc(g, k, 0) && nc(f, k, 1) == nc(g, k, 1));
                    assert(!(r == row && (i == q || i == q - 1))); assert(rs(r, i) == rs2(r, i)); kid(g, lv, co, rs, k, 0); kid(g, lv, co, rs, k, 1);
                }
            }
        } else { assert(rs2(row + 1, q2)); assert(sibc(rs2, row + 1, q2) == q2); }
    }
    assert forall|k: int, k2: int| #[trigger] co2.contains_key(k) && #[trigger] co2.contains_key(k2) && co2[k] == co2[k2] implies k == k2 by {
        carry_new(nn, row + 1);
        if k != c { assert(co.contains_key(k)); } if k2 != c { assert(co.contains_key(k2)); }
    }
    assert forall|R1: int| R1 >= row + 1 && #[trigger] bit(nn, R1) implies rootlab(f, co2, R1, ri(nn, R1), trees_above(nn, R1) as int) by {
        let j = trees_above(nn, R1) as int; assert(rootlab(g, co, R1, ri(nn, R1), j));
        trees_lt(nn, row, R1);
        assert(f.m_roots@[j] == g.m_roots@[j]); assert(nok(g, g.m_roots@[j])); let k = g.heap@[g.m_roots@[j].i as int].m_node.i as int;
        assert(co.contains_key(k)); assert(labk(g, lv, co, rs, k));
    }
    assert forall|j: int| 0 <= j < f.m_roots@.len() implies nok(f, #[trigger] f.m_roots@[j]) && f.heap@[f.m_roots@[j].i as int].m_parent.null && iok(f, f.heap@[f.m_roots@[j].i as int].m_node) && iok(f, f.heap@[f.m_roots@[j].i as int].m_sibling) by {
        if j < len - 2 { assert(f.m_roots@[j] == g.m_roots@[j]); assert(nok(g, g.m_roots@[j])); }
    }
    assert(rootlab(f, co2, row + 1, q2, f.m_roots@.len() - 1));
}
/// what a merge does to the inner nodes: L and R exchange their nieces, and become the children of the new inner node c unless they are dropped
pub open spec fn merged(g: Pollard, f: Pollard, L: int, R: int, c: int) -> bool {
    &&& f.iheap@.len() == c + 1 && forall|k: int| 0 <= k < c ==> (#[trigger] f.iheap@[k]).m_hash == g.iheap@[k].m_hash && (k != L && k != R ==> f.iheap@[k] == g.iheap@[k])
    &&& L != R ==> nc(f, L, 0) == nc(g, R, 0) && nc(f, L, 1) == nc(g, R, 1) && nc(f, R, 0) == nc(g, L, 0) && nc(f, R, 1) == nc(g, L, 1)
    &&& if nc(f, c, 0).null { dead(f, L) } else { nc(f, c, 0).i == L }
    &&& if nc(f, c, 1).null { dead(f, R) } else { nc(f, c, 1).i == R }
}
/// a child is labelled, so it is an old inner node
pub proof fn kid(g: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, rs: spec_fn(int, int) -> bool, k: int, b: int)
    requires lab(g, lv, co, rs), co.contains_key(k), co[k].0 >= 1, b == 0 || b == 1
    ensures child_ok(co, nc(g, k, b), co[k].0 - 1, 2 * sibc(rs, co[k].0, co[k].1) + b), nc(g, k, b).null || nc(g, k, b).i < g.iheap@.len(), labk(g, lv, co, rs, k)
{ assert(labk(g, lv, co, rs, k)); let p = nc(g, k, b); if !p.null { assert(co.contains_key(p.i as int)); assert(labk(g, lv, co, rs, p.i as int)); } }
pub proof fn trees_lt(n: int, r: int, R: int) requires n >= 0, 0 <= r < R, bit(n, r), bit(n, R) ensures trees_above(n, R) < trees_above(n, r)
{
    let x = n / p2((r + 1) as nat) as int; p2_pos((r + 1) as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2((r + 1) as nat) as int); anc_div(n, (r + 1) as nat, (R - r - 1) as nat);
    popc_shift(x as nat, (R - r - 1) as nat); div2(n, R); p2_pos(R as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(R as nat) as int); popc_step((n / p2(R as nat) as int) as nat);
}
/// the carry chain is finished
pub proof fn pmid_done(n: u64, f: Pollard, f2: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, row: int)
    requires pmid(n, f, lv, co, row), n < MAXN, row >= 0, !bit(n as int, row), f2 == (Pollard { m_num_leaves: (n + 1) as u64, ..f })
    ensures pinv(f2, lv, co), nr(n as nat) != 0 && nr((n + 1) as nat) != nr(n as nat) ==> f2.m_roots@.len() >= 2
{
    if nr(n as nat) != 0 && nr((n + 1) as nat) != nr(n as nat) {
        let h = nr(n as nat); nr_spec(n as nat); p2_s((h - 1) as nat); p2_pos((h - 1) as nat);
        if n < p2(h) { nr_least((n + 1) as nat, h); nr_spec((n + 1) as nat); if nr((n + 1) as nat) < h { p2_mono(nr((n + 1) as nat), (h - 1) as nat); } }
        assert(n == p2(h)); assert(n % 2 == 0); if row > 0 { assert(bit(n as int, 0)); assert(p2(0) == 1); assert(n as int / 1 == n); }
        popc_pos(n as nat);
    }
    let nn = n as int; carry_done(nn, row); let rs = rs_mid(nn, row); let rs2 = rs_of(nn + 1);
    assert forall|r: int, i: int| #[trigger] rs(r, i) == rs2(r, i) by { if r < row { } else if r == row { } else { } }
    assert forall|k: int| #[trigger] co.contains_key(k) implies labk(f2, lv, co, rs2, k) && ex(nn + 1, co[k].0, co[k].1) by {
        assert(labk(f, lv, co, rs, k)); let r = co[k].0; let i = co[k].1; assert(sibc(rs, r, i) == sibc(rs2, r, i));
        if ex(nn, r, i) { ex_mono(nn, nn + 1, r, i); } else { assert(ones(nn, r)); carry(nn, r); let p = p2(r as nat) as int; p2_pos(r as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(nn, p); }
    }
    assert forall|R: int| R >= 0 && #[trigger] bit(nn + 1, R) implies rootlab(f2, co, R, ri(nn + 1, R), trees_above(nn + 1, R) as int) by {
        if R > row { assert(rootlab(f, co, R, ri(nn, R), trees_above(nn, R) as int)); } else if R == row { assert(rootlab(f, co, row, nn / p2(row as nat) as int, f.m_roots@.len() - 1)); }
    }
}
/// only positions of nodes change
pub proof fn pinv_pos(f: Pollard, f2: Pollard, lv: Seq<H>, co: Map<int, (int, int)>)
    requires pinv(f, lv, co), f2.iheap == f.iheap, f2.m_roots == f.m_roots, f2.m_num_leaves == f.m_num_leaves, f2.m_remember == f.m_remember, f2.heap@.len() == f.heap@.len(),
        forall|y: int| 0 <= y < f.heap@.len() ==> (#[trigger] f2.heap@[y]).m_node == f.heap@[y].m_node && f2.heap@[y].m_sibling == f.heap@[y].m_sibling && f2.heap@[y].m_parent == f.heap@[y].m_parent,
    ensures pinv(f2, lv, co)
{
    let n = f.m_num_leaves as int;
    assert forall|k: int| #[trigger] co.contains_key(k) implies labk(f2, lv, co, rs_of(n), k) by { assert(labk(f, lv, co, rs_of(n), k)); }
    assert forall|j: int| 0 <= j < f2.m_roots@.len() implies nok(f2, #[trigger] f2.m_roots@[j]) && f2.heap@[f2.m_roots@[j].i as int].m_parent.null && iok(f2, f2.heap@[f2.m_roots@[j].i as int].m_node) && iok(f2, f2.heap@[f2.m_roots@[j].i as int].m_sibling) by { assert(nok(f, f.m_roots@[j])); }
    assert forall|R: int| R >= 0 && #[trigger] bit(n, R) implies rootlab(f2, co, R, ri(n, R), trees_above(n, R) as int) by { assert(rootlab(f, co, R, ri(n, R), trees_above(n, R) as int)); let j = trees_above(n, R) as int; assert(nok(f, f.m_roots@[j])); }
}

pub proof fn mkept_start(g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, x: H, rem: bool, p: NP)
    requires pinv(g, lv, co), kept(g, lv), f.m_num_leaves == g.m_num_leaves, f.m_remember == g.m_remember, g.m_num_leaves < MAXN,
        f.heap@.len() == g.heap@.len() + 1, forall|y: int| 0 <= y < g.heap@.len() ==> #[trigger] f.heap@[y] == g.heap@[y],
        f.iheap@.len() == g.iheap@.len() + 1, forall|k: int| 0 <= k < g.iheap@.len() ==> #[trigger] f.iheap@[k] == g.iheap@[k],
        f.m_roots@ == g.m_roots@.push(p), !p.null, p.i == g.heap@.len(), f.heap@[p.i as int].m_node.i == g.iheap@.len(),
        rem ==> nc(f, g.iheap@.len() as int, 0) == f.m_remember,
        f.m_posmap@ == (if rem { g.m_posmap@.insert(x, g.m_num_leaves) } else { g.m_posmap@ }),
    ensures mkept(f, g.m_num_leaves as int, lv.push(x), 0)
{
    reveal(kept); reveal(mkept);
    let n = g.m_num_leaves as int; let lv2 = lv.push(x); assert(p2(0) == 1);
    assert forall|h: H| #[trigger] f.m_posmap@.contains_key(h) implies f.m_posmap@[h] < lv2.len() && lv2[f.m_posmap@[h] as int] == h && mheld(f, n, 0, f.m_posmap@[h] as int) by {
        let i = f.m_posmap@[h] as int; assert(i / 1 == i && n / 1 == n);
        if rem && h == x {
            assert forall|R: int| R >= 0 && #[trigger] in_tree(n, R, 0, i) implies held(f, rnode(f, n, R), R, i) by { div2(n, R); }
        } else {
            assert(g.m_posmap@.contains_key(h));
            assert forall|R: int| R >= 0 && #[trigger] in_tree(n, R, 0, i) implies held(f, rnode(f, n, R), R, i) by {
                assert(held(g, rnode(g, n, R), R, i)); root_keep(g, f, lv, co, R);
                held_frame(g, f, lv, co, rs_of(n), rnode(g, n, R), R, i, R + 1);
            }
        }
    }
}
/// appending nodes and a root leaves the old roots and their nodes alone
pub proof fn root_keep(g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, R: int)
    requires pinv(g, lv, co), R >= 0, bit(g.m_num_leaves as int, R), f.m_roots@.len() == g.m_roots@.len() + 1, forall|j: int| 0 <= j < g.m_roots@.len() ==> #[trigger] f.m_roots@[j] == g.m_roots@[j],
        forall|y: int| 0 <= y < g.heap@.len() ==> #[trigger] f.heap@[y] == g.heap@[y], forall|k: int| 0 <= k < g.iheap@.len() ==> #[trigger] f.iheap@[k] == g.iheap@[k],
    ensures rnode(f, g.m_num_leaves as int, R) == rnode(g, g.m_num_leaves as int, R), co.contains_key(rnode(g, g.m_num_leaves as int, R)), co[rnode(g, g.m_num_leaves as int, R)].0 == R,
        forall|x: int| #[trigger] co.contains_key(x) ==> nc(f, x, 0) == nc(g, x, 0) && nc(f, x, 1) == nc(g, x, 1)
{
    let n = g.m_num_leaves as int; let j = trees_above(n, R) as int; assert(rootlab(g, co, R, ri(n, R), j)); assert(f.m_roots@[j] == g.m_roots@[j]); assert(nok(g, g.m_roots@[j]));
    assert forall|x: int| #[trigger] co.contains_key(x) implies nc(f, x, 0) == nc(g, x, 0) && nc(f, x, 1) == nc(g, x, 1) by { assert(labk(g, lv, co, rs_of(n), x)); assert(f.iheap@[x] == g.iheap@[x]); }
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn mkept_step(n: u64, g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, row: int, p: NP)
    requires pmid(n, g, lv, co, row), mkept(g, n as int, lv, row), okn(n), n < MAXN, row >= 0, bit(n as int, row), f.m_num_leaves == n, f.m_remember == g.m_remember, g.m_roots@.len() >= 2, f.m_posmap@ == g.m_posmap@,
        f.heap@.len() == g.heap@.len() + 1, forall|y: int| 0 <= y < g.heap@.len() ==> #[trigger] f.heap@[y] == g.heap@[y],
        f.m_roots@ == g.m_roots@.drop_last().drop_last().push(p), !p.null, p.i == g.heap@.len(),
        ({ let L = g.heap@[g.m_roots@[g.m_roots@.len() - 2].i as int].m_node.i as int; let R = g.heap@[g.m_roots@[g.m_roots@.len() - 1].i as int].m_node.i as int; let c = g.iheap@.len() as int; let nd = f.heap@[p.i as int];
            merged(g, f, L, R, c) && nd.m_node.i == c }),
    ensures mkept(f, n as int, lv, row + 1)
{
    reveal(mkept);
    let nn = n as int; let c = g.iheap@.len() as int; let q = nn / p2(row as nat) as int; let q2 = nn / p2((row + 1) as nat) as int; let rs = rs_mid(nn, row); let k0 = trees_above(nn, row) as int; let len = g.m_roots@.len() as int;
    div2(nn, row); carry(nn, row); p2_pos(row as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(nn, p2(row as nat) as int); assert(ones(nn, row + 1)); carry(nn, row + 1); popc_step(q as nat); assert(q == 2 * q2 + 1);
    assert(k0 == len - 2); assert(rootlab(g, co, row, ri(nn, row), k0)); assert(rootlab(g, co, row, q, len - 1));
    let L = g.heap@[g.m_roots@[len - 2].i as int].m_node.i as int; let R = g.heap@[g.m_roots@[len - 1].i as int].m_node.i as int;
    assert(co.contains_key(L) && co[L] == (row, q - 1)); assert(co.contains_key(R) && co[R] == (row, q)); assert(labk(g, lv, co, rs, L)); assert(labk(g, lv, co, rs, R)); assert(L != R);
    assert forall|x: int| #[trigger] co.contains_key(x) && x != L && x != R implies nc(f, x, 0) == nc(g, x, 0) && nc(f, x, 1) == nc(g, x, 1) by { assert(labk(g, lv, co, rs, x)); assert(f.iheap@[x] == g.iheap@[x]); }
    assert forall|h: H| #[trigger] f.m_posmap@.contains_key(h) implies mheld(f, nn, row + 1, f.m_posmap@[h] as int) by {
        let i = f.m_posmap@[h] as int; assert(mheld(g, nn, row, i)); p2_s(row as nat); anc_div(i, row as nat, 1); assert(p2(1) == 2) by { p2_vals(); } div2(i, row);
        if i / p2((row + 1) as nat) as int == q2 {
            let a = i / p2(row as nat) as int; assert(a == q || a == q - 1);
            if a == q { assert(held(g, R, row, i)); held_move(g, f, lv, co, rs, R, L, row, i); assert(bit(i, row)); assert(held(f, c, row + 1, i)); }
            else { assert(in_tree(nn, row, 0, i)); assert(rnode(g, nn, row) == L); held_move(g, f, lv, co, rs, L, R, row, i); assert(!bit(i, row)); assert(held(f, c, row + 1, i)); }
        }
        assert forall|R1: int| R1 >= row + 1 && #[trigger] in_tree(nn, R1, 0, i) implies held(f, rnode(f, nn, R1), R1, i) by {
            let j = trees_above(nn, R1) as int; assert(rootlab(g, co, R1, ri(nn, R1), j)); trees_lt(nn, row, R1); assert(f.m_roots@[j] == g.m_roots@[j]); assert(nok(g, g.m_roots@[j]));
            let k = rnode(g, nn, R1); assert(rnode(f, nn, R1) == k); assert(held(g, k, R1, i)); tree_before(nn, R1, i); far_held(g, f, lv, co, nn, row, k, R1, i, L, R);
        }
    }
}
/// a leaf of a taller tree: its path does not meet the two roots that are merged
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn far_held(g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, n: int, row: int, k: int, d: int, i: int, L: int, R: int)
    requires n >= 0, row >= 0, d >= row + 1, i >= 0, lab(g, lv, co, rs_mid(n, row)), co.contains_key(k), co[k].0 == d, sibc(rs_mid(n, row), d, co[k].1) == i / p2(d as nat) as int, held(g, k, d, i), f.m_remember == g.m_remember,
        co[L].0 == row, co[R].0 == row, co[L].1 == n / p2(row as nat) as int - 1, co[R].1 == n / p2(row as nat) as int, bit(n, row),
        forall|x: int| #[trigger] co.contains_key(x) && x != L && x != R ==> nc(f, x, 0) == nc(g, x, 0) && nc(f, x, 1) == nc(g, x, 1),
        (i / p2(d as nat) as int) < n / p2(d as nat) as int,
    ensures held(f, k, d, i)
    decreases d
{
    let rs = rs_mid(n, row); assert(nc(f, k, 0) == nc(g, k, 0) && nc(f, k, 1) == nc(g, k, 1));
    let b: int = if bit(i, d - 1) { 0 } else { 1 }; kid(g, lv, co, rs, k, b); let c = nc(g, k, b).i as int; div2(i, d - 1); div2(n, d - 1);
    assert(co[c] == (d - 1, 2 * (i / p2(d as nat) as int) + b));
    if d - 1 >= row + 1 {
        assert((i / p2((d - 1) as nat) as int) < n / p2((d - 1) as nat) as int);
        assert(!rs(d - 1, co[c].1));
        far_held(g, f, lv, co, n, row, c, d - 1, i, L, R);
    } else { assert(c != L && c != R); held_move(g, f, lv, co, rs, c, c, d - 1, i); }
}
/// leaves of the tree on row R lie before all smaller trees
pub proof fn tree_before(n: int, R: int, i: int) requires n >= 0, R >= 0, in_tree(n, R, 0, i) ensures i / p2(R as nat) as int == ri(n, R), (i / p2(R as nat) as int) < n / p2(R as nat) as int { div2(n, R); }
pub proof fn mkept_done(n: u64, f: Pollard, f2: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, row: int)
    requires pmid(n, f, lv, co, row), mkept(f, n as int, lv, row), n < MAXN, row >= 0, !bit(n as int, row), f2 == (Pollard { m_num_leaves: (n + 1) as u64, ..f })
    ensures kept(f2, lv)
{
    reveal(kept); reveal(mkept);
    let nn = n as int; carry_done(nn, row);
    assert forall|h: H| #[trigger] f2.m_posmap@.contains_key(h) implies rheld(f2, f2.m_posmap@[h] as int) by {
        let i = f2.m_posmap@[h] as int; assert(mheld(f, nn, row, i));
        assert forall|R: int| R >= 0 && #[trigger] in_tree(nn + 1, R, 0, i) implies held(f2, rnode(f2, nn + 1, R), R, i) by {
            tree_before(nn + 1, R, i);
            if R > row { assert(in_tree(nn, R, 0, i)); assert(rnode(f2, nn + 1, R) == rnode(f, nn, R)); held_same(f, f2, rnode(f, nn, R), R, i); }
            else { assert(R == row); held_same(f, f2, f.heap@[f.m_roots@.last().i as int].m_node.i as int, row, i); assert(rnode(f2, nn + 1, R) == f.heap@[f.m_roots@.last().i as int].m_node.i as int); }
        }
    }
}
pub proof fn held_same(f: Pollard, f2: Pollard, k: int, d: int, i: int) requires f2.iheap == f.iheap, f2.m_remember == f.m_remember, held(f, k, d, i) ensures held(f2, k, d, i) decreases d
{ if d > 0 { held_same(f, f2, nc(f, k, if bit(i, d - 1) { 0 } else { 1 }).i as int, d - 1, i); } }
/// only positions of nodes change
pub proof fn kept_pos(f: Pollard, f2: Pollard, lv: Seq<H>)
    requires kept(f, lv), pol_wf(f), f2.iheap == f.iheap, f2.m_roots == f.m_roots, f2.m_num_leaves == f.m_num_leaves, f2.m_remember == f.m_remember, f2.heap@.len() == f.heap@.len(), f2.m_posmap@ == f.m_posmap@,
        forall|y: int| 0 <= y < f.heap@.len() ==> (#[trigger] f2.heap@[y]).m_node == f.heap@[y].m_node,
    ensures kept(f2, lv)
{
    reveal(kept);
    let n = f.m_num_leaves as int;
    assert forall|h: H| #[trigger] f2.m_posmap@.contains_key(h) implies rheld(f2, f2.m_posmap@[h] as int) by {
        let i = f2.m_posmap@[h] as int; assert(rheld(f, i));
        assert forall|R: int| R >= 0 && #[trigger] in_tree(n, R, 0, i) implies held(f2, rnode(f2, n, R), R, i) by { root_index_ok(n, R); assert(nok(f, f.m_roots@[trees_above(n, R) as int])); held_same(f, f2, rnode(f, n, R), R, i); }
    }
}

// ---- construction
pub proof fn fresh_ok(f: Pollard, lv: Seq<H>, n: int, co: Map<int, (int, int)>)
    requires n == 0, f.m_num_leaves == 0, f.m_roots@.len() == 0, f.m_posmap@ == Map::<H, u64>::empty(), iok(f, f.m_remember), inn(f), lv.len() == 0, co == Map::<int, (int, int)>::empty()
    ensures prep(f, lv), kept(f, lv)
{
    reveal(kept); assert forall|R: int| R >= 0 && #[trigger] bit(0, R) implies false by { p2_pos(R as nat); vstd::arithmetic::div_mod::lemma_basic_div(0, p2(R as nat) as int); }
    assert(popc(0) == 0); assert(pinv(f, lv, co));
}
/// the first k roots are restored
pub open spec fn restored(f: Pollard, roots: Seq<H>, n: u64, k: int) -> bool {
    &&& f.m_num_leaves == n && f.m_roots@.len() == k && f.m_posmap@ == Map::<H, u64>::empty() && iok(f, f.m_remember) && f.m_remember.i == 0 && inn(f) && f.heap@.len() == k && f.iheap@.len() == k + 1
    &&& forall|j: int| 0 <= j < k ==> (#[trigger] f.m_roots@[j]).i == j && !f.m_roots@[j].null
    &&& forall|j: int| 0 <= j < k ==> (#[trigger] f.heap@[j]).m_node.i == j + 1 && !f.heap@[j].m_node.null && f.heap@[j].m_sibling == f.heap@[j].m_node && f.heap@[j].m_parent.null
    &&& forall|j: int| 1 <= j <= k ==> (#[trigger] f.iheap@[j]).m_hash == roots[j - 1] && nc(f, j, 0).null && nc(f, j, 1).null
}
pub proof fn restore_start(f: Pollard, roots: Seq<H>, n: u64, st: ForestState)
    requires f.m_num_leaves == n, f.m_roots@.len() == 0, f.m_posmap@ == Map::<H, u64>::empty(), iok(f, f.m_remember), f.m_remember.i == 0, inn(f), f.heap@.len() == 0, f.iheap@.len() == 1
    ensures restored(f, roots, n, 0)
{ }
/// the row of root number j
pub open spec fn row_of(n: int, j: int) -> int { choose|R: int| R >= 0 && #[trigger] bit(n, R) && trees_above(n, R) == j }
pub proof fn row_of_is(n: int, R: int) requires n >= 0, R >= 0, bit(n, R) ensures row_of(n, trees_above(n, R) as int) == R, bit(n, R)
{
    let R2 = row_of(n, trees_above(n, R) as int); assert(R2 >= 0 && bit(n, R2) && trees_above(n, R2) == trees_above(n, R));
    if R2 < R { trees_lt(n, R2, R); } if R < R2 { trees_lt(n, R, R2); }
}
pub proof fn row_ex(n: nat, j: int) -> (R: int) requires 0 <= j < popc(n) ensures R >= 0, bit(n as int, R), trees_above(n as int, R) == j decreases n
{
    popc_step(n); assert(p2(0) == 1 && p2(1) == 2) by { p2_vals(); }
    assert(n as int / 1 == n);
    if n % 2 == 1 && j == popc(n / 2) { assert(bit(n as int, 0)); assert(n as int / p2(1) as int == (n / 2) as int); assert(trees_above(n as int, 0) == popc(n / 2)); 0 }
    else {
        let R = row_ex(n / 2, j); let m = (n / 2) as int;
        anc_div(n as int, 1, R as nat); anc_div(n as int, 1, (R + 1) as nat); assert(1 + R as nat == (R + 1) as nat); assert(1 + (R + 1) as nat == (R + 2) as nat);
        assert(n as int / p2(1) as int == m);
        assert(n as int / p2((R + 1) as nat) as int == m / p2(R as nat) as int);
        assert(n as int / p2((R + 2) as nat) as int == m / p2((R + 1) as nat) as int);
        assert(trees_above(n as int, R + 1) == trees_above(m, R)); assert(bit(m, R));
        assert(bit(n as int, R + 1)); R + 1
    }
}
/// the labels of a restored pollard
pub open spec fn rco(n: int, k: int) -> Map<int, (int, int)> decreases k { if k <= 0 { Map::empty() } else { rco(n, k - 1).insert(k, (row_of(n, k - 1), ri(n, row_of(n, k - 1)))) } }
pub proof fn rco_is(n: int, k: int) requires k >= 0 ensures forall|x: int| #[trigger] rco(n, k).contains_key(x) <==> 1 <= x <= k, forall|x: int| 1 <= x <= k ==> #[trigger] rco(n, k)[x] == (row_of(n, x - 1), ri(n, row_of(n, x - 1))) decreases k {
    if k > 0 {
        rco_is(n, k - 1); let a = rco(n, k - 1); let b = rco(n, k); assert(b == a.insert(k, (row_of(n, k - 1), ri(n, row_of(n, k - 1)))));
        assert forall|x: int| #[trigger] b.contains_key(x) <==> 1 <= x <= k by { assert(a.contains_key(x) <==> 1 <= x <= k - 1); }
        assert forall|x: int| 1 <= x <= k implies #[trigger] b[x] == (row_of(n, x - 1), ri(n, row_of(n, x - 1))) by { if x < k { assert(a[x] == (row_of(n, x - 1), ri(n, row_of(n, x - 1)))); } }
    }
}
pub proof fn restored_ok(f: Pollard, roots: Seq<H>, n: u64, lv: Seq<H>)
    requires okn(n), roots.len() == popc(n as nat), restored(f, roots, n, roots.len() as int), lv.len() == n,
        forall|R: int| R >= 0 && #[trigger] bit(n as int, R) ==> roots[trees_above(n as int, R) as int] == mk(lv, R, ri(n as int, R))
    ensures prep(f, lv), kept(f, lv)
{
    let nn = n as int; let k = roots.len() as int; let rs = rs_of(nn);
    let co = rco(nn, k); rco_is(nn, k);
    reveal(kept);
    assert forall|x: int| #[trigger] co.contains_key(x) implies labk(f, lv, co, rs, x) && ex(nn, co[x].0, co[x].1) && trees_above(nn, co[x].0) == x - 1 by {
        let R = row_ex(n as nat, x - 1); row_of_is(nn, R); root_ex(nn, R); assert(roots[trees_above(nn, R) as int] == mk(lv, R, ri(nn, R))); assert(f.iheap@[x].m_hash == roots[x - 1]);
    }
    assert forall|x: int, y: int| #[trigger] co.contains_key(x) && #[trigger] co.contains_key(y) && co[x] == co[y] implies x == y by { }
    assert forall|R: int| R >= 0 && #[trigger] bit(nn, R) implies rootlab(f, co, R, ri(nn, R), trees_above(nn, R) as int) by { root_index_ok(nn, R); row_of_is(nn, R); let j = trees_above(nn, R) as int; assert(f.m_roots@[j].i == j); assert(f.heap@[j].m_node.i == j + 1); assert(co.contains_key(j + 1)); }
    assert forall|j: int| 0 <= j < f.m_roots@.len() implies nok(f, #[trigger] f.m_roots@[j]) && f.heap@[f.m_roots@[j].i as int].m_parent.null && iok(f, f.heap@[f.m_roots@[j].i as int].m_node) && iok(f, f.heap@[f.m_roots@[j].i as int].m_sibling) by { assert(f.heap@[j].m_node.i == j + 1); }
    assert(pinv(f, lv, co));
}
// ---- reading
/// the pointers found when walking from the root of the tree on row R down to the node (r,i): the node and its sibling
pub open spec fn walk(f: Pollard, R: int, r: int, i: int) -> (NP, NP) decreases R - r {
    let n = f.m_num_leaves as int;
    if r >= R { let p = f.heap@[f.m_roots@[trees_above(n, R) as int].i as int].m_node; (p, p) }
    else { let up = walk(f, R, r + 1, i / 2); if up.1.null { (NP { null: true, i: 0 }, NP { null: true, i: 0 }) } else { (nc(f, up.1.i as int, i % 2), nc(f, up.1.i as int, 1 - i % 2)) } }
}
/// an absent sibling higher up: nothing is found
pub proof fn walk_null(f: Pollard, R: int, r: int, i: int, d: int) requires 0 <= r, r + d < R, d >= 0, i >= 0, walk(f, R, r + 1 + d, i / p2((d + 1) as nat) as int).1.null ensures walk(f, R, r, i) == (NP { null: true, i: 0 }, NP { null: true, i: 0 }) decreases d
{
    if d > 0 { anc_div(i, 1, d as nat); assert(p2(1) == 2) by { p2_vals(); } assert(1 + d as nat == (d + 1) as nat); assert((i / 2) / p2(d as nat) as int == i / p2((d + 1) as nat) as int); walk_null(f, R, r + 1, i / 2, d - 1); }
    else { assert(p2(1) == 2) by { p2_vals(); } }
}
/// below the root of a tree there is no root
pub proof fn in_tree_up(n: int, R: int, r: int, i: int) requires n >= 0, in_tree(n, R, r, i), r < R ensures in_tree(n, R, r + 1, i / 2), !rs_of(n)(r, i), !rs_of(n)(r, sib(i))
{
    anc_div(i, 1, (R - r - 1) as nat); assert(p2(1) == 2) by { p2_vals(); } assert(1 + (R - r - 1) as nat == (R - r) as nat);
    div2(n, r); anc_div(n, (r + 1) as nat, (R - r - 1) as nat); assert((r + 1) as nat + (R - r - 1) as nat == R as nat); div2(n, R);
    if rs_of(n)(r, i) || rs_of(n)(r, sib(i)) { assert(i / 2 == n / p2((r + 1) as nat) as int); }
}
pub proof fn walk_step(f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, rs: spec_fn(int, int) -> bool, k: int, r: int, i: int)
    requires lab(f, lv, co, rs), co.contains_key(k), co[k].0 == r + 1, sibc(rs, r + 1, co[k].1) == i / 2, r >= 0, i >= 0, !rs(r, i)
    ensures child_ok(co, nc(f, k, i % 2), r, i), child_ok(co, nc(f, k, 1 - i % 2), r, sibc(rs, r, i))
{ kid(f, lv, co, rs, k, 0); kid(f, lv, co, rs, k, 1); assert(i == 2 * (i / 2) + i % 2); }
#[verifier::spinoff_prover] #[verifier::rlimit(40)]
pub proof fn walk_ok(f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, R: int, r: int, i: int)
    requires pinv(f, lv, co), in_tree(f.m_num_leaves as int, R, r, i), 0 <= r
    ensures child_ok(co, walk(f, R, r, i).0, r, i), child_ok(co, walk(f, R, r, i).1, r, sibc(rs_of(f.m_num_leaves as int), r, i)), r == R ==> !walk(f, R, r, i).0.null && rs_of(f.m_num_leaves as int)(r, i)
    decreases R - r
{
    let n = f.m_num_leaves as int; let rs = rs_of(n);
    if r == R { assert(p2(0) == 1); assert(i / 1 == i); assert(rootlab(f, co, R, ri(n, R), trees_above(n, R) as int)); root_index_ok(n, R); assert(nok(f, f.m_roots@[trees_above(n, R) as int])); }
    else {
        in_tree_up(n, R, r, i); walk_ok(f, lv, co, R, r + 1, i / 2); let up = walk(f, R, r + 1, i / 2);
        if !up.1.null { if r + 1 < R { in_tree_up(n, R, r + 1, i / 2); } walk_step(f, lv, co, rs, up.1.i as int, r, i); }
    }
}
/// walking along the path of a leaf whose proof is cached
pub proof fn walk_held(f: Pollard, R: int, r: int, leaf: int)
    requires pol_wf(f), leaf >= 0, 0 <= r <= R, in_tree(f.m_num_leaves as int, R, 0, leaf), rheld(f, leaf)
    ensures !walk(f, R, r, leaf / p2(r as nat) as int).1.null, held(f, walk(f, R, r, leaf / p2(r as nat) as int).1.i as int, r, leaf)
    decreases R - r
{
    let a = leaf / p2(r as nat) as int; p2_pos(r as nat);
    if r == R { let n = f.m_num_leaves as int; assert(held(f, rnode(f, n, R), R, leaf)); root_index_ok(n, R); assert(nok(f, f.m_roots@[trees_above(n, R) as int])); }
    else { walk_held(f, R, r + 1, leaf); div2(leaf, r); assert(a / 2 == leaf / p2((r + 1) as nat) as int); }
}
pub proof fn leaf_at(n: u64, i: u64) requires okn(n), i < n ensures at(n, i, 0, i as int) { nr_62(n); nr_spec(n as nat); assert(p2(0) == 1); assert(n as int / 1 == n); assert(gp(hh_of(n), 0, i as int) == i); idx_gv(n as int, hh_of(n), 0, i as int); }
/// turn t of the path: the complement of a bit of the index
pub proof fn path_bit(pb: u64, iu: u64, len: u64, t: u64) requires len <= 62, t < len, pb & sub(1u64 << len, 1u64) == !iu & sub(1u64 << len, 1u64)
    ensures (pb >> t) & 1 == (if (iu as int / p2(t as nat) as int) % 2 == 1 { 0u64 } else { 1u64 }), (iu as int / p2(t as nat) as int) / 2 == iu as int / p2((t + 1) as nat) as int
{
    shr_div(iu, t); div2(iu as int, t as int); let x = iu >> t;
    assert((pb >> t) & 1 == 1 - ((iu >> t) & 1)) by(bit_vector) requires len <= 62, t < len, pb & sub(1u64 << len, 1u64) == !iu & sub(1u64 << len, 1u64);
    assert(x & 1 == x % 2) by(bit_vector);
}
/// what a read finds
pub proof fn read_ok(f: Pollard, lv: Seq<H>, R: int, r: int, i: int) requires prep(f, lv), in_tree(f.m_num_leaves as int, R, r, i), 0 <= r ensures !walk(f, R, r, i).0.null ==> f.iheap@[walk(f, R, r, i).0.i as int].m_hash == mk(lv, r, i), rs_of(f.m_num_leaves as int)(r, i) ==> !walk(f, R, r, i).0.null
{
    let co = choose|co: Map<int, (int, int)>| pinv(f, lv, co); walk_ok(f, lv, co, R, r, i); let p = walk(f, R, r, i).0; if !p.null { assert(labk(f, lv, co, rs_of(f.m_num_leaves as int), p.i as int)); }
    if rs_of(f.m_num_leaves as int)(r, i) && r < R { in_tree_up(f.m_num_leaves as int, R, r, i); }
}
pub proof fn read_held(f: Pollard, R: int, r: int, i: int, leaf: int) requires pol_wf(f), in_tree(f.m_num_leaves as int, R, r, i), 0 <= r, i >= 0, leaf >= 0, rheld(f, leaf), leaf / p2(r as nat) as int == sib(i), !rs_of(f.m_num_leaves as int)(r, i) ensures !walk(f, R, r, i).0.null
{
    let n = f.m_num_leaves as int; if r == R { assert(p2(0) == 1); assert(i / 1 == i); assert(rs_of(n)(r, i)); }
    in_tree_up(n, R, r, i); div2(leaf, r); assert(sib(i) / 2 == i / 2); anc_div(leaf, (r + 1) as nat, (R - r - 1) as nat); assert((r + 1) as nat + (R - r - 1) as nat == (R - 0) as nat); assert(in_tree(n, R, 0, leaf));
    walk_held(f, R, r + 1, leaf); assert(leaf / p2((r + 1) as nat) as int == i / 2);
    let k = walk(f, R, r + 1, i / 2).1.i as int; assert(held(f, k, r + 1, leaf)); assert(bit(leaf, r) <==> i % 2 == 0);
}
/// the proof that belongs to these hashes
pub open spec fn pproof_right(f: Pollard, lv: Seq<H>, p: BatchProof, hs: Seq<H>) -> bool {
    let n = f.m_num_leaves as int; let pp = proofs(n, hh_of(f.m_num_leaves), ints(p.m_sorted_targets@), hh_of(f.m_num_leaves) + 1);
    p.m_targets@ == poss(f.m_posmap@, hs) && sort_of(p.m_sorted_targets@, p.m_targets@) && targets_ok(f.m_num_leaves, p.m_sorted_targets@)
    && p.m_proof@.len() == pp.len() && (forall|k: int, r: int, i: int| 0 <= k < pp.len() && #[trigger] at(f.m_num_leaves, pp[k], r, i) ==> p.m_proof@[k] == mk(lv, r, i))
}
/// dropping children keeps the pollard correct
pub proof fn chop_ok(g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>)
    requires pinv(g, lv, co), f.heap == g.heap, f.m_roots == g.m_roots, f.m_num_leaves == g.m_num_leaves, f.m_remember == g.m_remember, f.iheap@.len() == g.iheap@.len(),
        forall|k: int| 0 <= k < g.iheap@.len() ==> (#[trigger] f.iheap@[k]).m_hash == g.iheap@[k].m_hash && (nc(f, k, 0).null || nc(f, k, 0) == nc(g, k, 0)) && (nc(f, k, 1).null || nc(f, k, 1) == nc(g, k, 1)),
    ensures pinv(f, lv, co)
{
    let n = g.m_num_leaves as int;
    assert forall|k: int| #[trigger] co.contains_key(k) implies labk(f, lv, co, rs_of(n), k) by { assert(labk(g, lv, co, rs_of(n), k)); assert(f.iheap@[k].m_hash == g.iheap@[k].m_hash); }
    assert forall|k: int, b: int| 0 <= k < f.iheap@.len() && 0 <= b < 2 implies (#[trigger] f.iheap@[k].m_nieces@[b]).null || f.iheap@[k].m_nieces@[b].i < f.iheap@.len() by { assert(f.iheap@[k].m_hash == g.iheap@[k].m_hash); assert(g.iheap@[k].m_nieces@[b].null || g.iheap@[k].m_nieces@[b].i < g.iheap@.len()); assert(b == 0 || b == 1); assert(nc(f, k, b).null || nc(f, k, b) == nc(g, k, b)); }
    assert forall|j: int| 0 <= j < f.m_roots@.len() implies nok(f, #[trigger] f.m_roots@[j]) && f.heap@[f.m_roots@[j].i as int].m_parent.null && iok(f, f.heap@[f.m_roots@[j].i as int].m_node) && iok(f, f.heap@[f.m_roots@[j].i as int].m_sibling) by { assert(nok(g, g.m_roots@[j])); }
    assert forall|R: int| R >= 0 && #[trigger] bit(n, R) implies rootlab(f, co, R, ri(n, R), trees_above(n, R) as int) by { assert(rootlab(g, co, R, ri(n, R), trees_above(n, R) as int)); }
}
/// a rejected verification (what unit `pollard` proves about it) leaves the pollard correct, with every remembered leaf still provable
pub proof fn rejected_ok(g: Pollard, f: Pollard, lv: Seq<H>)
    requires pol_wf(g), pol_wf(f), hinv(g, f), f.m_posmap@ == g.m_posmap@,
        forall|k: int, b: int| 0 <= k < g.iheap@.len() && 0 <= b < 2 ==> npeq(#[trigger] nc(f, k, b), nc(g, k, b)),
    ensures prep(g, lv) ==> prep(f, lv), prep(g, lv) && kept(g, lv) ==> kept(f, lv)
{
    if prep(g, lv) {
        let co = choose|co: Map<int, (int, int)>| pinv(g, lv, co); let n = g.m_num_leaves as int;
        assert forall|k: int| #[trigger] co.contains_key(k) implies labk(f, lv, co, rs_of(n), k) by { assert(labk(g, lv, co, rs_of(n), k)); assert(f.iheap@[k].m_hash == g.iheap@[k].m_hash); assert(npeq(nc(f, k, 0), nc(g, k, 0))); assert(npeq(nc(f, k, 1), nc(g, k, 1))); }
        assert forall|R: int| R >= 0 && #[trigger] bit(n, R) implies rootlab(f, co, R, ri(n, R), trees_above(n, R) as int) by { assert(rootlab(g, co, R, ri(n, R), trees_above(n, R) as int)); root_index_ok(n, R); assert(nok(g, g.m_roots@[trees_above(n, R) as int])); }
        assert(pinv(f, lv, co));
        if kept(g, lv) {
            reveal(kept);
            assert forall|h: H| #[trigger] f.m_posmap@.contains_key(h) implies rheld(f, f.m_posmap@[h] as int) by {
                let i = f.m_posmap@[h] as int; assert(rheld(g, i));
                assert forall|R: int| R >= 0 && #[trigger] in_tree(n, R, 0, i) implies held(f, rnode(f, n, R), R, i) by {
                    root_index_ok(n, R); assert(nok(g, g.m_roots@[trees_above(n, R) as int])); assert(rootlab(g, co, R, ri(n, R), trees_above(n, R) as int));
                    held_npeq(g, f, lv, co, rs_of(n), rnode(g, n, R), R, i);
                }
            }
        }
    }
}
pub proof fn held_npeq(g: Pollard, f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, rs: spec_fn(int, int) -> bool, k: int, d: int, i: int)
    requires lab(g, lv, co, rs), co.contains_key(k), co[k].0 == d, 0 <= d, f.m_remember == g.m_remember, held(g, k, d, i),
        forall|x: int, b: int| 0 <= x < g.iheap@.len() && 0 <= b < 2 ==> npeq(#[trigger] nc(f, x, b), nc(g, x, b)),
    ensures held(f, k, d, i)
    decreases d
{
    assert(labk(g, lv, co, rs, k)); assert(npeq(nc(f, k, 0), nc(g, k, 0)) && npeq(nc(f, k, 1), nc(g, k, 1)));
    if d > 0 { let b: int = if bit(i, d - 1) { 0 } else { 1 }; kid(g, lv, co, rs, k, b); held_npeq(g, f, lv, co, rs, nc(g, k, b).i as int, d - 1, i); }
}
// ---- counting
pub open spec fn crank(co: Map<int, (int, int)>, f: Pollard, p: NP) -> nat { if p.null || p.i == f.m_remember.i || !co.contains_key(p.i as int) { 0 } else { (co[p.i as int].0 + 1) as nat } }
/// the number of cached nodes reached from p
pub open spec fn cnt(f: Pollard, co: Map<int, (int, int)>, p: NP) -> int decreases crank(co, f, p) {
    if p.null || p.i == f.m_remember.i { 0 } else { let a = nc(f, p.i as int, 0); let b = nc(f, p.i as int, 1);
        1 + (if crank(co, f, a) < crank(co, f, p) { cnt(f, co, a) } else { 0 }) + (if crank(co, f, b) < crank(co, f, p) { cnt(f, co, b) } else { 0 }) }
}
pub open spec fn cnts(f: Pollard, co: Map<int, (int, int)>, k: int) -> int decreases k { if k <= 0 { 0 } else { cnts(f, co, k - 1) + cnt(f, co, f.heap@[f.m_roots@[k - 1].i as int].m_node) } }
pub proof fn cnt_facts(f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, p: NP) requires pinv(f, lv, co), p.null || p.i == f.m_remember.i || co.contains_key(p.i as int)
    ensures !p.null && p.i != f.m_remember.i ==> p.i < f.iheap@.len() && crank(co, f, nc(f, p.i as int, 0)) < crank(co, f, p) && crank(co, f, nc(f, p.i as int, 1)) < crank(co, f, p)
        && ({ let a = nc(f, p.i as int, 0); a.null || a.i == f.m_remember.i || co.contains_key(a.i as int) }) && ({ let a = nc(f, p.i as int, 1); a.null || a.i == f.m_remember.i || co.contains_key(a.i as int) }),
        !f.m_remember.null
{ if !p.null && p.i != f.m_remember.i { assert(labk(f, lv, co, rs_of(f.m_num_leaves as int), p.i as int)); let a = nc(f, p.i as int, 0); let b = nc(f, p.i as int, 1); 
    if !a.null && a.i != f.m_remember.i { assert(labk(f, lv, co, rs_of(f.m_num_leaves as int), a.i as int)); } if !b.null && b.i != f.m_remember.i { assert(labk(f, lv, co, rs_of(f.m_num_leaves as int), b.i as int)); } } }
pub proof fn root_in(f: Pollard, lv: Seq<H>, co: Map<int, (int, int)>, j: int) requires pinv(f, lv, co), 0 <= j < f.m_roots@.len() ensures co.contains_key(f.heap@[f.m_roots@[j].i as int].m_node.i as int)
{ let n = f.m_num_leaves as int; let R = row_ex(n as nat, j); assert(rootlab(f, co, R, ri(n, R), trees_above(n, R) as int)); }
