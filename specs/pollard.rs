// ---------------------------------------------------------------------------
// The pollard: memory-level facts
// ---------------------------------------------------------------------------
/// std::make_shared: a new object, distinct from all others
pub fn mk_node(heap: &mut Vec<RNode>, x: RNode) -> (r: NP) ensures !r.null, r.i == old(heap)@.len(), final(heap)@ == old(heap)@.push(x) { let i = heap.len(); heap.push(x); NP { null: false, i: i } }
pub fn mk_inode(heap: &mut Vec<InternalNode>, x: InternalNode) -> (r: NP) ensures !r.null, r.i == old(heap)@.len(), final(heap)@ == old(heap)@.push(x) { let i = heap.len(); heap.push(x); NP { null: false, i: i } }
#[verifier::external_body] pub fn vprepend(a: &mut Vec<NP>, b: &Vec<NP>) ensures final(a)@ == b@ + old(a)@ { unimplemented!() }
#[verifier::external_body] pub fn vconcat(a: &mut Vec<NP>, b: &Vec<NP>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
pub open spec fn iok(f: Pollard, p: NP) -> bool { !p.null && p.i < f.iheap@.len() }
pub open spec fn nok(f: Pollard, p: NP) -> bool { !p.null && p.i < f.heap@.len() }
pub open spec fn npeq(a: NP, b: NP) -> bool { a.null == b.null && (a.null || a.i == b.i) }
/// niece b of inner node k
pub open spec fn nc(f: Pollard, k: int, b: int) -> NP { f.iheap@[k].m_nieces@[b] }
pub open spec fn fl(v: u8, m: u8) -> bool { v & m != 0 }
/// the flag arithmetic of the code (in int) is arithmetic on the bits of the flag byte
pub proof fn flags()
    ensures
        forall|v: u8| (#[trigger] ((v as i32) & 1i32) != 0) == fl(v, 1), forall|v: u8| (#[trigger] ((v as i32) & 2i32) != 0) == fl(v, 2),
        forall|v: u8| (#[trigger] ((v as i32) & 4i32) != 0) == fl(v, 4), forall|v: u8| (#[trigger] ((v as i32) & 8i32) != 0) == fl(v, 8),
        forall|v: u8| (#[trigger] ((v as i32) | 1i32)) as u8 == v | 1u8, forall|v: u8| (#[trigger] ((v as i32) | 2i32)) as u8 == v | 2u8,
        forall|v: u8| (#[trigger] ((v as i32) | 4i32)) as u8 == v | 4u8, forall|v: u8| (#[trigger] ((v as i32) | 8i32)) as u8 == v | 8u8,
        forall|v: u8| (#[trigger] ((v as i32) & (-3i32))) as u8 == v & 0xfdu8,
        forall|v: u8, m: u8| m != 1 && (m == 2 || m == 4 || m == 8) ==> #[trigger] fl(v | 1u8, m) == fl(v, m), forall|v: u8| fl(#[trigger] (v | 1u8), 1),
        forall|v: u8, m: u8| m == 1 || m == 4 || m == 8 ==> #[trigger] fl(v | 2u8, m) == fl(v, m), forall|v: u8| fl(#[trigger] (v | 2u8), 2),
        forall|v: u8, m: u8| m == 1 || m == 2 || m == 8 ==> #[trigger] fl(v | 4u8, m) == fl(v, m), forall|v: u8| fl(#[trigger] (v | 4u8), 4),
        forall|v: u8, m: u8| m == 1 || m == 2 || m == 4 ==> #[trigger] fl(v | 8u8, m) == fl(v, m), forall|v: u8| fl(#[trigger] (v | 8u8), 8),
        forall|v: u8, m: u8| m == 1 || m == 4 || m == 8 ==> #[trigger] fl(v & 0xfdu8, m) == fl(v, m), forall|v: u8| !fl(#[trigger] (v & 0xfdu8), 2),
        (4i32 | 8i32) as u8 == 12u8, fl(12, 4), fl(12, 8), !fl(12, 1), !fl(12, 2), forall|m: u8| !#[trigger] fl(0, m),
{
    assert forall|v: u8| true implies (#[trigger] ((v as i32) & 1i32) != 0) == fl(v, 1) by { assert((((v as i32) & 1i32) != 0) == (v & 1 != 0)) by(bit_vector); }
    assert forall|v: u8| true implies (#[trigger] ((v as i32) & 2i32) != 0) == fl(v, 2) by { assert((((v as i32) & 2i32) != 0) == (v & 2 != 0)) by(bit_vector); }
    assert forall|v: u8| true implies (#[trigger] ((v as i32) & 4i32) != 0) == fl(v, 4) by { assert((((v as i32) & 4i32) != 0) == (v & 4 != 0)) by(bit_vector); }
    assert forall|v: u8| true implies (#[trigger] ((v as i32) & 8i32) != 0) == fl(v, 8) by { assert((((v as i32) & 8i32) != 0) == (v & 8 != 0)) by(bit_vector); }
    assert(forall|v: u8| (#[trigger] ((v as i32) | 1i32)) as u8 == v | 1u8) by(bit_vector);
    assert(forall|v: u8| (#[trigger] ((v as i32) | 2i32)) as u8 == v | 2u8) by(bit_vector);
    assert(forall|v: u8| (#[trigger] ((v as i32) | 4i32)) as u8 == v | 4u8) by(bit_vector);
    assert(forall|v: u8| (#[trigger] ((v as i32) | 8i32)) as u8 == v | 8u8) by(bit_vector);
    assert(forall|v: u8| (#[trigger] ((v as i32) & (-3i32))) as u8 == v & 0xfdu8) by(bit_vector);
    assert forall|v: u8, m: u8| m != 1 && (m == 2 || m == 4 || m == 8) implies #[trigger] fl(v | 1u8, m) == fl(v, m) by { assert(((v | 1u8) & m != 0) == (v & m != 0)) by(bit_vector) requires m == 2 || m == 4 || m == 8; }
    assert forall|v: u8, m: u8| m == 1 || m == 4 || m == 8 implies #[trigger] fl(v | 2u8, m) == fl(v, m) by { assert(((v | 2u8) & m != 0) == (v & m != 0)) by(bit_vector) requires m == 1 || m == 4 || m == 8; }
    assert forall|v: u8, m: u8| m == 1 || m == 2 || m == 8 implies #[trigger] fl(v | 4u8, m) == fl(v, m) by { assert(((v | 4u8) & m != 0) == (v & m != 0)) by(bit_vector) requires m == 1 || m == 2 || m == 8; }
    assert forall|v: u8, m: u8| m == 1 || m == 2 || m == 4 implies #[trigger] fl(v | 8u8, m) == fl(v, m) by { assert(((v | 8u8) & m != 0) == (v & m != 0)) by(bit_vector) requires m == 1 || m == 2 || m == 4; }
    assert forall|v: u8, m: u8| m == 1 || m == 4 || m == 8 implies #[trigger] fl(v & 0xfdu8, m) == fl(v, m) by { assert(((v & 0xfdu8) & m != 0) == (v & m != 0)) by(bit_vector) requires m == 1 || m == 4 || m == 8; }
    assert forall|v: u8| fl(#[trigger] (v | 1u8), 1) by { assert((v | 1u8) & 1 != 0) by(bit_vector); }
    assert forall|v: u8| fl(#[trigger] (v | 2u8), 2) by { assert((v | 2u8) & 2 != 0) by(bit_vector); }
    assert forall|v: u8| fl(#[trigger] (v | 4u8), 4) by { assert((v | 4u8) & 4 != 0) by(bit_vector); }
    assert forall|v: u8| fl(#[trigger] (v | 8u8), 8) by { assert((v | 8u8) & 8 != 0) by(bit_vector); }
    assert forall|v: u8| !fl(#[trigger] (v & 0xfdu8), 2) by { assert((v & 0xfdu8) & 2 == 0) by(bit_vector); }
    assert((4i32 | 8i32) as u8 == 12u8) by(bit_vector);
    assert(12u8 & 4 != 0 && 12u8 & 8 != 0 && 12u8 & 1 == 0 && 12u8 & 2 == 0) by(bit_vector);
    assert forall|m: u8| !#[trigger] fl(0, m) by { assert(0u8 & m == 0) by(bit_vector); }
}
/// all nieces are null or existing inner nodes
pub open spec fn inn(f: Pollard) -> bool { forall|k: int, b: int| 0 <= k < f.iheap@.len() && 0 <= b < 2 ==> (#[trigger] f.iheap@[k].m_nieces@[b]).null || f.iheap@[k].m_nieces@[b].i < f.iheap@.len() }
/// a pollard between two operations: one root node per tree, without parent
pub open spec fn pol_wf(f: Pollard) -> bool {
    &&& okn(f.m_num_leaves) && f.m_roots@.len() == popc(f.m_num_leaves as nat) && iok(f, f.m_remember) && inn(f)
    &&& forall|j: int| 0 <= j < f.m_roots@.len() ==> nok(f, #[trigger] f.m_roots@[j]) && f.heap@[f.m_roots@[j].i as int].m_parent.null && iok(f, f.heap@[f.m_roots@[j].i as int].m_node) && iok(f, f.heap@[f.m_roots@[j].i as int].m_sibling)
}
/// a node that was there before the verification, as the roots are
pub open spec fn okroot(g: Pollard, x: int) -> bool { 0 <= x < g.heap@.len() && g.heap@[x].m_parent.null && iok(g, g.heap@[x].m_node) && iok(g, g.heap@[x].m_sibling) }
/// a node of the proof tree: made for it, or an attached root; g is the pollard before the verification
pub open spec fn ract(g: Pollard, f: Pollard, x: int) -> bool { 0 <= x < f.heap@.len() && (x < g.heap@.len() ==> okroot(g, x) && fl(f.heap@[x].m_verification_flag, 4)) }
/// what no step of a verification changes
pub open spec fn hinv(g: Pollard, f: Pollard) -> bool {
    &&& f.m_num_leaves == g.m_num_leaves && f.m_roots@ == g.m_roots@ && f.m_remember == g.m_remember
    &&& f.heap@.len() >= g.heap@.len() && f.iheap@.len() >= g.iheap@.len()
    &&& forall|x: int| 0 <= x < g.heap@.len() ==> (#[trigger] f.heap@[x]).m_node == g.heap@[x].m_node && f.heap@[x].m_sibling == g.heap@[x].m_sibling && f.heap@[x].m_parent == g.heap@[x].m_parent
    &&& forall|k: int| 0 <= k < g.iheap@.len() ==> (#[trigger] f.iheap@[k]).m_hash == g.iheap@[k].m_hash
    &&& inn(f)
}
/// during a verification: hinv; the inner node of a new node exists, and is cached or was made for this proof; nothing new refers to an old inner node
pub open spec fn vinv(g: Pollard, f: Pollard) -> bool {
    &&& hinv(g, f) && f.m_posmap@ == g.m_posmap@
    &&& forall|x: int| g.heap@.len() <= x < f.heap@.len() ==> iok(f, (#[trigger] f.heap@[x]).m_node) && iok(f, f.heap@[x].m_sibling) && (fl(f.heap@[x].m_verification_flag, 4) || f.heap@[x].m_node.i >= g.iheap@.len())
    &&& forall|x: int| g.heap@.len() <= x < f.heap@.len() ==> !(#[trigger] f.heap@[x].m_parent).null && f.heap@[x].m_parent.i < x && ract(g, f, f.heap@[x].m_parent.i as int)
    &&& forall|k: int, b: int| g.iheap@.len() <= k < f.iheap@.len() && 0 <= b < 2 ==> (#[trigger] f.iheap@[k].m_nieces@[b]).null || f.iheap@[k].m_nieces@[b].i >= g.iheap@.len()
}
/// the recovery entry removes niece b of inner node k
pub open spec fn covers(f: Pollard, e: (NP, i32), k: int, b: int) -> bool { f.heap@[e.0.i as int].m_sibling.i == k && (e.1 == 2 || e.1 == b) }
/// every change to the nieces of an old inner node is undone by an entry of the recovery list (from an index on), and these entries undo nothing else
pub open spec fn rinv(g: Pollard, f: Pollard, rec: Seq<(NP, i32)>, from: int) -> bool {
    &&& forall|k: int, b: int| 0 <= k < g.iheap@.len() && 0 <= b < 2 ==> #[trigger] rest(g, f, rec, from, k, b)
    &&& forall|j: int| 0 <= j < rec.len() ==> nok(f, (#[trigger] rec[j]).0) && iok(f, f.heap@[rec[j].0.i as int].m_sibling) && 0 <= rec[j].1 <= 2
    &&& forall|j: int, k: int, b: int| 0 <= j < rec.len() && 0 <= k < g.iheap@.len() && 0 <= b < 2 && #[trigger] covers(f, rec[j], k, b) ==> nc(g, k, b).null
}
pub open spec fn rest(g: Pollard, f: Pollard, rec: Seq<(NP, i32)>, from: int, k: int, b: int) -> bool { npeq(nc(f, k, b), nc(g, k, b)) || (nc(g, k, b).null && exists|j: int| from <= j < rec.len() && covers(f, #[trigger] rec[j], k, b)) }
/// all entries are nodes of the proof tree
pub open spec fn lact(g: Pollard, f: Pollard, l: Seq<NP>) -> bool { forall|j: int| 0 <= j < l.len() ==> !(#[trigger] l[j]).null && ract(g, f, l[j].i as int) }
/// the positions of the targets, entered one after the other
pub open spec fn pmset(m: Map<H, u64>, hs: Seq<H>, ts: Seq<u64>, k: int) -> Map<H, u64> decreases k { if k <= 0 { m } else { pmset(m, hs, ts, k - 1).insert(hs[k - 1], ts[k - 1]) } }

/// the old nodes keep their inner nodes
pub open spec fn same_sib(f: Pollard, f2: Pollard) -> bool { f2.heap@.len() >= f.heap@.len() && f2.iheap@.len() >= f.iheap@.len() && forall|x: int| 0 <= x < f.heap@.len() ==> (#[trigger] f2.heap@[x]).m_sibling == f.heap@[x].m_sibling }
/// one step of building the proof tree: at most one entry is added to the recovery list, and it covers all nieces that were added to an old inner node
pub proof fn rinv_step(g: Pollard, f: Pollard, f2: Pollard, rec: Seq<(NP, i32)>, rec2: Seq<(NP, i32)>)
    requires rinv(g, f, rec, 0), same_sib(f, f2), f.iheap@.len() >= g.iheap@.len(),
        rec2 == rec || (rec2.len() == rec.len() + 1 && rec2.drop_last() =~= rec && nok(f2, rec2.last().0) && iok(f2, f2.heap@[rec2.last().0.i as int].m_sibling) && 0 <= rec2.last().1 <= 2),
        forall|k: int, b: int| 0 <= k < g.iheap@.len() && 0 <= b < 2 ==> npeq(#[trigger] nc(f2, k, b), nc(f, k, b)) || (rec2 != rec && covers(f2, rec2.last(), k, b)),
        rec2 != rec ==> forall|k: int, b: int| 0 <= k < g.iheap@.len() && 0 <= b < 2 && #[trigger] covers(f2, rec2.last(), k, b) ==> nc(f, k, b).null,
    ensures rinv(g, f2, rec2, 0)
{
    assert forall|j: int| 0 <= j < rec2.len() implies (rec2 == rec || j < rec.len() ==> #[trigger] rec2[j] == rec[j]) by { if rec2 != rec && j < rec.len() { assert(rec2.drop_last()[j] == rec2[j]); } }
    assert forall|j: int, k: int, b: int| 0 <= j < rec2.len() && 0 <= k < g.iheap@.len() && 0 <= b < 2 && #[trigger] covers(f2, rec2[j], k, b) implies nc(g, k, b).null by {
        if j < rec.len() { assert(covers(f, rec[j], k, b)); } else { assert(rest(g, f, rec, 0, k, b)); }
    }
    assert forall|k: int, b: int| 0 <= k < g.iheap@.len() && 0 <= b < 2 implies #[trigger] rest(g, f2, rec2, 0, k, b) by {
        assert(rest(g, f, rec, 0, k, b));
        if npeq(nc(f2, k, b), nc(f, k, b)) {
            if !npeq(nc(f, k, b), nc(g, k, b)) { let j = choose|j: int| 0 <= j < rec.len() && covers(f, #[trigger] rec[j], k, b); assert(rec2[j] == rec[j]); assert(covers(f2, rec2[j], k, b)); }
        } else { let j = rec2.len() - 1; assert(rec2[j] == rec2.last()); assert(covers(f2, rec2[j], k, b)); assert(nc(f, k, b).null); assert(nc(g, k, b).null); }
    }
}
/// a step that changes only flags (keeping the cached bit) and positions of nodes, and hashes of new inner nodes
pub open spec fn soft(g: Pollard, f: Pollard, f2: Pollard) -> bool {
    &&& f2.m_num_leaves == f.m_num_leaves && f2.m_roots@ == f.m_roots@ && f2.m_remember == f.m_remember && f2.m_posmap@ == f.m_posmap@
    &&& f2.heap@.len() == f.heap@.len() && f2.iheap@.len() == f.iheap@.len()
    &&& forall|x: int| 0 <= x < f.heap@.len() ==> (#[trigger] f2.heap@[x]).m_node == f.heap@[x].m_node && f2.heap@[x].m_sibling == f.heap@[x].m_sibling && f2.heap@[x].m_parent == f.heap@[x].m_parent && (fl(f.heap@[x].m_verification_flag, 4) ==> fl(f2.heap@[x].m_verification_flag, 4))
    &&& forall|k: int| 0 <= k < f.iheap@.len() ==> (#[trigger] f2.iheap@[k]).m_nieces == f.iheap@[k].m_nieces && (k < g.iheap@.len() ==> f2.iheap@[k].m_hash == f.iheap@[k].m_hash)
}
pub proof fn soft_step(g: Pollard, f: Pollard, f2: Pollard) requires vinv(g, f), soft(g, f, f2) ensures vinv(g, f2), same_sib(f, f2), forall|x: int| ract(g, f, x) ==> #[trigger] ract(g, f2, x)
{
    assert forall|k: int, b: int| 0 <= k < f2.iheap@.len() && 0 <= b < 2 implies (#[trigger] f2.iheap@[k].m_nieces@[b]).null || f2.iheap@[k].m_nieces@[b].i < f2.iheap@.len() by { assert(f2.iheap@[k].m_nieces == f.iheap@[k].m_nieces); assert(f.iheap@[k].m_nieces@[b].null || f.iheap@[k].m_nieces@[b].i < f.iheap@.len()); }
    assert forall|k: int, b: int| g.iheap@.len() <= k < f2.iheap@.len() && 0 <= b < 2 implies (#[trigger] f2.iheap@[k].m_nieces@[b]).null || f2.iheap@[k].m_nieces@[b].i >= g.iheap@.len() by { assert(f2.iheap@[k].m_nieces == f.iheap@[k].m_nieces); assert(f.iheap@[k].m_nieces@[b].null || f.iheap@[k].m_nieces@[b].i >= g.iheap@.len()); }
    assert forall|x: int| ract(g, f, x) implies #[trigger] ract(g, f2, x) by { let y = f2.heap@[x]; }
    assert forall|x: int| 0 <= x < g.heap@.len() implies (#[trigger] f2.heap@[x]).m_node == g.heap@[x].m_node && f2.heap@[x].m_sibling == g.heap@[x].m_sibling && f2.heap@[x].m_parent == g.heap@[x].m_parent by { let y = f.heap@[x]; }
    assert forall|k: int| 0 <= k < g.iheap@.len() implies (#[trigger] f2.iheap@[k]).m_hash == g.iheap@[k].m_hash by { let y = f.iheap@[k]; }
    assert forall|x: int| g.heap@.len() <= x < f2.heap@.len() implies iok(f2, (#[trigger] f2.heap@[x]).m_node) && iok(f2, f2.heap@[x].m_sibling) && (fl(f2.heap@[x].m_verification_flag, 4) || f2.heap@[x].m_node.i >= g.iheap@.len()) by { let y = f.heap@[x]; }
    assert forall|x: int| g.heap@.len() <= x < f2.heap@.len() implies !(#[trigger] f2.heap@[x].m_parent).null && f2.heap@[x].m_parent.i < x && ract(g, f2, f2.heap@[x].m_parent.i as int) by { let y = f.heap@[x].m_parent; assert(ract(g, f, y.i as int)); }
}
/// hooking in the missing children of a node of the proof tree; sl, sr tell which were missing
pub proof fn init_step(g: Pollard, f: Pollard, f2: Pollard, x: int, sl: bool, sr: bool)
    requires vinv(g, f), ract(g, f, x),
        f2.m_num_leaves == f.m_num_leaves && f2.m_roots@ == f.m_roots@ && f2.m_remember == f.m_remember && f2.m_posmap@ == f.m_posmap@,
        f2.heap@.len() == f.heap@.len() + 2, forall|y: int| 0 <= y < f.heap@.len() ==> #[trigger] f2.heap@[y] == f.heap@[y],
        f2.iheap@.len() == f.iheap@.len() + (if sl { 1int } else { 0 }) + (if sr { 1int } else { 0 }),
        ({ let s = f.heap@[x].m_sibling.i as int; let n = f.heap@.len() as int; let L = f2.heap@[n]; let R = f2.heap@[n + 1];
            &&& !L.m_parent.null && L.m_parent.i == x && !R.m_parent.null && R.m_parent.i == x
            &&& L.m_node == nc(f2, s, 0) && L.m_sibling == nc(f2, s, 1) && R.m_node == nc(f2, s, 1) && R.m_sibling == nc(f2, s, 0)
            &&& fl(L.m_verification_flag, 4) == !sl && fl(R.m_verification_flag, 4) == !sr
            &&& forall|k: int| 0 <= k < f.iheap@.len() ==> (#[trigger] f2.iheap@[k]).m_hash == f.iheap@[k].m_hash && (k != s ==> f2.iheap@[k] == f.iheap@[k])
            &&& forall|k: int, b: int| f.iheap@.len() <= k < f2.iheap@.len() && 0 <= b < 2 ==> (#[trigger] nc(f2, k, b)).null
            &&& iok(f2, nc(f2, s, 0)) && iok(f2, nc(f2, s, 1))
            &&& if sl { nc(f2, s, 0).i == f.iheap@.len() } else { nc(f2, s, 0) == nc(f, s, 0) }
            &&& if sr { nc(f2, s, 1).i == f2.iheap@.len() - 1 } else { nc(f2, s, 1) == nc(f, s, 1) }
        }),
    ensures vinv(g, f2), same_sib(f, f2), forall|y: int| ract(g, f, y) ==> #[trigger] ract(g, f2, y), ract(g, f2, f.heap@.len() as int), ract(g, f2, f.heap@.len() as int + 1)
{
    let s = f.heap@[x].m_sibling.i as int; let n = f.heap@.len() as int;
    assert(0 <= s < f.iheap@.len()) by { if x < g.heap@.len() { assert(f.heap@[x].m_sibling == g.heap@[x].m_sibling); } }
    assert forall|k: int, b: int| 0 <= k < f2.iheap@.len() && 0 <= b < 2 implies (#[trigger] f2.iheap@[k].m_nieces@[b]).null || f2.iheap@[k].m_nieces@[b].i < f2.iheap@.len() by { assert(nc(f2, k, b) == f2.iheap@[k].m_nieces@[b]); if k < f.iheap@.len() { let y = f2.iheap@[k]; let z = f.iheap@[k].m_nieces@[b]; if k == s { assert(b == 0 || b == 1); } } }
    assert forall|k: int, b: int| g.iheap@.len() <= k < f2.iheap@.len() && 0 <= b < 2 implies (#[trigger] f2.iheap@[k].m_nieces@[b]).null || f2.iheap@[k].m_nieces@[b].i >= g.iheap@.len() by { assert(nc(f2, k, b) == f2.iheap@[k].m_nieces@[b]); if k < f.iheap@.len() { let y = f2.iheap@[k]; let z = f.iheap@[k].m_nieces@[b]; if k == s { assert(b == 0 || b == 1); assert(nc(f, k, b) == z); } } }
    assert forall|y: int| ract(g, f, y) implies #[trigger] ract(g, f2, y) by { let z = f2.heap@[y]; }
    assert forall|y: int| 0 <= y < g.heap@.len() implies (#[trigger] f2.heap@[y]).m_node == g.heap@[y].m_node && f2.heap@[y].m_sibling == g.heap@[y].m_sibling && f2.heap@[y].m_parent == g.heap@[y].m_parent by { let z = f.heap@[y]; }
    assert forall|k: int| 0 <= k < g.iheap@.len() implies (#[trigger] f2.iheap@[k]).m_hash == g.iheap@[k].m_hash by { let y = f.iheap@[k]; }
    assert forall|y: int| g.heap@.len() <= y < f2.heap@.len() implies iok(f2, (#[trigger] f2.heap@[y]).m_node) && iok(f2, f2.heap@[y].m_sibling) && (fl(f2.heap@[y].m_verification_flag, 4) || f2.heap@[y].m_node.i >= g.iheap@.len()) by { if y < n { let z = f.heap@[y]; } else { assert(y == n || y == n + 1); } }
    assert forall|y: int| g.heap@.len() <= y < f2.heap@.len() implies !(#[trigger] f2.heap@[y].m_parent).null && f2.heap@[y].m_parent.i < y && ract(g, f2, f2.heap@[y].m_parent.i as int) by { if y < n { let z = f.heap@[y].m_parent; assert(ract(g, f, z.i as int)); } else { assert(y == n || y == n + 1); assert(ract(g, f, x)); } }
}
/// a step that leaves the nieces alone
pub proof fn rinv_same(g: Pollard, f: Pollard, f2: Pollard, rec: Seq<(NP, i32)>, from: int)
    requires from >= 0, rinv(g, f, rec, from), same_sib(f, f2), f.iheap@.len() >= g.iheap@.len(), forall|k: int| 0 <= k < g.iheap@.len() ==> (#[trigger] f2.iheap@[k]).m_nieces == f.iheap@[k].m_nieces
    ensures rinv(g, f2, rec, from)
{
    assert forall|j: int, k: int, b: int| 0 <= j < rec.len() && 0 <= k < g.iheap@.len() && 0 <= b < 2 && #[trigger] covers(f2, rec[j], k, b) implies nc(g, k, b).null by { assert(covers(f, rec[j], k, b)); }
    assert forall|k: int, b: int| 0 <= k < g.iheap@.len() && 0 <= b < 2 implies #[trigger] rest(g, f2, rec, from, k, b) by {
        assert(rest(g, f, rec, from, k, b)); assert(f2.iheap@[k].m_nieces == f.iheap@[k].m_nieces);
        if !npeq(nc(f, k, b), nc(g, k, b)) { let j = choose|j: int| from <= j < rec.len() && covers(f, #[trigger] rec[j], k, b); assert(covers(f2, rec[j], k, b)); }
    }
}
/// entry j has been undone
pub proof fn rinv_chop(g: Pollard, f: Pollard, f2: Pollard, rec: Seq<(NP, i32)>, j: int)
    requires rinv(g, f, rec, j), f2.heap@ == f.heap@, f2.iheap@.len() == f.iheap@.len(), f.iheap@.len() >= g.iheap@.len(), 0 <= j < rec.len(),
        forall|k: int, b: int| 0 <= k < g.iheap@.len() && 0 <= b < 2 ==> if covers(f, rec[j], k, b) { (#[trigger] nc(f2, k, b)).null } else { nc(f2, k, b) == nc(f, k, b) },
    ensures rinv(g, f2, rec, j + 1)
{
    assert forall|j: int, k: int, b: int| 0 <= j < rec.len() && 0 <= k < g.iheap@.len() && 0 <= b < 2 && #[trigger] covers(f2, rec[j], k, b) implies nc(g, k, b).null by { assert(covers(f, rec[j], k, b)); }
    assert forall|k: int, b: int| 0 <= k < g.iheap@.len() && 0 <= b < 2 implies #[trigger] rest(g, f2, rec, j + 1, k, b) by {
        assert(rest(g, f, rec, j, k, b));
        if covers(f, rec[j], k, b) { assert(nc(f2, k, b).null); }
        else if !npeq(nc(f, k, b), nc(g, k, b)) { let i = choose|i: int| j <= i < rec.len() && covers(f, #[trigger] rec[i], k, b); assert(i != j); assert(covers(f2, rec[i], k, b)); }
    }
}
/// the root of row R is one of the roots
pub proof fn root_at(f: Pollard, R: int) requires pol_wf(f), R >= 0, bit(f.m_num_leaves as int, R)
    ensures trees_above(f.m_num_leaves as int, R) < f.m_roots@.len(), in_tree(f.m_num_leaves as int, R, R, ri(f.m_num_leaves as int, R)),
        forall|pos: u64| #[trigger] at(f.m_num_leaves, pos, R, ri(f.m_num_leaves as int, R)) ==> pos < p2((hh_of(f.m_num_leaves) + 1) as nat) - 1,
        forall|pos: u64, r: int, i: int| at(f.m_num_leaves, pos, R, ri(f.m_num_leaves as int, R)) && #[trigger] at(f.m_num_leaves, pos, r, i) ==> ex(f.m_num_leaves as int, r, i),
{
    let n = f.m_num_leaves; root_index_ok(n as int, R); root_ex(n as int, R);
    assert forall|pos: u64| #[trigger] at(n, pos, R, ri(n as int, R)) implies pos < p2((hh_of(n) + 1) as nat) - 1 by { at_pos(n, pos, R, ri(n as int, R)); }
    assert forall|pos: u64, r: int, i: int| at(n, pos, R, ri(n as int, R)) && #[trigger] at(n, pos, r, i) implies ex(n as int, r, i) by { at_uniq(n, pos, r, i, R, ri(n as int, R)); }
    assert(p2(0) == 1); assert(ri(n as int, R) / 1 == ri(n as int, R)); assert(in_tree(n as int, R, R, ri(n as int, R)));
}
