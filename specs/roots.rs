// ---------------------------------------------------------------------------
// Roots and trees: binary expansion of the leaf count
// ---------------------------------------------------------------------------
pub open spec fn bit(n: int, r: int) -> bool { (n / p2(r as nat) as int) % 2 == 1 }
/// index of the root on row r (when bit r of n is set): the last complete node of that row
pub open spec fn ri(n: int, r: int) -> int { 2 * (n / p2((r + 1) as nat) as int) }
/// (r,i) lies in the tree whose root is on row R
pub open spec fn in_tree(n: int, R: int, r: int, i: int) -> bool { 0 <= r <= R && bit(n, R) && i >= 0 && i / p2((R - r) as nat) as int == ri(n, R) }
/// number of trees bigger than the one on row R
pub open spec fn trees_above(n: int, R: int) -> nat { popc((n / p2((R + 1) as nat) as int) as nat) }
/// the roots from row r down to row 0, as positions in a forest of height h
pub open spec fn rl(n: int, h: int, r: int) -> Seq<u64> decreases r + 1 {
    if r < 0 { Seq::empty() } else if bit(n, r) { seq![gp(h, r, ri(n, r)) as u64] + rl(n, h, r - 1) } else { rl(n, h, r - 1) }
}
pub proof fn div2(n: int, r: int) requires n >= 0, r >= 0 ensures n / p2((r + 1) as nat) as int == (n / p2(r as nat) as int) / 2, n / p2(r as nat) as int == ri(n, r) + (if bit(n, r) { 1int } else { 0int })
{ p2_pos(r as nat); div_div(n, p2(r as nat) as int, 2); assert(p2((r + 1) as nat) == p2(r as nat) * 2); }
pub proof fn root_valid(n: int, h: int, r: int) requires 0 <= n <= p2(h as nat), 0 <= r <= h, bit(n, r) ensures gv(h, r, ri(n, r)), ex(n, r, ri(n, r)), ri(n, r) == n / p2(r as nat) as int - 1
{
    div2(n, r); p2_pos(r as nat); p2_add(r as nat, (h - r) as nat);
    let q = n / p2(r as nat) as int; 
    assert(q * p2(r as nat) <= n && q >= 0) by { vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, p2(r as nat) as int); vstd::arithmetic::div_mod::lemma_mod_bound(n, p2(r as nat) as int); assert(q * p2(r as nat) == p2(r as nat) * q) by(nonlinear_arith); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(r as nat) as int); }
    if q > p2((h - r) as nat) { assert(q * p2(r as nat) > p2((h - r) as nat) * p2(r as nat)) by(nonlinear_arith) requires q > p2((h - r) as nat), p2(r as nat) >= 1; assert(p2((h - r) as nat) * p2(r as nat) == p2(h as nat)) by(nonlinear_arith) requires p2(h as nat) == p2(r as nat) * p2((h - r) as nat); }
}
/// a node lies in at most one tree
pub proof fn in_tree_unique(n: int, R: int, R2: int, r: int, i: int) requires n >= 0, in_tree(n, R, r, i), in_tree(n, R2, r, i) ensures R == R2
{ if R < R2 { in_tree_lt(n, R, R2, r, i); } else if R2 < R { in_tree_lt(n, R2, R, r, i); } }
pub proof fn in_tree_lt(n: int, R: int, R2: int, r: int, i: int) requires n >= 0, in_tree(n, R, r, i), R < R2, bit(n, R2) ensures i / p2((R2 - r) as nat) as int == n / p2(R2 as nat) as int, !in_tree(n, R2, r, i)
{
    p2_pos((R - r) as nat); div2(n, R2); div2(n, R);
    anc_div(i, (R - r) as nat, (R2 - R - 1) as nat + 1);
    anc_div(n, (R + 1) as nat, (R2 - R - 1) as nat);
    // i/2^(R2-r) = (ri(n,R))/2^(R2-R) = (n/2^(R+1)) / 2^(R2-R-1) = n / 2^R2
    let a = n / p2((R + 1) as nat) as int; p2_pos((R + 1) as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2((R + 1) as nat) as int);
    p2_pos((R2 - R - 1) as nat);
    div_div(2 * a, 2, p2((R2 - R - 1) as nat) as int);
    assert((2 * a) / 2 == a);
    assert(p2((R2 - R) as nat) == 2 * p2((R2 - R - 1) as nat));
}
/// x / 2^(a+b) = (x / 2^a) / 2^b
pub proof fn anc_div(x: int, a: nat, b: nat) requires x >= 0 ensures x / p2(a + b) as int == (x / p2(a) as int) / p2(b) as int, x / p2(a) as int >= 0
{ p2_pos(a); p2_pos(b); p2_add(a, b); div_div(x, p2(a) as int, p2(b) as int); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, p2(a) as int); }
/// the k-th root in the list is the root of the tree with k bigger trees
pub proof fn rl_index(n: int, h: int, top: int, R: int) requires 0 <= R <= top <= h, 0 <= n < p2((top + 1) as nat), bit(n, R)
    ensures trees_above(n, R) < rl(n, h, top).len(), rl(n, h, top)[trees_above(n, R) as int] == gp(h, R, ri(n, R)) as u64
{ rl_index0(n, h, top, R); p2_pos((top+1) as nat); assert(n / p2((top + 1) as nat) as int == 0) by { vstd::arithmetic::div_mod::lemma_basic_div(n, p2((top + 1) as nat) as int); } assert(popc(0) == 0); }
pub proof fn rl_index0(n: int, h: int, top: int, R: int) requires 0 <= R <= top <= h, 0 <= n, bit(n, R)
    ensures trees_above(n, R) >= trees_above(n, top), trees_above(n, R) - trees_above(n, top) < rl(n, h, top).len(), rl(n, h, top)[trees_above(n, R) - trees_above(n, top)] == gp(h, R, ri(n, R)) as u64
    decreases top
{
    if R == top { }
    else { 
        rl_index0(n, h, top - 1, R); div2(n, top); 
        p2_pos(top as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(top as nat) as int);
        popc_step((n / p2(top as nat) as int) as nat);
    }
}
pub proof fn popc_step(x: nat) ensures popc(x) == x % 2 + popc(x / 2) { }
pub proof fn rl_len(n: int, h: int, top: int) requires -1 <= top <= h, 0 <= n ensures rl(n, h, top).len() + popc((n / p2((top + 1) as nat) as int) as nat) == popc(n as nat) decreases top + 1
{
    if top >= 0 { rl_len(n, h, top - 1); div2(n, top); p2_pos(top as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(top as nat) as int); popc_step((n / p2(top as nat) as int) as nat); }
    else { assert(p2(0) == 1); assert(n / 1 == n); assert(p2((top + 1) as nat) == 1); }
}
