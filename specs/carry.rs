// ---------------------------------------------------------------------------
// Adding one leaf: the carry chain of the leaf count
// ---------------------------------------------------------------------------
/// the lowest `row` binary digits of n are all 1
pub open spec fn ones(n: int, row: int) -> bool { forall|b: int| 0 <= b < row ==> #[trigger] bit(n, b) }
pub proof fn carry(n: int, row: int) requires n >= 0, row >= 0, ones(n, row) ensures n + 1 == (n / p2(row as nat) as int + 1) * p2(row as nat), popc(n as nat) == row + popc((n / p2(row as nat) as int) as nat) decreases row
{
    p2_pos(row as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(row as nat) as int);
    if row > 0 {
        carry(n, row - 1); assert(bit(n, row - 1)); div2(n, row - 1); p2_pos((row - 1) as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2((row - 1) as nat) as int);
        let q = n / p2((row - 1) as nat) as int; popc_step(q as nat); let a = n / p2(row as nat) as int; let p = p2((row - 1) as nat) as int;
        assert(q == 2 * a + 1); assert((2 * a + 1 + 1) * p == (a + 1) * (2 * p)) by(nonlinear_arith);
    } else { assert(n / 1 == n); assert(p2(row as nat) == 1); assert((n + 1) * 1 == n + 1) by(nonlinear_arith); }
}
/// the new node on row `row` after adding leaf n completes it: geometry of one carry step
pub proof fn carry_node(n: int, h: int, row: int) requires 0 <= n, n < p2(h as nat) || n == 1, h == nr(n as nat), 0 <= row, ones(n, row)
    ensures ex(n + 1, row, n / p2(row as nat) as int), n < p2(h as nat) ==> gv(h, row, n / p2(row as nat) as int),
        bit(n, row) && n < p2(h as nat) ==> row < h, bit(n, row) && n == 1 ==> row == 0
{
    carry(n, row); p2_pos(row as nat); let q = n / p2(row as nat) as int; vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(row as nat) as int);
    if n < p2(h as nat) {
        if row > h { p2_mono_s(h as nat, row as nat); assert((q + 1) * p2(row as nat) >= p2(row as nat)) by(nonlinear_arith) requires q >= 0, p2(row as nat) >= 1; }
        p2_add(row as nat, (h - row) as nat); let a = p2(row as nat) as int; let b = p2((h - row) as nat) as int;
        if q >= b { assert((q + 1) * a > b * a) by(nonlinear_arith) requires q >= b, a >= 1; assert(b * a == a * b) by(nonlinear_arith); }
        if row == h { assert(p2(0) == 1); }
    }
    if n == 1 && row >= 1 { if row == 1 { assert(p2(1) == 2) by(compute); } else { p2_mono(2, row as nat); assert(p2(2) == 4) by(compute); vstd::arithmetic::div_mod::lemma_basic_div(1, p2(row as nat) as int); } if row == 1 { assert(1int / 2 == 0); } }
}
/// adding one leaf: the forest of n+1 leaves after the carry chain stopped at row
pub proof fn carry_done(n: int, row: int) requires 0 <= n, 0 <= row, ones(n, row), !bit(n, row)
    ensures bit(n + 1, row), ri(n + 1, row) == n / p2(row as nat) as int, trees_above(n + 1, row) == trees_above(n, row), popc((n + 1) as nat) == popc(n as nat) + 1 - row, popc(n as nat) - row == trees_above(n, row),
        forall|R: int| 0 <= R < row ==> !#[trigger] bit(n + 1, R),
        forall|R: int| R > row ==> #[trigger] bit(n + 1, R) == bit(n, R) && trees_above(n + 1, R) == trees_above(n, R) && ri(n + 1, R) == ri(n, R) && (bit(n, R) ==> trees_above(n, R) < trees_above(n, row)),
        forall|r: int, i: int| r > row && #[trigger] ex(n + 1, r, i) ==> ex(n, r, i),
        forall|r: int, i: int| 0 <= r <= row && #[trigger] ex(n + 1, r, i) ==> ex(n, r, i) || i == n / p2(r as nat) as int,
{
    let P = p2(row as nat) as int; p2_pos(row as nat); carry(n, row); let q = n / P; vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, P);
    assert((n + 1) / P == q + 1) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(q + 1, P); assert((q + 1) * P == P * (q + 1)) by(nonlinear_arith); }
    assert(q % 2 == 0);
    div2(n, row); div2(n + 1, row); popc_step(q as nat); popc_step((q + 1) as nat);
    assert((q + 1) / 2 == q / 2);
    assert forall|R: int| R > row implies (n + 1) / #[trigger] p2(R as nat) as int == n / p2(R as nat) as int by { anc_div(n, (row + 1) as nat, (R - row - 1) as nat); anc_div(n + 1, (row + 1) as nat, (R - row - 1) as nat); }
    assert forall|R: int| 0 <= R < row implies !#[trigger] bit(n + 1, R) && popc(((n + 1) / p2(R as nat) as int) as nat) == popc((q + 1) as nat) by { carry_low(n, row, R); }
    if row > 0 { assert(p2(0) == 1); assert((n + 1) / 1 == n + 1); assert(popc(((n + 1) / p2(0) as int) as nat) == popc((q + 1) as nat)) by { carry_low(n, row, 0); } } else { assert(p2(0) == 1); assert(n / 1 == n); }
    assert forall|R: int| R > row implies #[trigger] bit(n + 1, R) == bit(n, R) && trees_above(n + 1, R) == trees_above(n, R) && ri(n + 1, R) == ri(n, R) && (bit(n, R) ==> trees_above(n, R) < trees_above(n, row)) by {
        assert((n + 1) / p2(R as nat) as int == n / p2(R as nat) as int); assert((n + 1) / p2((R + 1) as nat) as int == n / p2((R + 1) as nat) as int);
        if bit(n, R) { let x = n / p2((row + 1) as nat) as int; p2_pos((row + 1) as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2((row + 1) as nat) as int); anc_div(n, (row + 1) as nat, (R - row - 1) as nat); popc_shift(x as nat, (R - row - 1) as nat); div2(n, R); p2_pos(R as nat); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p2(R as nat) as int); popc_step((n / p2(R as nat) as int) as nat); }
    }
    assert forall|r: int, i: int| r > row && #[trigger] ex(n + 1, r, i) implies ex(n, r, i) by { ex_div(n + 1, r, i); ex_div(n, r, i); assert((n + 1) / p2(r as nat) as int == n / p2(r as nat) as int); }
    assert forall|r: int, i: int| 0 <= r <= row && #[trigger] ex(n + 1, r, i) implies ex(n, r, i) || i == n / p2(r as nat) as int by {
        ex_div(n + 1, r, i); ex_div(n, r, i); let p = p2(r as nat) as int; p2_pos(r as nat); let a = n / p;
        if i > a { assert((i + 1) * p >= (a + 2) * p) by(nonlinear_arith) requires i + 1 >= a + 2, p >= 1; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, p); vstd::arithmetic::div_mod::lemma_mod_bound(n, p); assert((a + 2) * p == p * a + 2 * p) by(nonlinear_arith); }
    }
}
pub proof fn carry_low(n: int, row: int, R: int) requires 0 <= n, 0 <= R < row, ones(n, row) ensures !bit(n + 1, R), popc(((n + 1) / p2(R as nat) as int) as nat) == popc((n / p2(row as nat) as int + 1) as nat) decreases row - R
{
    let p = p2(R as nat) as int; p2_pos(R as nat); carry(n, R); let a = n / p; vstd::arithmetic::div_mod::lemma_div_pos_is_pos(n, p);
    assert((n + 1) / p == a + 1) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(a + 1, p); assert((a + 1) * p == p * (a + 1)) by(nonlinear_arith); }
    assert(bit(n, R)); div2(n, R); popc_step((a + 1) as nat); assert((a + 1) / 2 == a / 2 + 1);
    if R + 1 < row { carry_low(n, row, R + 1); let p1 = p2((R + 1) as nat) as int; carry(n, R + 1); p2_pos((R + 1) as nat); let a1 = n / p1; assert((n + 1) / p1 == a1 + 1) by { vstd::arithmetic::div_mod::lemma_div_multiples_vanish(a1 + 1, p1); assert((a1 + 1) * p1 == p1 * (a1 + 1)) by(nonlinear_arith); } }
}
/// a set bit lies below the size
pub proof fn bit_lt(n: int, r: int, k: int) requires 0 <= n < p2(k as nat), 0 <= r, 0 <= k, bit(n, r) ensures r < k { p2_pos(r as nat); if r >= k { p2_mono(k as nat, r as nat); vstd::arithmetic::div_mod::lemma_basic_div(n, p2(r as nat) as int); } }
/// the root of the tree on row R is in the list
pub proof fn popc_pos(x: nat) requires x > 0 ensures popc(x) >= 1 decreases x { popc_step(x); if x % 2 == 0 { popc_pos(x / 2); } }
pub proof fn two_pow(n: int, h: int, row: int) requires 0 <= n <= p2(h as nat), 0 <= h, 0 <= row, ones(n, row), bit(n, row) ensures n < p2(h as nat) || (n == 1 && row == 0 && h == 0)
{ if n == p2(h as nat) { assert(p2(0) == 1); assert(n / 1 == n); if row > 0 { assert(bit(n, 0)); } if h > 0 { p2_s((h - 1) as nat); } else { if row > 0 { if row > 1 { p2_mono(1, row as nat); assert(p2(1) == 2) by(compute); } vstd::arithmetic::div_mod::lemma_basic_div(1, p2(row as nat) as int); } } } }
pub proof fn popc_le(n: nat) ensures popc(n) <= nbits(n) decreases n { if n > 0 { popc_le(n / 2); } }
