// ---------------------------------------------------------------------------
// Forest geometry: the mathematical numbering of nodes (independent of the code)
// ---------------------------------------------------------------------------
/// number of binary digits of x
pub open spec fn nbits(x: nat) -> nat decreases x { if x == 0 { 0 } else { 1 + nbits(x / 2) } }
/// height of a forest of n leaves: the smallest h with n <= 2^h
pub open spec fn nr(n: nat) -> nat { if n == 0 { 0 } else { nbits((n - 1) as nat) } }
/// position of the node with index i on row r in a forest of height h: rows are numbered one after the other
pub open spec fn gp(h: int, r: int, i: int) -> int { p2((h + 1) as nat) - p2((h + 1 - r) as nat) + i }
/// (r,i) names a node of the full tree of height h
pub open spec fn gv(h: int, r: int, i: int) -> bool { 0 <= r <= h && 0 <= i < p2((h - r) as nat) }

pub const MAXN: u64 = 0x4000_0000_0000_0000; // 2^62
pub open spec fn okn(n: u64) -> bool { n <= 0x4000_0000_0000_0000 }
pub open spec fn hh_of(n: u64) -> int { nr(n as nat) as int }

pub proof fn p2_pos(k: nat) ensures p2(k) >= 1 decreases k { if k > 0 { p2_pos((k - 1) as nat); } }
pub proof fn p2_s(k: nat) ensures p2(k + 1) == 2 * p2(k) { }
pub proof fn p2_add(a: nat, b: nat) ensures p2(a + b) == p2(a) * p2(b) decreases b {
    if b > 0 { p2_add(a, (b - 1) as nat); assert(p2(a + b) == 2 * p2((a + b - 1) as nat)); assert(p2(a) * (2 * p2((b - 1) as nat)) == 2 * (p2(a) * p2((b - 1) as nat))) by(nonlinear_arith); }
    else { assert(p2(a) * 1 == p2(a)) by(nonlinear_arith); }
}
pub proof fn p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b) decreases b - a { if a < b { p2_mono(a, (b - 1) as nat); p2_pos((b-1) as nat); } }
pub proof fn p2_mono_s(a: nat, b: nat) requires a < b ensures p2(a) < p2(b) { p2_mono(a + 1, b); p2_pos(a); }
pub proof fn p2_vals() ensures p2(0) == 1, p2(1) == 2, p2(2) == 4, p2(8)==256, p2(16)==0x1_0000, p2(32)==0x1_0000_0000, p2(61) == 0x2000_0000_0000_0000, p2(62) == 0x4000_0000_0000_0000, p2(63) == 0x8000_0000_0000_0000, p2(64) == 0x1_0000_0000_0000_0000
{ 
    assert(p2(2)==4) by(compute); assert(p2(8)==256) by(compute); assert(p2(16)==0x1_0000) by(compute); assert(p2(32)==0x1_0000_0000) by(compute);
    assert(p2(61) == 0x2000_0000_0000_0000) by(compute); assert(p2(62) == 0x4000_0000_0000_0000) by(compute); assert(p2(63) == 0x8000_0000_0000_0000) by(compute); assert(p2(64) == 0x1_0000_0000_0000_0000) by(compute);
}
pub proof fn shl1(k: u64) requires k < 64 ensures (1u64 << k) == p2(k as nat), p2(k as nat) <= 0x8000_0000_0000_0000 decreases k {
    p2_vals();
    if k == 0 { assert(1u64 << 0 == 1) by(bit_vector); }
    else { let j = (k - 1) as u64; shl1(j); p2_mono(k as nat, 63); p2_mono(j as nat, 62); assert(1u64 << k == mul(2, 1u64 << j)) by(bit_vector) requires k < 64, j == sub(k, 1), k > 0; assert(2 * p2(j as nat) <= 0xffff_ffff_ffff_ffff); }
}
pub proof fn shl2(k: u64) requires k < 63 ensures (2u64 << k) == p2(k as nat + 1) { shl1((k + 1) as u64); assert(2u64 << k == 1u64 << add(k, 1)) by(bit_vector) requires k < 63; }
pub proof fn shr_div(x: u64, k: u64) requires k < 64 ensures (x >> k) as int == x as int / p2(k as nat) as int decreases k {
    if k == 0 { assert(x >> k == x) by(bit_vector) requires k == 0; assert(x as int / 1 == x); }
    else { let j = (k - 1) as u64; shr_div(x, j); assert(x >> k == (x >> j) / 2) by(bit_vector) requires k < 64, j == sub(k, 1), k > 0;
        p2_pos(j as nat); div_div(x as int, p2(j as nat) as int, 2); assert(p2(j as nat) * 2 == p2(k as nat)); }
}
pub proof fn div_div(x: int, a: int, b: int) requires x >= 0, a > 0, b > 0 ensures (x / a) / b == x / (a * b), a * b > 0 {
    vstd::arithmetic::div_mod::lemma_div_denominator(x, a, b);
    assert(a * b > 0) by(nonlinear_arith) requires a > 0, b > 0;
}
pub proof fn shl_mul(x: u64, k: u64) requires k < 64, x as int * p2(k as nat) <= 0xffff_ffff_ffff_ffff ensures (x << k) as int == x as int * p2(k as nat) as int decreases k {
    p2_pos(k as nat);
    if k == 0 { assert(x << k == x) by(bit_vector) requires k == 0; assert(x as int * p2(k as nat) as int == x) by(nonlinear_arith) requires p2(k as nat) == 1; }
    else { let j = (k - 1) as u64; p2_pos(j as nat);
        assert(x as int * p2(j as nat) <= x as int * p2(k as nat)) by(nonlinear_arith) requires p2(k as nat) == 2 * p2(j as nat), x >= 0, p2(j as nat) >= 1;
        shl_mul(x, j); 
        assert(x as int * p2(k as nat) == 2 * (x as int * p2(j as nat))) by(nonlinear_arith) requires p2(k as nat) == 2 * p2(j as nat);
        assert(x << k == mul(x << j, 2)) by(bit_vector) requires k < 64, j == sub(k, 1), k > 0; }
}
pub proof fn nbits_bound(x: nat) ensures x < p2(nbits(x)), x > 0 ==> nbits(x) >= 1 && p2((nbits(x) - 1) as nat) <= x decreases x {
    if x > 0 { nbits_bound(x / 2); if x / 2 == 0 { assert(nbits(0) == 0); assert(p2(0) == 1); } }
}
pub proof fn nbits_le(x: nat, k: nat) requires x < p2(k) ensures nbits(x) <= k { nbits_bound(x); if nbits(x) > k { p2_mono(k, (nbits(x) - 1) as nat); } }
pub proof fn nr_spec(n: nat) ensures n <= p2(nr(n)), nr(n) > 0 ==> n > p2((nr(n) - 1) as nat) { if n > 0 { nbits_bound((n - 1) as nat); } else { p2_pos(0); } }
/// nr(n) is the smallest h with n <= 2^h
pub proof fn nr_least(n: nat, h: nat) requires n <= p2(h) ensures nr(n) <= h { nr_spec(n); if nr(n) > h { p2_mono(h, (nr(n) - 1) as nat); } }
pub proof fn nr_62(n: u64) requires okn(n) ensures nr(n as nat) <= 62 { p2_vals(); nr_least(n as nat, 62); }
/// the bit-level form of gp
pub proof fn gp_bv(h: u64, r: u64, i: u64) requires h <= 62, r <= h + 1, i == 0 || (r <= h && i < (1u64 << sub(h, r)))
    ensures gp(h as int, r as int, i as int) == add(sub(2u64 << h, 1u64 << sub(add(h, 1), r)), i),
{
    shl2(h); let k = (h + 1 - r) as u64; shl1(k); p2_mono(k as nat, h as nat + 1);
    assert(1u64 << k <= 2u64 << h) by(bit_vector) requires h <= 62, k <= add(h, 1);
    if r <= h { shl1((h - r) as u64); }
    p2_pos(k as nat); p2_vals(); p2_mono(h as nat + 1, 63);
}
pub proof fn gv_bv(h: u64, r: u64, i: int) requires h <= 62, gv(h as int, r as int, i) ensures 0 <= i < 0x1_0000_0000_0000_0000, (i as u64) < (1u64 << sub(h, r)), i as u64 as int == i
{ shl1((h - r) as u64); }
/// positions are distinct: rows occupy consecutive, disjoint ranges
pub proof fn gp_range(h: int, r: int, i: int) requires gv(h, r, i) ensures 
    gp(h, r, 0) <= gp(h, r, i) < gp(h, r + 1, 0) <= p2((h + 1) as nat), gp(h, r, i) >= 0, gp(h,r,i) < p2((h+1) as nat) - 1 + (if r==h {1int} else {0int}),
    gp(h, r+1, 0) - gp(h, r, 0) == p2((h - r) as nat), gp(h, 0, i) == i, gp(h,0,0) == 0, gp(h, r, i) == gp(h, r, 0) + i
{ p2_s((h - r) as nat); p2_mono((h + 1 - r) as nat, (h + 1) as nat); p2_pos((h - r) as nat); if r < h { p2_s((h-r-1) as nat); p2_pos((h-r-1) as nat); } }
pub proof fn gp_rows(h: int, r: int, r2: int) requires 0 <= r <= r2 <= h + 1 ensures gp(h, r, 0) <= gp(h, r2, 0) { p2_mono((h + 1 - r2) as nat, (h + 1 - r) as nat); }
pub proof fn gp_inj(h: int, r: int, i: int, r2: int, i2: int) requires gv(h, r, i), gv(h, r2, i2), gp(h, r, i) == gp(h, r2, i2) ensures r == r2, i == i2 {
    gp_range(h, r, i); gp_range(h, r2, i2);
    if r < r2 { gp_rows(h, r + 1, r2); } else if r2 < r { gp_rows(h, r2 + 1, r); }
}

/// pos is the position of node (r,i) of a forest of n leaves
pub open spec fn at(n: u64, pos: u64, r: int, i: int) -> bool { gv(hh_of(n), r, i) && pos as int == gp(hh_of(n), r, i) }
/// the node (r,i) exists in a forest of n leaves: all leaves below it do
pub open spec fn ex(n: int, r: int, i: int) -> bool { r >= 0 && i >= 0 && (i + 1) * p2(r as nat) <= n }
