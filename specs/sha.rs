// SHA-512 as in FIPS 180-4, over bytes; the message length is below 2^61 bytes, so the 128-bit length field has a zero upper half
// `add` is addition modulo 2^64
pub open spec fn rotr(x: u64, k: u64) -> u64 { (x >> k) | (x << sub(64, k)) }
pub open spec fn f_ch(x: u64, y: u64, z: u64) -> u64 { (x & y) ^ (!x & z) }
pub open spec fn f_maj(x: u64, y: u64, z: u64) -> u64 { (x & y) ^ (x & z) ^ (y & z) }
pub open spec fn bsig0(x: u64) -> u64 { rotr(x, 28) ^ rotr(x, 34) ^ rotr(x, 39) }
pub open spec fn bsig1(x: u64) -> u64 { rotr(x, 14) ^ rotr(x, 18) ^ rotr(x, 41) }
#[verifier::opaque]
pub open spec fn ssig0(x: u64) -> u64 { rotr(x, 1) ^ rotr(x, 8) ^ (x >> 7) }
#[verifier::opaque]
pub open spec fn ssig1(x: u64) -> u64 { rotr(x, 19) ^ rotr(x, 61) ^ (x >> 6) }
/// the message schedule of the block that starts at byte o of s
#[verifier::opaque]
pub open spec fn ww(s: Seq<u8>, o: int, t: int) -> u64 decreases t {
    if t < 16 { rd64(s, o + 8 * t) } else { add(ww(s, o, t - 16), add(add(ssig1(ww(s, o, t - 2)), ww(s, o, t - 7)), ssig0(ww(s, o, t - 15)))) }
}
pub struct St { pub a: u64, pub b: u64, pub c: u64, pub d: u64, pub e: u64, pub f: u64, pub g: u64, pub h: u64 }
pub open spec fn st_of(s: Seq<u64>) -> St { St { a: s[0], b: s[1], c: s[2], d: s[3], e: s[4], f: s[5], g: s[6], h: s[7] } }
#[verifier::opaque]
pub open spec fn t1of(e: u64, f: u64, g: u64, h: u64, k: u64, w: u64) -> u64 { add(add(add(add(h, bsig1(e)), f_ch(e, f, g)), k), w) }
#[verifier::opaque]
pub open spec fn t2of(a: u64, b: u64, c: u64) -> u64 { add(bsig0(a), f_maj(a, b, c)) }
pub open spec fn round(s: St, k: u64, w: u64) -> St {
    St { a: add(t1of(s.e, s.f, s.g, s.h, k, w), t2of(s.a, s.b, s.c)), b: s.a, c: s.b, d: s.c, e: add(s.d, t1of(s.e, s.f, s.g, s.h, k, w)), f: s.e, g: s.f, h: s.g }
}
#[verifier::opaque]
pub open spec fn rounds(s0: St, s: Seq<u8>, o: int, t: int) -> St decreases t { if t <= 0 { s0 } else { round(rounds(s0, s, o, t - 1), kk(t - 1), ww(s, o, t - 1)) } }
pub proof fn rounds_step(s0: St, s: Seq<u8>, o: int, t: int) requires t >= 0, ensures rounds(s0, s, o, t + 1) == round(rounds(s0, s, o, t), kk(t), ww(s, o, t)), t == 0 ==> rounds(s0, s, o, t) == s0 { reveal_with_fuel(rounds, 2); }
pub proof fn w_lo(s: Seq<u8>, o: int, t: int) requires 0 <= t < 16, ensures ww(s, o, t) == rd64(s, o + 8 * t) { reveal_with_fuel(ww, 1); }
pub proof fn w_hi(s: Seq<u8>, o: int, t: int) requires t >= 16, ensures ww(s, o, t) == add(ww(s, o, t - 16), add(add(ssig1(ww(s, o, t - 2)), ww(s, o, t - 7)), ssig0(ww(s, o, t - 15)))) { reveal_with_fuel(ww, 1); }
#[verifier::opaque]
pub open spec fn compress(h: Seq<u64>, s: Seq<u8>, o: int) -> Seq<u64> {
    let r = rounds(st_of(h), s, o, 80);
    seq![add(h[0], r.a), add(h[1], r.b), add(h[2], r.c), add(h[3], r.d), add(h[4], r.e), add(h[5], r.f), add(h[6], r.g), add(h[7], r.h)]
}
/// the hash value after the first n whole blocks of m
pub open spec fn absorb(iv: Seq<u64>, m: Seq<u8>, n: int) -> Seq<u64> decreases n { if n <= 0 { iv } else { compress(absorb(iv, m, n - 1), m, 128 * (n - 1)) } }
pub open spec fn zeros(n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| 0u8) }
pub open spec fn be64seq(x: u64) -> Seq<u8> { seq![(x >> 56u64) as u8, (x >> 48u64) as u8, (x >> 40u64) as u8, (x >> 32u64) as u8, (x >> 24u64) as u8, (x >> 16u64) as u8, (x >> 8u64) as u8, x as u8] }
/// the padding of a message of n bytes: 0x80, zeros up to 112 modulo 128, the bit length in 16 bytes
pub open spec fn padding(n: int) -> Seq<u8> { seq![0x80u8] + zeros((239 - n % 128) % 128) + zeros(8) + be64seq((8 * n) as u64) }
pub open spec fn padded(m: Seq<u8>) -> Seq<u8> { m + padding(m.len() as int) }
pub open spec fn digest_words(iv: Seq<u64>, m: Seq<u8>) -> Seq<u64> { absorb(iv, padded(m), padded(m).len() as int / 128) }
/// the first k bytes of the digest (k a multiple of 8)
pub open spec fn digest_at(out: Seq<u8>, o: int, words: Seq<u64>, k: int) -> bool { 0 <= o && o + 8 * k <= out.len() && forall|i: int| 0 <= i < k ==> #[trigger] be64_at(out, o + 8 * i, words[i]) }

// ---- the block-wise view
pub proof fn ww_ext(s: Seq<u8>, o: int, s2: Seq<u8>, o2: int, t: int)
    requires 0 <= o, o + 128 <= s.len(), 0 <= o2, o2 + 128 <= s2.len(), forall|j: int| 0 <= j < 128 ==> #[trigger] s[o + j] == s2[o2 + j], 0 <= t < 80,
    ensures ww(s, o, t) == ww(s2, o2, t),
    decreases t,
{
    if t < 16 {
        reveal(rd64); w_lo(s, o, t); w_lo(s2, o2, t);
        let a = o + 8 * t; let b = o2 + 8 * t;
        assert(s[o + (8 * t + 0)] == s2[o2 + (8 * t + 0)]);
        assert(s[o + (8 * t + 1)] == s2[o2 + (8 * t + 1)]);
        assert(s[o + (8 * t + 2)] == s2[o2 + (8 * t + 2)]);
        assert(s[o + (8 * t + 3)] == s2[o2 + (8 * t + 3)]);
        assert(s[o + (8 * t + 4)] == s2[o2 + (8 * t + 4)]);
        assert(s[o + (8 * t + 5)] == s2[o2 + (8 * t + 5)]);
        assert(s[o + (8 * t + 6)] == s2[o2 + (8 * t + 6)]);
        assert(s[o + (8 * t + 7)] == s2[o2 + (8 * t + 7)]);
    } else {
        w_hi(s, o, t); w_hi(s2, o2, t);
        ww_ext(s, o, s2, o2, t - 2); ww_ext(s, o, s2, o2, t - 7); ww_ext(s, o, s2, o2, t - 15); ww_ext(s, o, s2, o2, t - 16);
    }
}
pub proof fn rounds_ext(h: St, s: Seq<u8>, o: int, s2: Seq<u8>, o2: int, t: int)
    requires 0 <= o, o + 128 <= s.len(), 0 <= o2, o2 + 128 <= s2.len(), forall|j: int| 0 <= j < 128 ==> #[trigger] s[o + j] == s2[o2 + j], 0 <= t <= 80,
    ensures rounds(h, s, o, t) == rounds(h, s2, o2, t),
    decreases t,
{
    if t == 0 { rounds_step(h, s, o, 0); rounds_step(h, s2, o2, 0); }
    else { rounds_ext(h, s, o, s2, o2, t - 1); rounds_step(h, s, o, t - 1); rounds_step(h, s2, o2, t - 1); ww_ext(s, o, s2, o2, t - 1); }
}
pub proof fn compress_ext(h: Seq<u64>, s: Seq<u8>, o: int, s2: Seq<u8>, o2: int)
    requires 0 <= o, o + 128 <= s.len(), 0 <= o2, o2 + 128 <= s2.len(), forall|j: int| 0 <= j < 128 ==> #[trigger] s[o + j] == s2[o2 + j],
    ensures compress(h, s, o) == compress(h, s2, o2),
{ reveal(compress); rounds_ext(st_of(h), s, o, s2, o2, 80); }
pub proof fn absorb_ext(iv: Seq<u64>, m: Seq<u8>, m2: Seq<u8>, n: int)
    requires 0 <= n, 128 * n <= m.len(), 128 * n <= m2.len(), forall|j: int| 0 <= j < 128 * n ==> #[trigger] m[j] == m2[j],
    ensures absorb(iv, m, n) == absorb(iv, m2, n),
    decreases n,
{
    if n > 0 {
        absorb_ext(iv, m, m2, n - 1);
        let o = 128 * (n - 1);
        assert forall|j: int| 0 <= j < 128 implies #[trigger] m[o + j] == m2[o + j] by { }
        compress_ext(absorb(iv, m, n - 1), m, o, m2, o);
    }
}
pub proof fn compress_len(h: Seq<u64>, s: Seq<u8>, o: int) ensures compress(h, s, o).len() == 8 { reveal(compress); }
pub proof fn absorb_len(iv: Seq<u64>, m: Seq<u8>, n: int) requires iv.len() == 8, ensures absorb(iv, m, n).len() == 8 { if n > 0 { compress_len(absorb(iv, m, n - 1), m, 128 * (n - 1)); } }
pub open spec fn all_eq(s: Seq<u8>, o: int, m: Seq<u8>, p: int, k: int) -> bool { 0 <= o && 0 <= p && o + k <= s.len() && p + k <= m.len() && forall|j: int| 0 <= j < k ==> #[trigger] s[o + j] == m[p + j] }
/// one more block, taken from wherever its bytes happen to be
pub proof fn absorb_block(iv: Seq<u64>, m: Seq<u8>, n: int, s: Seq<u8>, o: int)
    requires 0 <= n, 128 * n + 128 <= m.len(), all_eq(s, o, m, 128 * n, 128),
    ensures absorb(iv, m, n + 1) == compress(absorb(iv, m, n), s, o),
{ assert forall|j: int| 0 <= j < 128 implies #[trigger] m[128 * n + j] == s[o + j] by { assert(s[o + j] == m[128 * n + j]); } compress_ext(absorb(iv, m, n), m, 128 * n, s, o); }
pub proof fn shl3(x: u64) requires x < 0x2000_0000_0000_0000, ensures (x << 3u64) == 8 * x { assert(x < 0x2000_0000_0000_0000 ==> (x << 3u64) == mul(8, x)) by (bit_vector); }
pub proof fn assoc4(a: u64, b: u64, c: u64, d: u64) ensures add(add(add(a, b), c), d) == add(a, add(add(b, c), d)) { assert(add(add(add(a, b), c), d) == add(a, add(add(b, c), d))) by (bit_vector); }
/// the next eight bytes of the digest are written
pub proof fn digest_step(s0: Seq<u8>, s1: Seq<u8>, o: int, words: Seq<u64>, i: int)
    requires digest_at(s0, o, words, i), 0 <= i, be64_at(s1, o + 8 * i, words[i]), s1.len() == s0.len(), forall|j: int| 0 <= j < s1.len() && !(o + 8 * i <= j < o + 8 * i + 8) ==> #[trigger] s1[j] == s0[j],
    ensures digest_at(s1, o, words, i + 1),
{
    assert forall|k: int| 0 <= k < i + 1 implies #[trigger] be64_at(s1, o + 8 * k, words[k]) by { if k < i { assert(be64_at(s0, o + 8 * k, words[k])); } }
}
