// big-endian words in byte storage
pub open spec fn be32_at(s: Seq<u8>, o: int, x: u32) -> bool {
    0 <= o && o + 4 <= s.len() && s[o] == (x >> 24u32) as u8 && s[o + 1] == (x >> 16u32) as u8 && s[o + 2] == (x >> 8u32) as u8 && s[o + 3] == x as u8
}
pub open spec fn rd32(s: Seq<u8>, o: int) -> u32 { ((s[o] as u32) << 24u32) | ((s[o + 1] as u32) << 16u32) | ((s[o + 2] as u32) << 8u32) | (s[o + 3] as u32) }
pub open spec fn be64_at(s: Seq<u8>, o: int, x: u64) -> bool {
    0 <= o && o + 8 <= s.len() && s[o] == (x >> 56u64) as u8 && s[o + 1] == (x >> 48u64) as u8 && s[o + 2] == (x >> 40u64) as u8 && s[o + 3] == (x >> 32u64) as u8
    && s[o + 4] == (x >> 24u64) as u8 && s[o + 5] == (x >> 16u64) as u8 && s[o + 6] == (x >> 8u64) as u8 && s[o + 7] == x as u8
}
#[verifier::opaque]
pub open spec fn rd64(s: Seq<u8>, o: int) -> u64 {
    ((s[o] as u64) << 56u64) | ((s[o + 1] as u64) << 48u64) | ((s[o + 2] as u64) << 40u64) | ((s[o + 3] as u64) << 32u64)
    | ((s[o + 4] as u64) << 24u64) | ((s[o + 5] as u64) << 16u64) | ((s[o + 6] as u64) << 8u64) | (s[o + 7] as u64)
}
/// reading a big-endian word back gives the word, and rewriting a word that was read gives the same bytes
pub proof fn be32_iff(s: Seq<u8>, o: int, x: u32)
    requires 0 <= o, o + 4 <= s.len(),
    ensures be32_at(s, o, x) <==> rd32(s, o) == x,
{
    let (a, b, c, d) = (s[o], s[o + 1], s[o + 2], s[o + 3]);
    assert((a == (x >> 24u32) as u8 && b == (x >> 16u32) as u8 && c == (x >> 8u32) as u8 && d == x as u8)
        <==> (((a as u32) << 24u32) | ((b as u32) << 16u32) | ((c as u32) << 8u32) | (d as u32)) == x) by (bit_vector);
}
pub proof fn bswap32_le(x: u32)
    ensures ({ let v = (((x & 0xff) << 24u32) | (((x >> 8u32) & 0xff) << 16u32) | (((x >> 16u32) & 0xff) << 8u32) | ((x >> 24u32) & 0xff));
        &&& (v & 0xff) as u8 == (x >> 24u32) as u8 &&& ((v >> 8u32) & 0xff) as u8 == (x >> 16u32) as u8 &&& ((v >> 16u32) & 0xff) as u8 == (x >> 8u32) as u8 &&& ((v >> 24u32) & 0xff) as u8 == x as u8 }),
{
    assert({ let v = (((x & 0xff) << 24u32) | (((x >> 8u32) & 0xff) << 16u32) | (((x >> 16u32) & 0xff) << 8u32) | ((x >> 24u32) & 0xff));
        (v & 0xff) as u8 == (x >> 24u32) as u8 && ((v >> 8u32) & 0xff) as u8 == (x >> 16u32) as u8 && ((v >> 16u32) & 0xff) as u8 == (x >> 8u32) as u8 && ((v >> 24u32) & 0xff) as u8 == x as u8 }) by (bit_vector);
}
pub proof fn bswap32_rd(a: u8, b: u8, c: u8, d: u8)
    ensures ({ let x = (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
        (((x & 0xff) << 24u32) | (((x >> 8u32) & 0xff) << 16u32) | (((x >> 16u32) & 0xff) << 8u32) | ((x >> 24u32) & 0xff)) == (((a as u32) << 24u32) | ((b as u32) << 16u32) | ((c as u32) << 8u32) | (d as u32)) }),
{
    assert({ let x = (a as u32) | ((b as u32) << 8u32) | ((c as u32) << 16u32) | ((d as u32) << 24u32);
        (((x & 0xff) << 24u32) | (((x >> 8u32) & 0xff) << 16u32) | (((x >> 16u32) & 0xff) << 8u32) | ((x >> 24u32) & 0xff)) == (((a as u32) << 24u32) | ((b as u32) << 16u32) | ((c as u32) << 8u32) | (d as u32)) }) by (bit_vector);
}
pub proof fn bswap64_le(x: u64)
    ensures ({ let v = (((x & 0xff) << 56u64) | (((x >> 8u64) & 0xff) << 48u64) | (((x >> 16u64) & 0xff) << 40u64) | (((x >> 24u64) & 0xff) << 32u64) | (((x >> 32u64) & 0xff) << 24u64) | (((x >> 40u64) & 0xff) << 16u64) | (((x >> 48u64) & 0xff) << 8u64) | ((x >> 56u64) & 0xff));
        &&& (v & 0xff) as u8 == (x >> 56u64) as u8 &&& ((v >> 8u64) & 0xff) as u8 == (x >> 48u64) as u8 &&& ((v >> 16u64) & 0xff) as u8 == (x >> 40u64) as u8 &&& ((v >> 24u64) & 0xff) as u8 == (x >> 32u64) as u8
        &&& ((v >> 32u64) & 0xff) as u8 == (x >> 24u64) as u8 &&& ((v >> 40u64) & 0xff) as u8 == (x >> 16u64) as u8 &&& ((v >> 48u64) & 0xff) as u8 == (x >> 8u64) as u8 &&& ((v >> 56u64) & 0xff) as u8 == x as u8 }),
{
    assert({ let v = (((x & 0xff) << 56u64) | (((x >> 8u64) & 0xff) << 48u64) | (((x >> 16u64) & 0xff) << 40u64) | (((x >> 24u64) & 0xff) << 32u64) | (((x >> 32u64) & 0xff) << 24u64) | (((x >> 40u64) & 0xff) << 16u64) | (((x >> 48u64) & 0xff) << 8u64) | ((x >> 56u64) & 0xff));
        (v & 0xff) as u8 == (x >> 56u64) as u8 && ((v >> 8u64) & 0xff) as u8 == (x >> 48u64) as u8 && ((v >> 16u64) & 0xff) as u8 == (x >> 40u64) as u8 && ((v >> 24u64) & 0xff) as u8 == (x >> 32u64) as u8
        && ((v >> 32u64) & 0xff) as u8 == (x >> 24u64) as u8 && ((v >> 40u64) & 0xff) as u8 == (x >> 16u64) as u8 && ((v >> 48u64) & 0xff) as u8 == (x >> 8u64) as u8 && ((v >> 56u64) & 0xff) as u8 == x as u8 }) by (bit_vector);
}
pub proof fn bswap64_rd(a: u8, b: u8, c: u8, d: u8, e: u8, f: u8, g: u8, h: u8)
    ensures ({ let x = (a as u64) | ((b as u64) << 8u64) | ((c as u64) << 16u64) | ((d as u64) << 24u64) | ((e as u64) << 32u64) | ((f as u64) << 40u64) | ((g as u64) << 48u64) | ((h as u64) << 56u64);
        (((x & 0xff) << 56u64) | (((x >> 8u64) & 0xff) << 48u64) | (((x >> 16u64) & 0xff) << 40u64) | (((x >> 24u64) & 0xff) << 32u64) | (((x >> 32u64) & 0xff) << 24u64) | (((x >> 40u64) & 0xff) << 16u64) | (((x >> 48u64) & 0xff) << 8u64) | ((x >> 56u64) & 0xff))
        == (((a as u64) << 56u64) | ((b as u64) << 48u64) | ((c as u64) << 40u64) | ((d as u64) << 32u64) | ((e as u64) << 24u64) | ((f as u64) << 16u64) | ((g as u64) << 8u64) | (h as u64)) }),
{
    assert({ let x = (a as u64) | ((b as u64) << 8u64) | ((c as u64) << 16u64) | ((d as u64) << 24u64) | ((e as u64) << 32u64) | ((f as u64) << 40u64) | ((g as u64) << 48u64) | ((h as u64) << 56u64);
        (((x & 0xff) << 56u64) | (((x >> 8u64) & 0xff) << 48u64) | (((x >> 16u64) & 0xff) << 40u64) | (((x >> 24u64) & 0xff) << 32u64) | (((x >> 32u64) & 0xff) << 24u64) | (((x >> 40u64) & 0xff) << 16u64) | (((x >> 48u64) & 0xff) << 8u64) | ((x >> 56u64) & 0xff))
        == (((a as u64) << 56u64) | ((b as u64) << 48u64) | ((c as u64) << 40u64) | ((d as u64) << 32u64) | ((e as u64) << 24u64) | ((f as u64) << 16u64) | ((g as u64) << 8u64) | (h as u64)) }) by (bit_vector);
}
