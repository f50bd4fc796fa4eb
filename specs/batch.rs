// The two byte formats of C10 and C11, written down independently of the code:
//   batch proof : be32(#targets) be32(#hashes) be32(target)*  hash32*
//   undo batch  : be32(#adds)    be32(#dels)   be32(position)* hash32*
pub open spec fn hash_at(s: Seq<u8>, o: int, h: [u8; 32]) -> bool { 0 <= o && o + 32 <= s.len() && forall|j: int| 0 <= j < 32 ==> #[trigger] s[o + j] == h@[j] }
/// `b` is the encoding of the two header words, the positions `t` and the hashes `p`
pub open spec fn enc(b: Seq<u8>, w0: u32, w1: u32, t: Seq<u64>, p: Seq<[u8; 32]>) -> bool {
    &&& b.len() == 8 + 4 * t.len() + 32 * p.len()
    &&& be32_at(b, 0, w0) && be32_at(b, 4, w1)
    &&& forall|i: int| 0 <= i < t.len() ==> #[trigger] be32_at(b, 8 + 4 * i, t[i] as u32)
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] hash_at(b, 8 + 4 * t.len() + 32 * i, p[i])
}
pub open spec fn enc_proof(b: Seq<u8>, t: Seq<u64>, p: Seq<[u8; 32]>) -> bool { enc(b, t.len() as u32, p.len() as u32, t, p) }
pub open spec fn enc_undo(b: Seq<u8>, adds: u64, t: Seq<u64>, p: Seq<[u8; 32]>) -> bool { t.len() == p.len() && enc(b, adds as u32, t.len() as u32, t, p) }
pub open spec fn all32(t: Seq<u64>) -> bool { forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] < 0x1_0000_0000 }
/// two objects whose encodings are the same bytes carry the same data (below 2^32 nothing is truncated)
pub proof fn enc_inj(b: Seq<u8>, w0: u32, w1: u32, t: Seq<u64>, p: Seq<[u8; 32]>, v0: u32, v1: u32, t2: Seq<u64>, p2: Seq<[u8; 32]>)
    requires enc(b, w0, w1, t, p), enc(b, v0, v1, t2, p2), t.len() == t2.len(), all32(t), all32(t2),
    ensures w0 == v0, w1 == v1, t == t2, p == p2,
{
    be32_iff(b, 0, w0); be32_iff(b, 0, v0); be32_iff(b, 4, w1); be32_iff(b, 4, v1);
    assert forall|i: int| 0 <= i < t.len() implies t[i] == t2[i] by {
        assert(be32_at(b, 8 + 4 * i, t[i] as u32) && be32_at(b, 8 + 4 * i, t2[i] as u32));
        be32_iff(b, 8 + 4 * i, t[i] as u32); be32_iff(b, 8 + 4 * i, t2[i] as u32);
    }
    assert(t =~= t2);
    assert forall|i: int| 0 <= i < p.len() implies p[i] == p2[i] by {
        assert(hash_at(b, 8 + 4 * t.len() + 32 * i, p[i]) && hash_at(b, 8 + 4 * t2.len() + 32 * i, p2[i]));
        assert forall|j: int| 0 <= j < 32 implies p[i]@[j] == p2[i]@[j] by { assert(b[8 + 4 * t.len() + 32 * i + j] == p[i]@[j]); assert(b[8 + 4 * t.len() + 32 * i + j] == p2[i]@[j]); }
        assert(p[i]@ =~= p2[i]@);
        assert(p[i] =~= p2[i]);
    }
    assert(p =~= p2);
}
/// round trip of a batch proof: whatever Unserialize accepts from Serialize's output is the same proof, and it is accepted
pub proof fn proof_roundtrip(b: Seq<u8>, t: Seq<u64>, p: Seq<[u8; 32]>, t2: Seq<u64>, p2: Seq<[u8; 32]>)
    requires enc_proof(b, t, p), t.len() < 0x1_0000_0000, p.len() < 0x1_0000_0000, all32(t),
        enc_proof(b, t2, p2), t2.len() < 0x1_0000_0000, p2.len() < 0x1_0000_0000, all32(t2),
    ensures t == t2, p == p2,
{
    be32_iff(b, 0, t.len() as u32); be32_iff(b, 0, t2.len() as u32); be32_iff(b, 4, p.len() as u32); be32_iff(b, 4, p2.len() as u32);
    enc_inj(b, t.len() as u32, p.len() as u32, t, p, t2.len() as u32, p2.len() as u32, t2, p2);
}
pub proof fn undo_roundtrip(b: Seq<u8>, a: u64, t: Seq<u64>, p: Seq<[u8; 32]>, a2: u64, t2: Seq<u64>, p2: Seq<[u8; 32]>)
    requires enc_undo(b, a, t, p), t.len() < 0x1_0000_0000, all32(t), a < 0x1_0000_0000,
        enc_undo(b, a2, t2, p2), t2.len() < 0x1_0000_0000, all32(t2), a2 < 0x1_0000_0000,
    ensures t == t2, p == p2, a == a2,
{
    be32_iff(b, 0, a as u32); be32_iff(b, 0, a2 as u32); be32_iff(b, 4, t.len() as u32); be32_iff(b, 4, t2.len() as u32);
    enc_inj(b, a as u32, t.len() as u32, t, p, a2 as u32, t2.len() as u32, t2, p2);
}
/// `b` is the encoding of some batch proof / undo batch
pub open spec fn is_proof(b: Seq<u8>) -> bool { b.len() >= 8 && b.len() == 8 + 4 * rd32(b, 0) + 32 * rd32(b, 4) }
pub open spec fn is_undo(b: Seq<u8>) -> bool { b.len() >= 8 && b.len() == 8 + 36 * rd32(b, 4) }
/// every encoding is recognised
pub proof fn enc_recognised(b: Seq<u8>, t: Seq<u64>, p: Seq<[u8; 32]>, a: u64)
    requires t.len() < 0x1_0000_0000, p.len() < 0x1_0000_0000,
    ensures enc_proof(b, t, p) ==> is_proof(b), enc_undo(b, a, t, p) ==> is_undo(b),
{
    if enc_proof(b, t, p) { be32_iff(b, 0, t.len() as u32); be32_iff(b, 4, p.len() as u32); }
    if enc_undo(b, a, t, p) { be32_iff(b, 4, t.len() as u32); }
}
