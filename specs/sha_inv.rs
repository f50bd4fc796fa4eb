// the state of a hasher that has absorbed exactly the message m (placed after the extracted struct CSHA512)
pub open spec fn bufbytes(buf: Seq<u8>, m: Seq<u8>) -> bool { forall|j: int| 0 <= j < m.len() % 128 ==> #[trigger] buf[j] == m[128 * (m.len() as int / 128) + j] }
pub open spec fn hinv(c: CSHA512, iv: Seq<u64>, m: Seq<u8>) -> bool { c.bytes == m.len() && iv.len() == 8 && c.s@ == absorb(iv, m, m.len() as int / 128) && bufbytes(c.buf@, m) }
