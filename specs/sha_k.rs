// generated by gen_sha.py: FIPS 180-4 constants
pub open spec fn kk(t: int) -> u64 {
    if t == 0 { 0x428a2f98d728ae22u64 }
    else if t == 1 { 0x7137449123ef65cdu64 }
    else if t == 2 { 0xb5c0fbcfec4d3b2fu64 }
    else if t == 3 { 0xe9b5dba58189dbbcu64 }
    else if t == 4 { 0x3956c25bf348b538u64 }
    else if t == 5 { 0x59f111f1b605d019u64 }
    else if t == 6 { 0x923f82a4af194f9bu64 }
    else if t == 7 { 0xab1c5ed5da6d8118u64 }
    else if t == 8 { 0xd807aa98a3030242u64 }
    else if t == 9 { 0x12835b0145706fbeu64 }
    else if t == 10 { 0x243185be4ee4b28cu64 }
    else if t == 11 { 0x550c7dc3d5ffb4e2u64 }
    else if t == 12 { 0x72be5d74f27b896fu64 }
    else if t == 13 { 0x80deb1fe3b1696b1u64 }
    else if t == 14 { 0x9bdc06a725c71235u64 }
    else if t == 15 { 0xc19bf174cf692694u64 }
    else if t == 16 { 0xe49b69c19ef14ad2u64 }
    else if t == 17 { 0xefbe4786384f25e3u64 }
    else if t == 18 { 0x0fc19dc68b8cd5b5u64 }
    else if t == 19 { 0x240ca1cc77ac9c65u64 }
    else if t == 20 { 0x2de92c6f592b0275u64 }
    else if t == 21 { 0x4a7484aa6ea6e483u64 }
    else if t == 22 { 0x5cb0a9dcbd41fbd4u64 }
    else if t == 23 { 0x76f988da831153b5u64 }
    else if t == 24 { 0x983e5152ee66dfabu64 }
    else if t == 25 { 0xa831c66d2db43210u64 }
    else if t == 26 { 0xb00327c898fb213fu64 }
    else if t == 27 { 0xbf597fc7beef0ee4u64 }
    else if t == 28 { 0xc6e00bf33da88fc2u64 }
    else if t == 29 { 0xd5a79147930aa725u64 }
    else if t == 30 { 0x06ca6351e003826fu64 }
    else if t == 31 { 0x142929670a0e6e70u64 }
    else if t == 32 { 0x27b70a8546d22ffcu64 }
    else if t == 33 { 0x2e1b21385c26c926u64 }
    else if t == 34 { 0x4d2c6dfc5ac42aedu64 }
    else if t == 35 { 0x53380d139d95b3dfu64 }
    else if t == 36 { 0x650a73548baf63deu64 }
    else if t == 37 { 0x766a0abb3c77b2a8u64 }
    else if t == 38 { 0x81c2c92e47edaee6u64 }
    else if t == 39 { 0x92722c851482353bu64 }
    else if t == 40 { 0xa2bfe8a14cf10364u64 }
    else if t == 41 { 0xa81a664bbc423001u64 }
    else if t == 42 { 0xc24b8b70d0f89791u64 }
    else if t == 43 { 0xc76c51a30654be30u64 }
    else if t == 44 { 0xd192e819d6ef5218u64 }
    else if t == 45 { 0xd69906245565a910u64 }
    else if t == 46 { 0xf40e35855771202au64 }
    else if t == 47 { 0x106aa07032bbd1b8u64 }
    else if t == 48 { 0x19a4c116b8d2d0c8u64 }
    else if t == 49 { 0x1e376c085141ab53u64 }
    else if t == 50 { 0x2748774cdf8eeb99u64 }
    else if t == 51 { 0x34b0bcb5e19b48a8u64 }
    else if t == 52 { 0x391c0cb3c5c95a63u64 }
    else if t == 53 { 0x4ed8aa4ae3418acbu64 }
    else if t == 54 { 0x5b9cca4f7763e373u64 }
    else if t == 55 { 0x682e6ff3d6b2b8a3u64 }
    else if t == 56 { 0x748f82ee5defb2fcu64 }
    else if t == 57 { 0x78a5636f43172f60u64 }
    else if t == 58 { 0x84c87814a1f0ab72u64 }
    else if t == 59 { 0x8cc702081a6439ecu64 }
    else if t == 60 { 0x90befffa23631e28u64 }
    else if t == 61 { 0xa4506cebde82bde9u64 }
    else if t == 62 { 0xbef9a3f7b2c67915u64 }
    else if t == 63 { 0xc67178f2e372532bu64 }
    else if t == 64 { 0xca273eceea26619cu64 }
    else if t == 65 { 0xd186b8c721c0c207u64 }
    else if t == 66 { 0xeada7dd6cde0eb1eu64 }
    else if t == 67 { 0xf57d4f7fee6ed178u64 }
    else if t == 68 { 0x06f067aa72176fbau64 }
    else if t == 69 { 0x0a637dc5a2c898a6u64 }
    else if t == 70 { 0x113f9804bef90daeu64 }
    else if t == 71 { 0x1b710b35131c471bu64 }
    else if t == 72 { 0x28db77f523047d84u64 }
    else if t == 73 { 0x32caab7b40c72493u64 }
    else if t == 74 { 0x3c9ebe0a15c9bebcu64 }
    else if t == 75 { 0x431d67c49c100d4cu64 }
    else if t == 76 { 0x4cc5d4becb3e42b6u64 }
    else if t == 77 { 0x597f299cfc657e2au64 }
    else if t == 78 { 0x5fcb6fab3ad6faecu64 }
    else if t == 79 { 0x6c44198c4a475817u64 }
    else { 0u64 }
}
pub open spec fn iv512() -> Seq<u64> { seq![0x6a09e667f3bcc908u64, 0xbb67ae8584caa73bu64, 0x3c6ef372fe94f82bu64, 0xa54ff53a5f1d36f1u64, 0x510e527fade682d1u64, 0x9b05688c2b3e6c1fu64, 0x1f83d9abfb41bd6bu64, 0x5be0cd19137e2179u64] }
pub open spec fn iv256() -> Seq<u64> { seq![0x22312194fc2bf72cu64, 0x9f555fa3c84c64c2u64, 0x2393b86b6f53b151u64, 0x963877195940eabdu64, 0x96283ee2a88effe3u64, 0xbe5e1e2553863992u64, 0x2b0199fc2c85b8aau64, 0x0eb72ddc81c52ca2u64] }
