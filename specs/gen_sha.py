#!/usr/bin/env python3
"""Writes specs/sha_k.rs (the FIPS 180-4 round constants, computed from the cube roots of the first 80 primes, and the
initial values, computed from square roots / SHA-512/256 from the generation function) and specs/sha_transform.ov."""
import os
from math import isqrt
H=os.path.dirname(os.path.abspath(__file__))
def primes(n):
    r=[]; k=2
    while len(r)<n:
        if all(k%p for p in r): r.append(k)
        k+=1
    return r
def icbrt(x):
    lo,hi=0,1<<((x.bit_length()+2)//3+1)
    while lo<hi:
        m=(lo+hi+1)//2
        if m**3<=x: lo=m
        else: hi=m-1
    return lo
M=(1<<64)-1
K=[icbrt(p<<192)&M for p in primes(80)]
IV=[isqrt(p<<128)&M for p in primes(8)]
def rotr(x,k): return ((x>>k)|(x<<(64-k)))&M
def compress(h,b):
    w=[int.from_bytes(b[8*i:8*i+8],'big') for i in range(16)]
    for t in range(16,80):
        s1=rotr(w[t-2],19)^rotr(w[t-2],61)^(w[t-2]>>6); s0=rotr(w[t-15],1)^rotr(w[t-15],8)^(w[t-15]>>7)
        w.append((s1+w[t-7]+s0+w[t-16])&M)
    a,b_,c,d,e,f,g,hh=h
    for t in range(80):
        t1=(hh+(rotr(e,14)^rotr(e,18)^rotr(e,41))+((e&f)^(~e&M&g))+K[t]+w[t])&M
        t2=((rotr(a,28)^rotr(a,34)^rotr(a,39))+((a&b_)^(a&c)^(b_&c)))&M
        a,b_,c,d,e,f,g,hh=(t1+t2)&M,a,b_,c,(d+t1)&M,e,f,g
    return [(x+y)&M for x,y in zip(h,[a,b_,c,d,e,f,g,hh])]
def sha(iv,m):
    n=len(m); m=m+b'\x80'+b'\0'*((239-n%128)%128)+(8*n).to_bytes(16,'big')
    for i in range(0,len(m),128): iv=compress(iv,m[i:i+128])
    return b''.join(x.to_bytes(8,'big') for x in iv)
import hashlib
assert sha(IV,b'abc')==hashlib.sha512(b'abc').digest()
g=sha([x^0xa5a5a5a5a5a5a5a5 for x in IV],b'SHA-512/256'); IV256=[int.from_bytes(g[8*i:8*i+8],'big') for i in range(8)]
try: assert sha(IV256,b'abc')[:32]==hashlib.new('sha512_256',b'abc').digest()
except ValueError: pass
o='// generated by gen_sha.py: FIPS 180-4 constants\npub open spec fn kk(t: int) -> u64 {\n'
for i,k in enumerate(K): o+='    %sif t == %d { 0x%016xu64 }\n'%('else ' if i else '',i,k)
o+='    else { 0u64 }\n}\n'
o+='pub open spec fn iv512() -> Seq<u64> { seq![%s] }\n'%', '.join('0x%016xu64'%x for x in IV)
o+='pub open spec fn iv256() -> Seq<u64> { seq![%s] }\n'%', '.join('0x%016xu64'%x for x in IV256)
open(H+'/sha_k.rs','w').write(o)
L=['a','b','c','d','e','f','g','h']
def vars_(t): # names holding (a..h) after t rounds
    r=t%8
    return [L[(i-r)%8] for i in range(8)]
v=['@fn Transform','@module m_sha_t','@props C19','@spinoff','@rlimit 200','@wrapadd','@requires',
 '    old(s)@.len() == 8, s_i == 0, //= the eight state words',
 '    chunk.idx + 128 <= chunk.v@.len(), chunk.v@.len() <= 0x7fff_ffff_ffff_ffff, //= a whole block',
 '@ensures','    final(s)@ == compress(old(s)@, chunk.v@, chunk.idx as int), //= C19: the SHA-512 compression function of FIPS 180-4',
 '@entry','let ghost h0 = st_of(s@); let ghost cb = chunk.v@; let ghost ci = chunk.idx as int; let ghost s_0 = h0;','proof { rounds_step(h0, cb, ci, 0); }']
for t in range(80):
    x=vars_(t+1); w='w%d'%(t%16)
    v+=['@after Round#%d'%t]
    if t<78:
        v+=['    %s(cb, ci, %d);'%('w_lo' if t<16 else 'w_hi',t)]
        v+=['    assert(%s == ww(cb, ci, %d));'%(w,t)]
    else: v+=['    w_hi(cb, ci, %d);'%t,'    assoc4(ww(cb, ci, %d), ssig1(ww(cb, ci, %d)), ww(cb, ci, %d), ssig0(ww(cb, ci, %d)));'%(t-16,t-2,t-7,t-15)]
    v+=['    rounds_step(h0, cb, ci, %d);'%t, '    assert(rounds(h0, cb, ci, %d) == (St { a: %s }));'%(t+1,', '.join(('%s: %s'%(L[i],x[i]) if i else x[i]) for i in range(8)))]
v+=['@ret','    reveal(compress);','    assert(s@ =~= compress(old(s)@, cb, ci));']
open(H+'/sha_transform.ov','w').write('\n'.join(v)+'\n')
