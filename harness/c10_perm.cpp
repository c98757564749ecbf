// C10 (and C26): every scalar and SIMD variant of each permutation equals the reference definition for all inputs
//@t 120
#include "sym.h"
#include "refperm.h"
#include "SHA2.h"
#include "Keccak.h"
#include "Blake.h"
#include "Skein.h"
#include "UInt256.h"
#include "ULong256.h"
using namespace CEX; using namespace CEX::Digest; using CEX::Numeric::UInt256; using CEX::Numeric::ULong256;
template<class A> static void symA(A&a,const char*n){ sym_bytes(a.data(),a.size()*sizeof(a[0]),n); }
// message whose big endian words of w bytes are the symbolic variables
static Bytes symBE(size_t n,size_t off,size_t w){ Bytes b(off); for(size_t i=0;i<n/w;i++){ uint8_t t[8]; sym_bytes(t,w,"m"); for(size_t j=w;j-->0;) b.push_back(t[j]); } return b; }
template<class A> static void eqA(const A&a,const A&b,const char*m){ sym_assert_eq(a.data(),b.data(),a.size()*sizeof(a[0]),m); }
template<class F> static void sha256v(F f){ sym_coarse(1); size_t off=(size_t)sym_choose(0,1)*5; Bytes in=symBE(64,off,4),in0=in; std::array<uint32_t,8> s,r; symA(s,"h"); r=s; f(in,off,s); refSha256P(r.data(),in0.data()+off); eqA(s,r,"the SHA-256 compression function is FIPS 180-4's"); assertEq(in,in0,"the message is not modified"); sym_reach(1); }
template<class F> static void sha512v(F f){ sym_coarse(1); size_t off=(size_t)sym_choose(0,1)*5; Bytes in=symBE(128,off,8),in0=in; std::array<uint64_t,8> s,r; symA(s,"h"); r=s; f(in,off,s); refSha512P(r.data(),in0.data()+off); eqA(s,r,"the SHA-512 compression function is FIPS 180-4's"); assertEq(in,in0,"the message is not modified"); sym_reach(1); }
ENTRY c10_p_sha256_c(){ sha256v([](auto&i,size_t o,auto&s){ SHA2::PermuteR64P512C(i,o,s); }); } //@ reach=1 b="SHA-256 compression, compact: all states and blocks, all 64 rounds"
ENTRY c10_p_sha256_u(){ sha256v([](auto&i,size_t o,auto&s){ SHA2::PermuteR64P512U(i,o,s); }); } //@ reach=1 b="as above, unrolled"
ENTRY c10_p_sha256_v(){ sha256v([](auto&i,size_t o,auto&s){ SHA2::PermuteR64P512V(i,o,s); }); } //@ reach=1 b="as above, SHA-NI"
ENTRY c10_p_sha512_c(){ sha512v([](auto&i,size_t o,auto&s){ SHA2::PermuteR80P1024C(i,o,s); }); } //@ reach=1 b="SHA-512 compression, compact: all states and blocks, all 80 rounds"
ENTRY c10_p_sha512_u(){ sha512v([](auto&i,size_t o,auto&s){ SHA2::PermuteR80P1024U(i,o,s); }); } //@ reach=1 b="as above, unrolled"
ENTRY c10_p_sha256_h(){ sym_coarse(1); Bytes in=symBE(512,3,4); std::array<UInt256,8> s,e; uint32_t h[8][8]; sym_bytes(h,256,"h"); auto ld=[&](std::array<UInt256,8>&a){ for(int i=0;i<8;i++) a[i].Load(h[0][i],h[1][i],h[2][i],h[3][i],h[4][i],h[5][i],h[6][i],h[7][i]); }; ld(s); SHA2::PermuteR64P8x512H(in,3,s); for(int j=0;j<8;j++) refSha256P(h[j],in.data()+3+64*j); ld(e); sym_assert_eq(s.data(),e.data(),256,"lane j of the 8-way SHA-256 compresses block j"); sym_reach(1); } //@ reach=1 b="8-way SHA-256 compression: all states and blocks"
ENTRY c10_p_sha512_h(){ sym_coarse(1); Bytes in=symBE(512,3,8); std::array<ULong256,8> s,e; uint64_t h[4][8]; sym_bytes(h,256,"h"); auto ld=[&](std::array<ULong256,8>&a){ for(int i=0;i<8;i++) a[i].Load(h[0][i],h[1][i],h[2][i],h[3][i]); }; ld(s); SHA2::PermuteR80P4x1024H(in,3,s); for(int j=0;j<4;j++) refSha512P(h[j],in.data()+3+128*j); ld(e); sym_assert_eq(s.data(),e.data(),256,"lane j of the 4-way SHA-512 compresses block j"); sym_reach(1); } //@ reach=1 b="4-way SHA-512 compression: all states and blocks"
template<class F> static void keccakv(int rounds,F f){ sym_coarse(1); std::array<uint64_t,25> s,r; symA(s,"s"); r=s; f(s); refKeccakP(r.data(),rounds); eqA(s,r,"the permutation is Keccak-p[1600]"); sym_reach(1); }
ENTRY c10_p_keccak_c24(){ keccakv(24,[](auto&s){ Keccak::Permute(s,Keccak::PermutationRounds::RX24); }); } //@ reach=1 b="Keccak-p[1600], compact, 24 rounds: all states"
ENTRY c10_p_keccak_c48(){ keccakv(48,[](auto&s){ Keccak::Permute(s,Keccak::PermutationRounds::RX48); }); } //@ reach=1 b="48 rounds (constants continued)"
ENTRY c10_p_keccak_u24(){ keccakv(24,[](auto&s){ Keccak::PermuteR24P1600U(s); }); } //@ reach=1 b="unrolled, 24 rounds"
ENTRY c10_p_keccak_u48(){ keccakv(48,[](auto&s){ Keccak::PermuteR48P1600U(s); }); } //@ reach=1 b="unrolled, 48 rounds"
template<class F> static void keccakh(int rounds,F f){ sym_coarse(1); std::array<ULong256,25> s,e; uint64_t h[4][25]; sym_bytes(h,800,"s"); auto ld=[&](std::array<ULong256,25>&a){ for(int i=0;i<25;i++) a[i].Load(h[0][i],h[1][i],h[2][i],h[3][i]); }; ld(s); f(s); for(int j=0;j<4;j++) refKeccakP(h[j],rounds); ld(e); sym_assert_eq(s.data(),e.data(),800,"lane j of the 4-way Keccak permutes state j"); sym_reach(1); }
ENTRY c10_p_keccak_h24(){ keccakh(24,[](auto&s){ Keccak::PermuteR24P4x1600H(s); }); } //@ reach=1 b="4-way, 24 rounds"
ENTRY c10_p_keccak_h48(){ keccakh(48,[](auto&s){ Keccak::PermuteR48P4x1600H(s); }); } //@ reach=1 b="4-way, 48 rounds"
template<class W,class F> static void blakev(int rounds,const int*R,F f){ sym_coarse(3); size_t off=(size_t)sym_choose(0,1)*5; Bytes in=symBytes(16*sizeof(W)+off,"m"),in0=in; std::array<W,8> s,r,iv; symA(s,"h"); symA(iv,"iv"); r=s; auto iv0=iv; f(in,off,s,iv); W M[16]; memcpy(M,in0.data()+off,sizeof M); refBlakeP<W>(r.data(),iv0.data(),M,rounds,R); eqA(s,r,"the BLAKE2 compression function is RFC 7693's"); sym_reach(1); }
ENTRY c10_p_blake256_c(){ blakev<uint32_t>(10,REF_B32,[](auto&i,size_t o,auto&s,auto&v){ Blake::PermuteR10P512C(i,o,s,v); }); } //@ reach=1 b="BLAKE2s compression, compact: all states, blocks and counters"
ENTRY c10_p_blake256_u(){ blakev<uint32_t>(10,REF_B32,[](auto&i,size_t o,auto&s,auto&v){ Blake::PermuteR10P512U(i,o,s,v); }); } //@ reach=1 b="unrolled"
ENTRY c10_p_blake256_v(){ blakev<uint32_t>(10,REF_B32,[](auto&i,size_t o,auto&s,auto&v){ Blake::PermuteR10P512V(i,o,s,v); }); } //@ reach=1 b="AVX2"
ENTRY c10_p_blake512_c(){ blakev<uint64_t>(12,REF_B64,[](auto&i,size_t o,auto&s,auto&v){ Blake::PermuteR12P1024C(i,o,s,v); }); } //@ reach=1 b="BLAKE2b compression, compact"
ENTRY c10_p_blake512_u(){ blakev<uint64_t>(12,REF_B64,[](auto&i,size_t o,auto&s,auto&v){ Blake::PermuteR12P1024U(i,o,s,v); }); } //@ reach=1 b="unrolled"
ENTRY c10_p_blake512_v(){ blakev<uint64_t>(12,REF_B64,[](auto&i,size_t o,auto&s,auto&v){ Blake::PermuteR12P1024V(i,o,s,v); }); } //@ reach=1 b="AVX2"
ENTRY c10_p_blake256_h(){ sym_coarse(3); Bytes in=symBytes(512,"m"); std::array<UInt256,8> s,v; std::array<uint32_t,64> h,iv,o; symA(h,"h"); symA(iv,"iv"); memcpy(s.data(),h.data(),256); memcpy(v.data(),iv.data(),256); Blake::PermuteR10P8x512H(in,0,s,v); for(int j=0;j<8;j++){ uint32_t H[8],V[8],M[16]; for(int i=0;i<8;i++){ H[i]=h[8*i+j]; V[i]=iv[8*i+j]; } for(int i=0;i<16;i++) memcpy(&M[i],&in[32*i+4*j],4); refBlakeP<uint32_t>(H,V,M,10,REF_B32); for(int i=0;i<8;i++) o[8*i+j]=H[i]; } sym_assert_eq(s.data(),o.data(),256,"each lane of the 8-way BLAKE2s compresses its own block"); sym_reach(1); } //@ reach=1 b="8-way BLAKE2s, words interleaved by lane"
ENTRY c10_p_blake512_h(){ sym_coarse(3); Bytes in=symBytes(512,"m"); std::array<ULong256,8> s,v; std::array<uint64_t,32> h,iv,o; symA(h,"h"); symA(iv,"iv"); memcpy(s.data(),h.data(),256); memcpy(v.data(),iv.data(),256); Blake::PermuteR12P4x1024H(in,0,s,v); for(int j=0;j<4;j++){ uint64_t H[8],V[8],M[16]; for(int i=0;i<8;i++){ H[i]=h[4*i+j]; V[i]=iv[4*i+j]; } for(int i=0;i<16;i++) memcpy(&M[i],&in[32*i+8*j],8); refBlakeP<uint64_t>(H,V,M,12,REF_B64); for(int i=0;i<8;i++) o[4*i+j]=H[i]; } sym_assert_eq(s.data(),o.data(),256,"each lane of the 4-way BLAKE2b compresses its own block"); sym_reach(1); } //@ reach=1 b="4-way BLAKE2b, words interleaved by lane"
template<int N,class F> static void skeinv(int rounds,F f){ sym_coarse(1); std::array<uint64_t,N> in,s,k,x; std::array<uint64_t,2> t,t0; symA(in,"m"); symA(s,"k"); symA(t,"t"); k=s; x=in; t0=t; f(in,t,s); refThreefish(x.data(),k.data(),t0.data(),N,rounds); eqA(s,x,"Skein's block function is Threefish"); sym_reach(1); }
ENTRY c10_p_skein256_c(){ skeinv<4>(72,[](auto&i,auto&t,auto&s){ Skein::PemuteP256C(i,t,s,72); }); } //@ reach=1 b="Threefish-256 in Skein, compact: all keys, tweaks and blocks"
ENTRY c10_p_skein256_u(){ skeinv<4>(72,[](auto&i,auto&t,auto&s){ Skein::PemuteR72P256U(i,t,s); }); } //@ reach=1 b="unrolled"
ENTRY c10_p_skein512_c(){ skeinv<8>(72,[](auto&i,auto&t,auto&s){ Skein::PemuteP512C(i,t,s,72); }); } //@ reach=1 b="Threefish-512 in Skein, compact"
ENTRY c10_p_skein512_u(){ skeinv<8>(72,[](auto&i,auto&t,auto&s){ Skein::PemuteR72P512U(i,t,s); }); } //@ reach=1 b="unrolled"
ENTRY c10_p_skein512_u96(){ skeinv<8>(96,[](auto&i,auto&t,auto&s){ Skein::PemuteR96P512U(i,t,s); }); } //@ reach=1 b="unrolled, 96 rounds"
ENTRY c10_p_skein512_v(){ skeinv<8>(72,[](auto&i,auto&t,auto&s){ Skein::PemuteR72P512V(i,t,s); }); } //@ reach=1 b="AVX2"
ENTRY c10_p_skein1024_c(){ skeinv<16>(80,[](auto&i,auto&t,auto&s){ Skein::PemuteP1024C(i,t,s,80); }); } //@ reach=1 b="Threefish-1024 in Skein, compact"
ENTRY c10_p_skein1024_u(){ skeinv<16>(80,[](auto&i,auto&t,auto&s){ Skein::PemuteR80P1024U(i,t,s); }); } //@ reach=1 b="unrolled"
ENTRY c10_p_skein1024_u120(){ skeinv<16>(120,[](auto&i,auto&t,auto&s){ Skein::PemuteR120P1024U(i,t,s); }); } //@ reach=1 b="unrolled, 120 rounds"
