// C26: every variant of the stream ciphers' block functions equals the reference; lanes are independent blocks
//@t 120
#include "sym.h"
#include "refperm.h"
#include "ChaCha.h"
#include "Threefish.h"
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Cipher::Stream;
template<class A> static void symA(A&a,const char*n){ for(size_t i=0;i<a.size();i++) sym_bytes(&a[i],sizeof(a[0]),n); }
template<class W,size_t CN,class F> static void chacha(int coarse,int rounds,const int R[8][4],size_t off,F f){ sym_coarse(coarse); const size_t lanes=CN/2,B=16*sizeof(W); std::array<W,14> st; std::array<W,CN> ctr; symA(st,"key"); symA(ctr,"ctr"); auto st0=st; auto c0=ctr; Bytes out(off+lanes*B+3,0x5a),e=out; f(out,off,ctr,st);
  for(size_t l=0;l<lanes;l++){ W x[16],o[16]; for(int i=0;i<12;i++) x[i]=st0[i]; x[12]=c0[l]; x[13]=c0[lanes+l]; x[14]=st0[12]; x[15]=st0[13]; refChaCha<W>(o,x,rounds,R); memcpy(e.data()+off+l*B,o,B); } assertEq(out,e,"the keystream block of each counter is the definition's and nothing else is written"); sym_assert_eq(&st,&st0,sizeof st,"the key state is not modified"); sym_reach(1); }
ENTRY c26_chacha20_c(){ chacha<uint32_t,2>(2,20,REF_C32,5,[](auto&o,size_t p,auto&c,auto&s){ ChaCha::PermuteP512C(o,p,c,s,20); }); } //@ reach=1 b="ChaCha20 block function, compact: all keys, nonces and counters"
ENTRY c26_chacha20_u(){ chacha<uint32_t,2>(1,20,REF_C32,5,[](auto&o,size_t p,auto&c,auto&s){ ChaCha::PermuteR20P512U(o,p,c,s); }); } //@ reach=1 b="unrolled"
ENTRY c26_chacha20_h8(){ chacha<uint32_t,16>(1,20,REF_C32,5,[](auto&o,size_t p,auto&c,auto&s){ ChaCha::PermuteP8x512H(o,p,c,s,20); }); } //@ reach=1 b="8-way: all keys, nonces and counters"
ENTRY c26_csx_c(){ chacha<uint64_t,2>(1,40,REF_CSX,5,[](auto&o,size_t p,auto&c,auto&s){ ChaCha::PermuteP1024C(o,p,c,s,40); }); } //@ reach=1 b="CSX512 (64 bit words, 40 rounds), compact: all keys, nonces and counters"
ENTRY c26_csx_h4(){ chacha<uint64_t,8>(1,40,REF_CSX,5,[](auto&o,size_t p,auto&c,auto&s){ ChaCha::PermuteP4x1024H(o,p,c,s,40); }); } //@ reach=1 b="4-way"
ENTRY c26_csx_c80(){ chacha<uint64_t,2>(1,80,REF_CSX,5,[](auto&o,size_t p,auto&c,auto&s){ ChaCha::PermuteP1024C(o,p,c,s,80); }); } //@ reach=1 b="80 rounds"
template<int N,int L,class F> static void tf(int rounds,F f){ sym_coarse(1); std::array<uint64_t,N> k; std::array<uint64_t,2> t; std::array<uint64_t,2*L> c; std::array<uint64_t,N*L> s,e; symA(k,"key"); symA(t,"tweak"); symA(c,"ctr"); auto k0=k; f(k,c,t,s); for(int l=0;l<L;l++){ uint64_t x[16]; for(int i=0;i<N;i++) x[i]=~0ull; x[0]=c[l]; x[1]=c[L+l]; refThreefish(x,k0.data(),t.data(),N,rounds); memcpy(&e[N*l],x,8*N); } sym_assert_eq(s.data(),e.data(),8*N*L,"the keystream block of each counter is Threefish of the counter block"); sym_reach(1); }
ENTRY c26_tf256_c(){ tf<4,1>(72,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteP256C(k,c,t,s,72); }); } //@ reach=1 b="Threefish-256, compact: all keys, tweaks and counters"
ENTRY c26_tf256_u(){ tf<4,1>(72,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteR72P256U(k,c,t,s); }); } //@ reach=1 b="unrolled"
ENTRY c26_tf256_h(){ tf<4,4>(72,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteP4x256H(k,c,t,s,72); }); } //@ reach=1 b="4-way"
ENTRY c26_tf512_c(){ tf<8,1>(96,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteP512C(k,c,t,s,96); }); } //@ reach=1 b="Threefish-512, 96 rounds, compact"
ENTRY c26_tf512_u(){ tf<8,1>(96,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteR96P512U(k,c,t,s); }); } //@ reach=1 b="unrolled"
ENTRY c26_tf512_h(){ tf<8,4>(96,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteP4x512H(k,c,t,s,96); }); } //@ reach=1 b="4-way"
ENTRY c26_tf1024_c(){ tf<16,1>(120,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteP1024C(k,c,t,s,120); }); } //@ reach=1 b="Threefish-1024, 120 rounds, compact"
ENTRY c26_tf1024_u(){ tf<16,1>(120,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteR120P1024U(k,c,t,s); }); } //@ reach=1 b="unrolled"
ENTRY c26_tf1024_h(){ tf<16,4>(120,[](auto&k,auto&c,auto&t,auto&s){ Threefish::PemuteP4x1024H(k,c,t,s,120); }); } //@ reach=1 b="4-way"
