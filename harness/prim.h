// Primitive permutations and compression functions as arbitrary functions (their exactness is decided separately: C10, C26).
#pragma once
#include "sym.h"
#include <string.h>
#include <array>
#ifdef PRIM_KECCAK
#include "Keccak.h"
namespace CEX { namespace Digest {
typedef std::array<uint64_t,25> KSt;
template<> void Keccak::PermuteR24P1600U<KSt>(KSt&S){ sym_uf("keccak24",S.data(),200,S.data(),200); }
template<> void Keccak::PermuteR48P1600U<KSt>(KSt&S){ sym_uf("keccak48",S.data(),200,S.data(),200); }
static inline const char*kecName(int r){ return r==12?"keccak12":r==48?"keccak48":"keccak24"; }
template<> void Keccak::Permute<KSt>(KSt&S,PermutationRounds R){ sym_uf(kecName((int)R),S.data(),200,S.data(),200); }
template<> void Keccak::Permute<std::vector<uint64_t>>(std::vector<uint64_t>&S,PermutationRounds R){ sym_assert(S.size()==25,"state size"); sym_uf(kecName((int)R),S.data(),200,S.data(),200); }
}}
#endif
#ifdef PRIM_SHA2
#include "SHA2.h"
namespace CEX { namespace Digest {
typedef std::vector<uint8_t> PV8; typedef std::array<uint32_t,8> SSt; typedef std::array<uint64_t,8> SSt5;
static void sha256uf(const uint8_t*in,SSt&S){ uint8_t t[96]; memcpy(t,S.data(),32); memcpy(t+32,in,64); sym_uf("sha256",S.data(),32,t,96); }
static void sha512uf(const uint8_t*in,SSt5&S){ uint8_t t[192]; memcpy(t,S.data(),64); memcpy(t+64,in,128); sym_uf("sha512",S.data(),64,t,192); }
template<> void SHA2::PermuteR64P512C<PV8,SSt>(const PV8&I,size_t o,SSt&S){ sha256uf(I.data()+o,S); }
template<> void SHA2::PermuteR64P512U<PV8,SSt>(const PV8&I,size_t o,SSt&S){ sha256uf(I.data()+o,S); }
template<> void SHA2::PermuteR64P512V<PV8,SSt>(const PV8&I,size_t o,SSt&S){ sha256uf(I.data()+o,S); }
template<> void SHA2::PermuteR80P1024C<PV8,SSt5>(const PV8&I,size_t o,SSt5&S){ sha512uf(I.data()+o,S); }
template<> void SHA2::PermuteR80P1024U<PV8,SSt5>(const PV8&I,size_t o,SSt5&S){ sha512uf(I.data()+o,S); }
}}
#endif

#ifdef PRIM_CHACHA
#include "ChaCha.h"
namespace CEX { namespace Cipher { namespace Stream {
typedef std::vector<uint8_t> CV8; typedef std::array<uint32_t,14> C14; typedef std::array<uint64_t,14> D14;
static void cc256(uint8_t*o,uint32_t c0,uint32_t c1,C14&S){ uint8_t t[64]; memcpy(t,S.data(),56); memcpy(t+56,&c0,4); memcpy(t+60,&c1,4); sym_uf("chacha512",o,64,t,64); }
static void cc512(uint8_t*o,uint64_t c0,uint64_t c1,D14&S){ uint8_t t[128]; memcpy(t,S.data(),112); memcpy(t+112,&c0,8); memcpy(t+120,&c1,8); sym_uf("chacha1024",o,128,t,128); }
template<> void ChaCha::PermuteP512C<CV8,std::array<uint32_t,2>,C14>(CV8&O,size_t o,std::array<uint32_t,2>&C,C14&S,size_t R){ sym_assert(R==20,"rounds"); sym_assert(o+64<=O.size(),"range"); cc256(O.data()+o,C[0],C[1],S); }
template<> void ChaCha::PermuteR20P512U<CV8,std::array<uint32_t,2>,C14>(CV8&O,size_t o,std::array<uint32_t,2>&C,C14&S){ sym_assert(o+64<=O.size(),"range"); cc256(O.data()+o,C[0],C[1],S); }
template<> void ChaCha::PermuteP8x512H<CV8,std::array<uint32_t,16>,C14>(CV8&O,size_t o,std::array<uint32_t,16>&C,C14&S,size_t R){ sym_assert(R==20,"rounds"); sym_assert(o+512<=O.size(),"range"); for(int i=0;i<8;++i) cc256(O.data()+o+64*i,C[i],C[8+i],S); }
template<> void ChaCha::PermuteP1024C<CV8,std::array<uint64_t,2>,D14>(CV8&O,size_t o,std::array<uint64_t,2>&C,D14&S,size_t R){ sym_assert(o+128<=O.size(),"range"); sym_assert(R==40,"rounds"); cc512(O.data()+o,C[0],C[1],S); }
template<> void ChaCha::PermuteP4x1024H<CV8,std::array<uint64_t,8>,D14>(CV8&O,size_t o,std::array<uint64_t,8>&C,D14&S,size_t R){ sym_assert(R==40,"rounds"); sym_assert(o+512<=O.size(),"range"); for(int i=0;i<4;++i) cc512(O.data()+o+128*i,C[i],C[4+i],S); }
}}}
#endif
#ifdef PRIM_TF
#include "Threefish.h"
namespace CEX { namespace Cipher { namespace Stream {
typedef std::array<uint64_t,2> T2; typedef std::array<uint64_t,4> T4; typedef std::array<uint64_t,8> T8; typedef std::array<uint64_t,16> T16; typedef std::array<uint64_t,32> T32; typedef std::array<uint64_t,64> T64;
template<size_t N> static void tfuf(const std::array<uint64_t,N>&K,uint64_t c0,uint64_t c1,const T2&W,uint64_t*o){ uint8_t t[N*8+32]; memcpy(t,K.data(),N*8); memcpy(t+N*8,&c0,8); memcpy(t+N*8+8,&c1,8); memcpy(t+N*8+16,W.data(),16); sym_uf(N==4?"tf256":N==8?"tf512":"tf1024",o,N*8,t,N*8+32); }
template<> void Threefish::PemuteP256C<T2,T4>(const T4&K,const T2&C,const T2&W,T4&S,size_t R){ sym_assert(R==72,"rounds"); tfuf(K,C[0],C[1],W,S.data()); }
template<> void Threefish::PemuteR72P256U<T2,T4>(const T4&K,const T2&C,const T2&W,T4&S){ tfuf(K,C[0],C[1],W,S.data()); }
template<> void Threefish::PemuteP4x256H<T2,T4,T8,T16>(const T4&K,const T8&C,const T2&W,T16&S,size_t R){ sym_assert(R==72,"rounds"); for(int i=0;i<4;++i) tfuf(K,C[i],C[4+i],W,S.data()+4*i); }
template<> void Threefish::PemuteP512C<T2,T8>(const T8&K,const T2&C,const T2&W,T8&S,size_t R){ sym_assert(R==96,"rounds"); tfuf(K,C[0],C[1],W,S.data()); }
template<> void Threefish::PemuteR96P512U<T2,T8>(const T8&K,const T2&C,const T2&W,T8&S){ tfuf(K,C[0],C[1],W,S.data()); }
template<> void Threefish::PemuteP4x512H<T2,T8,T32>(const T8&K,const T8&C,const T2&W,T32&S,size_t R){ sym_assert(R==96,"rounds"); for(int i=0;i<4;++i) tfuf(K,C[i],C[4+i],W,S.data()+8*i); }
template<> void Threefish::PemuteP1024C<T2,T16>(const T16&K,const T2&C,const T2&W,T16&S,size_t R){ sym_assert(R==120,"rounds"); tfuf(K,C[0],C[1],W,S.data()); }
template<> void Threefish::PemuteR120P1024U<T2,T16>(const T16&K,const T2&C,const T2&W,T16&S){ tfuf(K,C[0],C[1],W,S.data()); }
template<> void Threefish::PemuteP4x1024H<T2,T8,T16,T64>(const T16&K,const T8&C,const T2&W,T64&S,size_t R){ sym_assert(R==120,"rounds"); for(int i=0;i<4;++i) tfuf(K,C[i],C[4+i],W,S.data()+16*i); }
}}}
#endif
#ifdef PRIM_BLAKE
#include "Blake.h"
namespace CEX { namespace Digest {
typedef std::vector<uint8_t> BV8; typedef std::array<uint32_t,8> B32; typedef std::array<uint64_t,8> B64;
static void b2s(const uint8_t*in,B32&S,const B32&IV){ uint8_t t[128]; memcpy(t,S.data(),32); memcpy(t+32,IV.data(),32); memcpy(t+64,in,64); sym_uf("blake2s",S.data(),32,t,128); }
static void b2b(const uint8_t*in,B64&S,const B64&IV){ uint8_t t[256]; memcpy(t,S.data(),64); memcpy(t+64,IV.data(),64); memcpy(t+128,in,128); sym_uf("blake2b",S.data(),64,t,256); }
template<> void Blake::PermuteR10P512C<BV8,B32>(const BV8&I,size_t o,B32&S,const B32&IV){ sym_assert(o+64<=I.size(),"range"); b2s(I.data()+o,S,IV); }
template<> void Blake::PermuteR10P512U<BV8,B32>(const BV8&I,size_t o,B32&S,const B32&IV){ sym_assert(o+64<=I.size(),"range"); b2s(I.data()+o,S,IV); }
template<> void Blake::PermuteR10P512V<BV8,B32>(const BV8&I,size_t o,B32&S,const B32&IV){ sym_assert(o+64<=I.size(),"range"); b2s(I.data()+o,S,IV); }
template<> void Blake::PermuteR12P1024C<BV8,B64>(const BV8&I,size_t o,B64&S,const B64&IV){ sym_assert(o+128<=I.size(),"range"); b2b(I.data()+o,S,IV); }
template<> void Blake::PermuteR12P1024U<BV8,B64>(const BV8&I,size_t o,B64&S,const B64&IV){ sym_assert(o+128<=I.size(),"range"); b2b(I.data()+o,S,IV); }
template<> void Blake::PermuteR12P1024V<BV8,B64>(const BV8&I,size_t o,B64&S,const B64&IV){ sym_assert(o+128<=I.size(),"range"); b2b(I.data()+o,S,IV); }
}}
#endif
#ifdef PRIM_SKEIN
#include "Skein.h"
namespace CEX { namespace Digest {
typedef std::array<uint64_t,2> K2; typedef std::array<uint64_t,4> K4; typedef std::array<uint64_t,8> K8; typedef std::array<uint64_t,16> K16;
// (message, tweak, key = state) -> state
template<size_t N> static void skuf(const std::array<uint64_t,N>&M,const K2&T,std::array<uint64_t,N>&S){ uint8_t t[N*16+16]; memcpy(t,M.data(),N*8); memcpy(t+N*8,T.data(),16); memcpy(t+N*8+16,S.data(),N*8); sym_uf(N==4?"skein256":N==8?"skein512":"skein1024",S.data(),N*8,t,N*16+16);
#ifdef SKEIN_FF
 for(size_t i=0;i<N;++i) S[i]^=M[i]; // sym_uf stands for the permutation with its feed-forward
#endif
}
template<> void Skein::PemuteP256C<K2,K4>(const K4&I,const K2&T,K4&S,size_t R){ sym_assert(R==72,"rounds"); skuf(I,T,S); }
template<> void Skein::PemuteR72P256U<K2,K4>(const K4&I,const K2&T,K4&S){ skuf(I,T,S); }
template<> void Skein::PemuteP512C<K2,K8>(const K8&I,const K2&T,K8&S,size_t R){ sym_assert(R==72,"rounds"); skuf(I,T,S); }
template<> void Skein::PemuteR72P512U<K2,K8>(const K8&I,const K2&T,K8&S){ skuf(I,T,S); }
template<> void Skein::PemuteR72P512V<K2,K8>(const K8&I,const K2&T,K8&S){ skuf(I,T,S); }
template<> void Skein::PemuteP1024C<K2,K16>(const K16&I,const K2&T,K16&S,size_t R){ sym_assert(R==80,"rounds"); skuf(I,T,S); }
template<> void Skein::PemuteR80P1024U<K2,K16>(const K16&I,const K2&T,K16&S){ skuf(I,T,S); }
}}
#endif
