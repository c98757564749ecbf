// C12: CMAC and GMAC over an arbitrary block cipher, Poly1305
//@t 100
#include "gm.h"
#include "mac12.h"
#include "CMAC.h"
#include "GMAC.h"
#include "Poly1305.h"
#include "Donna128.h"
using namespace CEX::Mac;
// SP 800-38B
static void dbl(uint8_t k[16]){ uint8_t c=k[0]>>7; for(int i=0;i<16;i++) k[i]=(uint8_t)((k[i]<<1)|(i<15?k[i+1]>>7:0)); k[15]^=(uint8_t)(0x87&(0-c)); }
static Bytes refCmac(const Bytes&key,const Bytes&m){ uint8_t k[16]={0},y[16]={0}; prpE(key,k,k); dbl(k); size_t n=m.size(),i=0; for(;n-i>16;i+=16){ for(int j=0;j<16;j++) y[j]^=m[i+j]; prpE(key,y,y); }
  size_t l=n-i; for(size_t j=0;j<l;j++) y[j]^=m[i+j]; if(l!=16){ y[l]^=0x80; dbl(k); } for(int j=0;j<16;j++) y[j]^=k[j]; prpE(key,y,y); return Bytes(y,y+16); }
static MacRef rCmac=[](const MacKey&k,const Bytes&x,size_t){ return refCmac(k.key,x); };
ENTRY c12_cmac_len(){ Prp p; CMAC m(&p); macLen(m,{symBytes(sym_choose(0,1)?16:32,"key")},16,3,false,rCmac); } //@ reach=1 b="CMAC over any block cipher: messages of q*16+d bytes, q 0..3, d in {0,1,-1,-2,-3,-4,-9,5}; any key of 16 or 32 bytes"
ENTRY c12_cmac_cut(){ Prp p; CMAC m(&p); macCut(m,{symBytes(16,"key")},16,false,rCmac); } //@ reach=2 b="CMAC: messages cut in two around the block boundaries"
ENTRY c12_cmac_hist(){ Prp p; CMAC m(&p); macHist(m,{symBytes(16,"key")},{symBytes(sym_choose(0,1)?16:32,"old")},16,false,rCmac); } //@ reach=3 b="CMAC: histories of another key and message"
ENTRY c12_cmac_bad(){ Prp p; CMAC m(&p); macBad(m,{symBytes(16,"key")}); } //@ reach=4 b="CMAC without a key, after Reset, short outputs"
// SP 800-38D with an empty ciphertext
static Bytes refGmac(const MacKey&k,const Bytes&m){ uint8_t h[16],j0[16]; Bytes t(16); refJ0(k.key,k.iv,h,j0); refTag(k.key,h,j0,m,Bytes(),t.data()); return t; }
static MacRef rGmac=[](const MacKey&k,const Bytes&x,size_t){ return refGmac(k,x); };
static size_t nl(){ size_t N[]={12,13,16,17,32,40}; return N[sym_choose(0,5)]; }
ENTRY c12_gmac_nonce(){ Prp p; GMAC m(&p); MacKey k{symBytes(16,"key"),symBytes(nl(),"nonce")}; macInit(m,k); macOne(m,k,(size_t)sym_choose(0,1)*19,0,(int)sym_choose(0,2),false,rGmac); sym_reach(1); } //@ reach=1 b="GMAC over any block cipher and any field product: nonces of 12, 13, 16, 17, 32, 40 bytes"
ENTRY c12_gmac_len(){ Prp p; GMAC m(&p); macLen(m,{symBytes(32,"key"),symBytes(12,"nonce")},16,3,false,rGmac); } //@ reach=1 b="GMAC: message lengths, q 0..3"
ENTRY c12_gmac_cut(){ Prp p; GMAC m(&p); macCut(m,{symBytes(16,"key"),symBytes(12,"nonce")},16,false,rGmac); } //@ reach=2 b="GMAC: messages cut in two"
ENTRY c12_gmac_hist(){ Prp p; GMAC m(&p); macHist(m,{symBytes(16,"key"),symBytes(sym_choose(0,1)?12:16,"nonce")},{symBytes(16,"old"),symBytes(nl(),"oldn")},16,false,rGmac); } //@ reach=3 b="GMAC: histories of another key, nonce and message"
ENTRY c12_gmac_bad(){ Prp p; GMAC m(&p); macBad(m,{symBytes(16,"key"),symBytes(12,"nonce")}); } //@ reach=4 b="GMAC without a key, after Reset, short outputs"
// RFC 8439 in 44/44/42 bit limbs
typedef unsigned __int128 u128; typedef CEX::Numeric::Donna128 D;
static uint64_t ld(const uint8_t*p){ uint64_t v=0; for(int i=8;i--;) v=v<<8|p[i]; return v; }
static const uint64_t M44=0xFFFFFFFFFFFULL,M42=0x3FFFFFFFFFFULL;
static void pblk(const uint8_t*b,uint64_t hi,const uint64_t r[3],uint64_t h[3]){ uint64_t t0=ld(b),t1=ld(b+8),s1=r[1]*20,s2=r[2]*20; h[0]+=t0&M44; h[1]+=(t0>>44|t1<<20)&M44; h[2]+=(t1>>24&M42)|hi<<40;
  D d0=D(h[0])*r[0]+D(h[1])*s2+D(h[2])*s1, d1=D(h[0])*r[1]+D(h[1])*r[0]+D(h[2])*s2, d2=D(h[0])*r[2]+D(h[1])*r[1]+D(h[2])*r[0];
  uint64_t c=D::CarryShift(d0,44); h[0]=d0.Low()&M44; d1+=c; c=D::CarryShift(d1,44); h[1]=d1.Low()&M44; d2+=c; c=D::CarryShift(d2,42); h[2]=d2.Low()&M42; h[0]+=c*5; c=h[0]>>44; h[0]&=M44; h[1]+=c; }
static void pclampB(const uint8_t*k,uint64_t r[3]){ uint8_t c[16]; memcpy(c,k,16); for(int i:{3,7,11,15}) c[i]&=15; for(int i:{4,8,12}) c[i]&=252; uint64_t t0=ld(c),t1=ld(c+8); r[0]=t0&M44; r[1]=(t0>>44|t1<<20)&M44; r[2]=t1>>24; }
static void pclamp(const uint8_t*k,uint64_t r[3]){ uint64_t t0=ld(k),t1=ld(k+8); r[0]=t0&0xFFC0FFFFFFFULL; r[1]=(t0>>44|t1<<20)&0xFFFFFC0FFFFULL; r[2]=(t1>>24)&0xFFFFFFC0FULL; }
ENTRY c12_poly_clamp(){ Bytes k=symBytes(16,"r"); uint64_t a[3],b[3]; pclamp(k.data(),a); pclampB(k.data(),b); sym_assert(a[0]==b[0]&&a[1]==b[1]&&a[2]==b[2],"the reference clamps r as RFC 8439 does"); sym_reach(1); } //@ reach=1 b="the reference's clamp is the RFC's, every r"
static Bytes refPoly(const Bytes&key,const Bytes&m,bool fin){ uint64_t r[3],h[3]={0,0,0}; pclamp(key.data(),r); size_t n=m.size(),i=0; for(;n-i>=16;i+=16) pblk(m.data()+i,1,r,h); if(n>i){ uint8_t b[16]={0}; memcpy(b,m.data()+i,n-i); b[n-i]=1; pblk(b,0,r,h); } Bytes o(16);
  // canonical limbs as the library's carries leave them
  uint64_t c=h[1]>>44; h[1]&=M44; h[2]+=c; c=h[2]>>42; h[2]&=M42; h[0]+=c*5; c=h[0]>>44; h[0]&=M44; h[1]+=c; c=h[1]>>44; h[1]&=M44; h[2]+=c; c=h[2]>>42; h[2]&=M42; h[0]+=c*5; c=h[0]>>44; h[0]&=M44; h[1]+=c;
  uint64_t g0=h[0]+5; c=g0>>44; g0&=M44; uint64_t g1=h[1]+c; c=g1>>44; g1&=M44; uint64_t g2=h[2]+(c-(1ULL<<42)); c=(g2>>63)-1; g0&=c; g1&=c; g2&=c; c=~c; h[0]=(h[0]&c)|g0; h[1]=(h[1]&c)|g1; h[2]=(h[2]&c)|g2;
  uint64_t t0=ld(key.data()+16),t1=ld(key.data()+24); h[0]+=t0&M44; c=h[0]>>44; h[0]&=M44; h[1]+=((t0>>44|t1<<20)&M44)+c; c=h[1]>>44; h[1]&=M44; h[2]+=(t1>>24&M42)+c; h[2]&=M42; uint64_t a=h[0]|h[1]<<44,b=h[1]>>20|h[2]<<24; (void)fin; memcpy(o.data(),&a,8); memcpy(o.data()+8,&b,8); return o; }
static MacRef rPoly=[](const MacKey&k,const Bytes&x,size_t){ return refPoly(k.key,x,true); };
ENTRY c12_poly_len(){ Poly1305 m; macLen(m,{symBytes(32,"key")},16,2,false,rPoly); } //@ reach=1 b="Poly1305: any key, messages of q*16+d bytes, q 0..2"
ENTRY c12_poly_cut(){ Poly1305 m; macCut(m,{symBytes(32,"key")},16,false,rPoly); } //@ reach=2 b="Poly1305: messages cut in two"
ENTRY c12_poly_hist(){ Poly1305 m; macHist(m,{symBytes(32,"key")},{symBytes(32,"old")},16,false,rPoly); } //@ reach=3 b="Poly1305: histories"
ENTRY c12_poly_bad(){ Poly1305 m; macBad(m,{symBytes(32,"key")}); } //@ reach=4 b="Poly1305 without a key, after Reset, short outputs"
// the same for sparse r, in plain arithmetic modulo p = 2^130-5: values are hi*2^128+lo
static void fold(uint64_t&hi,u128&lo){ uint64_t q=hi>>2; hi&=3; lo+=5*(u128)q; hi+=lo<5*(u128)q; }
static void pval(int sh,int nb,size_t last){ Bytes k(32),p=symBytes(16,"pad"); k[sh/8]=(uint8_t)(1u<<(sh%8)); memcpy(k.data()+16,p.data(),16); Poly1305 m; MacKey mk{k}; macInit(m,mk); size_t n=(size_t)nb*16+last; Bytes x=symBytes(n,"msg"),o(16); m.Compute(x,o);
  uint64_t hi=0; u128 lo=0; for(size_t i=0;i<n;i+=16){ u128 b=0; size_t l=n-i<16?n-i:16; for(size_t j=l;j--;) b=b<<8|x[i+j]; hi+=l==16; if(l<16) b|=(u128)1<<(8*l); lo+=b; hi+=lo<b; fold(hi,lo); if(sh){ hi=hi<<sh|(uint64_t)(lo>>(128-sh)); lo<<=sh; fold(hi,lo); } }
  fold(hi,lo); if(hi==3&&lo>=(u128)0-5) lo+=5; lo+=(u128)ld(p.data()+8)<<64|ld(p.data()); Bytes e(16); memcpy(e.data(),&lo,16); assertEq(o,e,"the tag is ((message polynomial at r) mod 2^130-5 + s) mod 2^128"); sym_reach(1); }
ENTRY c12_poly_val1(){ pval(0,1,0); } //@ reach=1 b="r=1, one block"
ENTRY c12_poly_val2(){ pval(0,2,3); } //@ reach=1 b="r=1, two blocks and 3 bytes: sums that reach past p"
ENTRY c12_poly_val3(){ pval(0,3,0); } //@ reach=1 tier=thorough b="r=1, three blocks: sums that reach past p"
ENTRY c12_poly_val4(){ pval(2,1,0); } //@ reach=1 b="r=4, one block"
ENTRY c12_poly_val5(){ pval(24,1,0); } //@ reach=1 b="r=2^24"
ENTRY c12_poly_val6(){ pval(58,1,0); } //@ reach=1 b="r=2^58"
