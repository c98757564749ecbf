// C01: block padding
//@t 60
#include "sym.h"
#include "ESP.h"
#include "PKCS7.h"
#include "X923.h"
#include "ZeroOne.h"
using namespace CEX::Cipher::Block::Padding;
// reference: length of the padding of block b (0: no valid padding)
static size_t refEsp(const uint8_t* b,size_t n){ size_t p=b[n-1]; if(p==0||p>n) return 0; bool ok=true; for(size_t i=0;i<n;++i){ if(i<p) ok&=b[n-1-i]==(uint8_t)(p-i); } return ok?p:0; }
static size_t refPk7(const uint8_t* b,size_t n){ size_t p=b[n-1]; if(p==0||p>n) return 0; bool ok=true; for(size_t i=0;i<n;++i){ if(i<p) ok&=b[n-1-i]==(uint8_t)p; } return ok?p:0; }
static size_t refX92(const uint8_t* b,size_t n){ size_t p=b[n-1]; if(p==0||p>n) return 0; bool ok=true; for(size_t i=1;i<n;++i){ if(i<p) ok&=b[n-1-i]==0; } return ok?p:0; }
static size_t refZo(const uint8_t* b,size_t n){ for(size_t i=0;i<n;++i){ uint8_t v=b[n-1-i]; if(v==0x80) return i+1; if(v!=0) return 0; } return 0; }
static const size_t SZ[]={2,3,8,16,32,64,128};
template<class P> static void roundtrip(){
  P pad; size_t n=SZ[sym_choose(0,6)]; size_t m=(size_t)sym_choose(0,(int64_t)n-1);
  Bytes b=symBytes(n,"block"),o=b; pad.AddPadding(b,m,n);
  sym_assert(b.size()==n,"padding keeps the block size"); sym_assert_eq(b.data(),o.data(),m,"the message bytes are untouched");
  sym_assert(pad.GetBlockLength(b)==m,"the message length is reported"); sym_reach(1);
}
template<class P> static void roundtripAt(){
  P pad; size_t n=16,off=(size_t)sym_choose(0,5),tail=(size_t)sym_choose(0,2)*5; size_t m=(size_t)sym_choose(0,(int64_t)n-1);
  Bytes b=symBytes(off+n+tail,"array"),o=b; pad.AddPadding(b,off+m,off+n);
  sym_assert(b.size()==o.size(),"padding keeps the array size");
  sym_assert_eq(b.data(),o.data(),off+m,"bytes before the padding are untouched"); sym_assert_eq(b.data()+off+n,o.data()+off+n,tail,"bytes after the block are untouched");
  sym_assert(pad.GetBlockLength(b,off,off+n)==off+m,"the end of the message is reported"); sym_reach(1);
}
// value-only test against the definition, for every block content: exact when the padding is valid, the whole block otherwise
template<class P> static void decide(size_t (*ref)(const uint8_t*,size_t)){
  P pad; size_t n=SZ[sym_choose(0,4)]; Bytes b=symBytes(n,"block"); size_t r=pad.GetBlockLength(b); size_t p=ref(b.data(),n);
  sym_assert(r<=n,"the reported length lies in the block"); sym_assert(r==n-p,"the padding is recognised exactly when it is valid"); sym_reach(1);
}
template<class P> static void decideAt(size_t (*ref)(const uint8_t*,size_t)){
  P pad; size_t n=16,off=(size_t)sym_choose(0,3)*3; Bytes b=symBytes(off+n+2,"array"); size_t r=pad.GetBlockLength(b,off,off+n); size_t p=ref(b.data()+off,n);
  sym_assert(r>=off&&r<=off+n,"the reported position lies in the block"); sym_assert(r==off+n-p,"the padding is recognised exactly when it is valid"); sym_reach(1);
}
ENTRY c01_esp() { roundtrip<ESP>(); } //@ reach=1 b="ESP, blocks of 2,3,8,16,32,64,128 bytes, every message length 0..n-1, every content"
ENTRY c01_pkcs7() { roundtrip<PKCS7>(); } //@ reach=1 b="PKCS7, as above"
ENTRY c01_x923() { roundtrip<X923>(); } //@ reach=1 b="X923, as above"
ENTRY c01_zeroone() { roundtrip<ZeroOne>(); } //@ reach=1 b="ZeroOne, as above"
ENTRY c01_esp_at() { roundtripAt<ESP>(); } //@ reach=1 b="ESP, 16 byte block at offsets 0..5 with 0,5,10 bytes after it, every message length, every content"
ENTRY c01_pkcs7_at() { roundtripAt<PKCS7>(); } //@ reach=1 b="PKCS7, as above"
ENTRY c01_x923_at() { roundtripAt<X923>(); } //@ reach=1 b="X923, as above"
ENTRY c01_zeroone_at() { roundtripAt<ZeroOne>(); } //@ reach=1 b="ZeroOne, as above"
ENTRY c01_esp_any() { decide<ESP>(refEsp); } //@ reach=1 b="ESP, every content of blocks of 2,3,8,16,32 bytes"
ENTRY c01_pkcs7_any() { decide<PKCS7>(refPk7); } //@ reach=1 b="PKCS7, as above"
ENTRY c01_x923_any() { decide<X923>(refX92); } //@ reach=1 b="X923, as above"
ENTRY c01_zeroone_any() { decide<ZeroOne>(refZo); } //@ reach=1 b="ZeroOne, as above"
ENTRY c01_esp_any_at() { decideAt<ESP>(refEsp); } //@ reach=1 b="ESP, every content of a 16 byte block at offsets 0,3,6,9"
ENTRY c01_pkcs7_any_at() { decideAt<PKCS7>(refPk7); } //@ reach=1 b="PKCS7, as above"
ENTRY c01_x923_any_at() { decideAt<X923>(refX92); } //@ reach=1 b="X923, as above"
ENTRY c01_zeroone_any_at() { decideAt<ZeroOne>(refZo); } //@ reach=1 b="ZeroOne, as above"
