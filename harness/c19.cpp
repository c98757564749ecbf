// C19: the binary field GF(2^13) = GF(2)[x]/(x^13+x^4+x^3+x+1) of the code-based KEM and the routines over it
//@t 100

#include "MPKCUtils.h"

#include "sym.h"
#include <vector>
#include <cstring>
using CEX::Asymmetric::Encrypt::MPKC::MPKCUtils;
typedef uint16_t G; typedef std::vector<uint8_t> Bytes;
static G fe(const char*n){ G a; sym_bytes(&a,2,n); return a&0x1FFF; }
static G rmul(G a,G b){ uint32_t r=0; for(int i=12;i>=0;i--){ r<<=1; r^=(0u-(r>>13&1))&0x201B; r^=(0u-(uint32_t)(b>>i&1))&a; } return (G)r; }
ENTRY c19_mul(){ sym_coarse(32); G a=fe("a"),b=fe("b"); sym_assert(MPKCUtils::GfMultiply(a,b)==rmul(a,b),"GfMultiply"); sym_assert(MPKCUtils::GfAdd(a,b)==(a^b),"GfAdd"); sym_reach(1); } //@ reach=1 b="product and sum of every pair of field elements"
ENTRY c19_sq(){ sym_coarse(32); G a=fe("a"),b=fe("b"),q=rmul(a,a); sym_assert(MPKCUtils::GfSqMul(a,b)==rmul(q,b),"GfSqMul: a^2 b"); sym_assert(MPKCUtils::GfSq2(a)==rmul(q,q),"GfSq2: a^4"); sym_assert(MPKCUtils::GfSq2Mul(a,b)==rmul(rmul(q,q),b),"GfSq2Mul: a^4 b"); sym_reach(1); } //@ reach=1 b="fused squarings and products, every pair"
ENTRY c19_inv(){ G a=fe("a"); G i=MPKCUtils::GfInv(a); sym_assert(a==0?i==0:MPKCUtils::GfMultiply(a,i)==1,"a times its inverse is one"); sym_reach(1); } //@ reach=1 at=80 b="inverse of every element (zero maps to zero)"
ENTRY c19_small(){ uint8_t s[2]; sym_bytes(s,2,"s"); G x=(G)(s[0]|s[1]<<8); sym_assert(MPKCUtils::LoadGf(s)==(x&0x1FFF),"LoadGf keeps 13 bits"); G y; sym_bytes(&y,2,"y"); sym_assert(MPKCUtils::SameMask(x,y)==(x==y?0xFF:0),"SameMask"); sym_assert(MPKCUtils::GfIsZero(x)==(x==0?0x1FFF:0),"GfIsZero"); G r=0; for(int i=0;i<13;i++) r|=(G)((x>>i&1)<<(12-i)); sym_assert(MPKCUtils::BitReverse(x&0x1FFF)==r,"BitReverse"); sym_reach(1); } //@ reach=1 b="loading, equality and zero masks, bit reversal: every 16-bit value"
ENTRY c19_eval(){ sym_coarse(32); const int T=3; G f[T+1],a=fe("a"); for(auto&x:f) x=fe("f"); G p[4]={1,a,rmul(a,a),0}; p[3]=rmul(p[2],a); G r=0; for(int i=0;i<=T;i++) r^=rmul(f[i],p[i]); sym_assert(MPKCUtils::Eval(f,a,T)==r,"Eval"); G L[3]={a,1,0},o[3]; MPKCUtils::Root(o,f,L,3,T); sym_assert(o[0]==r&&o[1]==(f[0]^f[1]^f[2]^f[3])&&o[2]==f[0],"Root evaluates at every point"); sym_reach(1); } //@ reach=1 b="every polynomial of degree 3 at every point; Root on three points"
ENTRY c19_minmax(){ int32_t a[2],b[2]; sym_bytes(a,8,"a"); memcpy(b,a,8); MPKCUtils::MinMax32(a,a+1); bool sw=b[0]>b[1]; sym_assert(a[0]==(sw?b[1]:b[0])&&a[1]==(sw?b[0]:b[1]),"MinMax32 orders two signed values"); uint64_t c[2],d[2]; sym_bytes(c,16,"c"); sym_assume(c[0]>>63==0&&c[1]>>63==0); memcpy(d,c,16); MPKCUtils::MinMax64(c,c+1); sw=d[0]>d[1]; sym_assert(c[0]==(sw?d[1]:d[0])&&c[1]==(sw?d[0]:d[1]),"MinMax64 orders two values"); sym_reach(1); } //@ reach=1 b="every pair of 32-bit signed values; every pair of 63-bit values (the callers' range)"
template<class T,class F> static void sortN(size_t n,F f,int sh){ std::vector<T> x(n+1),o; sym_bytes(x.data(),n*sizeof(T),"x"); if(sh) for(size_t i=0;i<n;i++) x[i]=(T)((uint64_t)x[i]>>sh); x[n]=(T)0x5A; o=x; f(x.data(),(int64_t)n); T v; sym_bytes(&v,sizeof v,"v"); int c=0,d=0; for(size_t i=0;i<n;i++){ c+=x[i]==v; d+=o[i]==v; if(i) sym_assert(x[i-1]<=x[i],"ascending"); } sym_assert(c==d,"the same values"); sym_assert(x[n]==0x5A,"nothing behind the array"); sym_reach(1); }
ENTRY c19_sort32(){ sortN<int32_t>(sym_choose(0,5),MPKCUtils::Sort32,0); } //@ reach=1 at=80 b="arrays of 0..5 signed values: ascending, a permutation of the input"
ENTRY c19_sort64(){ sortN<uint64_t>(sym_choose(0,4),MPKCUtils::Sort64,1); } //@ reach=1 at=80 b="arrays of 0..4 63-bit values"
ENTRY c19_transpose(){ sym_coarse(32); uint64_t in[64],o[65]; sym_bytes(in,512,"m"); o[64]=7; MPKCUtils::Transpose64x64(o,in); for(int i=0;i<64;i++){ uint64_t r=0; for(int j=0;j<64;j++) r|=(in[j]>>i&1)<<j; sym_assert(o[i]==r,"row i of the transpose is column i"); } sym_assert(o[64]==7,"nothing behind"); sym_reach(1); } //@ reach=1 b="every 64x64 bit matrix"
// 0 <= w: control bits of a permutation, applied layer by layer
static void cb(int W){ int N=1<<W; std::vector<int16_t> pi(N),p(N); sym_bytes(pi.data(),N*2,"pi"); for(int i=0;i<N;i++){ sym_assume(pi[i]>=0&&pi[i]<N); for(int j=0;j<i;j++) sym_assume(pi[i]!=pi[j]); } std::vector<uint8_t> out(((2*W-1)*N/2+7)/8+8); MPKCUtils::ControlBitsFromPermutation(out.data(),pi.data(),W,N); for(int i=0;i<N;i++) p[i]=(int16_t)i; 
  auto bit=[&](int k){ return out[k/8]>>(k%8)&1; }; int k=0; for(int l=0;l<2*W-1;l++){ int s=l<W?l:2*W-2-l; for(int i=0;i<N;i+=2<<s) for(int j=0;j<1<<s;j++,k++) if(bit(k)) std::swap(p[i+j],p[i+j+(1<<s)]); } for(int i=0;i<N;i++) sym_assert(p[i]==pi[i],"the network routes the identity to the permutation"); sym_reach(1); }
ENTRY c19_cb2(){ cb(2); } //@ reach=1 tier=thorough t=800 b="every permutation of 4 elements"
ENTRY c19_layer(){ int S=(int)sym_choose(0,3); const int N=16; int16_t p[N],q[N]; sym_bytes(p,sizeof p,"p"); memcpy(q,p,sizeof p); uint8_t cbits[1]; sym_bytes(cbits,1,"c"); MPKCUtils::Layer(p,cbits,S,N); int k=0; for(int i=0;i<N;i+=2<<S) for(int j=0;j<1<<S;j++,k++) { bool b=cbits[0]>>k&1; int16_t x=q[i+j],y=q[i+j+(1<<S)]; q[i+j]=b?y:x; q[i+j+(1<<S)]=b?x:y; } for(int i=0;i<N;i++) sym_assert(p[i]==q[i],"a layer swaps exactly the selected pairs"); sym_reach(1); } //@ reach=1 b="16 values, strides 1..8, every control byte"
ENTRY c19_benes(){ Bytes r(1024),o,c(12800+64); sym_bytes(r.data(),1024,"r"); o=r; static const int L[]={0,6,12,13,18,24}; int l=L[sym_choose(0,5)]; sym_bytes(c.data()+512*l,512,"c"); MPKCUtils::ApplyBenes(r.data(),c.data(),false); MPKCUtils::ApplyBenes(r.data(),c.data(),true); sym_assert_eq(r.data(),o.data(),1024,"the reversed network undoes the network"); sym_reach(1); } //@ reach=1 b="every 8192-bit vector; the control bits of one layer (first, middle, last ...) arbitrary, the others zero"
