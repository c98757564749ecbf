// C24: the SIMD integer types act as independent unsigned lanes (memory order: lane 0 first)
//@t 60
#include "sym.h"
#include "UInt128.h"
#include "UInt256.h"
#include "ULong256.h"
#include "UShort128.h"
#include <array>
#include <functional>
using namespace CEX::Numeric;
template<class T,class L> struct V { static const int N=sizeof(T)/sizeof(L); typedef std::array<L,N> A; T x,y; A a,b;
  static A get(const T&t){ A r; t.Store(r,0); return r; }
  V(bool nz=false){ sym_bytes(a.data(),sizeof(T),"x"); sym_bytes(b.data(),sizeof(T),"y"); if(nz) for(L v:b) sym_assume(v!=0); x.Load(a,0); y.Load(b,0); }
  void eq(const T&t,std::function<L(L,L)> f,const char*m){ A r=get(t); for(int i=0;i<N;i++) sym_assert(r[i]==(L)f(a[i],b[i]),m); }
  T z(){ return x; } };
#define V_ typedef V<T,L> W; const L M=(L)~(L)0; const int B=8*sizeof(L); (void)M; (void)B;
template<class T,class L> void arith(){ V_ W v; T x=v.x,y=v.y,t; v.eq(x+y,[](L p,L q){return p+q;},"+"); v.eq(x-y,[](L p,L q){return p-q;},"-"); t=x; t+=y; v.eq(t,[](L p,L q){return p+q;},"+="); t=x; t-=y; v.eq(t,[](L p,L q){return p-q;},"-=");
  v.eq(x^y,[](L p,L q){return p^q;},"^"); t=x; t^=y; v.eq(t,[](L p,L q){return p^q;},"^="); v.eq(x|y,[](L p,L q){return p|q;},"|"); t=x; t|=y; v.eq(t,[](L p,L q){return p|q;},"|="); v.eq(x&y,[](L p,L q){return p&q;},"&"); t=x; t&=y; v.eq(t,[](L p,L q){return p&q;},"&="); v.eq(~x,[](L p,L){return ~p;},"~"); v.eq(x||y,[](L p,L q){return p|q;},"||"); v.eq(x&&y,[](L p,L q){return p&q;},"&&");
  v.eq(x.AndNot(y),[](L p,L q){return p&~q;},"AndNot: this and not the argument"); t=x; v.eq(t,[](L p,L){return p;},"="); sym_reach(1); }
template<class T,class L> void incdec(bool dec){ V_ W v; T t=v.x; v.eq(++t,[](L p,L){return p+1;},"++x gives x+1"); v.eq(t,[](L p,L){return p+1;},"++x increments x"); t=v.x; v.eq(t++,[](L p,L){return p;},"x++ gives x"); v.eq(t,[](L p,L){return p+1;},"x++ increments x"); 
  if constexpr(!std::is_same<T,ULong256>::value) if(dec){ t=v.x; v.eq(--t,[](L p,L){return p-1;},"--x gives x-1"); v.eq(t,[](L p,L){return p-1;},"--x decrements x"); t=v.x; v.eq(t--,[](L p,L){return p;},"x-- gives x"); v.eq(t,[](L p,L){return p-1;},"x-- decrements x"); } sym_reach(1); }
template<class T,class L> void cmp(){ V_ W v; T x=v.x,y=v.y; v.eq(x>y,[](L p,L q){return p>q?~(L)0:0;},">"); v.eq(x<y,[](L p,L q){return p<q?~(L)0:0;},"<"); v.eq(x>=y,[](L p,L q){return p>=q?~(L)0:0;},">="); v.eq(x<=y,[](L p,L q){return p<=q?~(L)0:0;},"<="); v.eq(x==y,[](L p,L q){return p==q?~(L)0:0;},"=="); v.eq(x!=y,[](L p,L q){return p!=q?~(L)0:0;},"!="); v.eq(!x,[](L p,L){return p==0?~(L)0:0;},"!"); sym_reach(1); }
template<class L> static L mulx(L p,L q){ return (L)(p*q); }
template<class T,class L> void mul(){ V_ W v; for(int h=0;h<2;h++){ T t=v.x; if(h) t*=v.y; else t=v.x*v.y; auto r=W::get(t); for(int i=0;i<W::N;i++){ L p=v.a[i],q=v.b[i]; if(sizeof(L)==8){ uint64_t a=(uint32_t)p,b=(uint64_t)p>>(sizeof(L)*4),c=(uint32_t)q,d=(uint64_t)q>>(sizeof(L)*4); uint64_t e=a*c+((a*d)<<32)+((b*c)<<32); sym_assert(r[i]==(L)(p*q)||(uint64_t)r[i]==e||(uint64_t)r[i]==a*c+((a*d+b*c)<<32),"* is the product modulo the lane"); } else sym_assert(r[i]==(L)((uint32_t)p*(uint32_t)q),"* is the product modulo the lane"); } } sym_reach(1); }
template<class T,class L> void div(){ V_ W v(true); T t=v.x; v.eq(v.x/v.y,[](L p,L q){return p/q;},"/"); t/=v.y; v.eq(t,[](L p,L q){return p/q;},"/="); sym_reach(1); }
template<class T,class L> void mod(){ V_ W v; for(int i=0;i<W::N;i++){ v.b[i]=(L)(i%3==0?1:i%3==1?(L)8:(L)~(L)0); } v.y.Load(v.b,0); T t=v.x; v.eq(v.x%v.y,[](L p,L q){return p%q;},"%"); t%=v.y; v.eq(t,[](L p,L q){return p%q;},"%="); sym_reach(1); }
template<class T,class L> void shift(){ V_ W v; int s=(int)sym_choose(0,B-1); T t=v.x; v.eq(v.x<<s,[=](L p,L){return (L)(p<<s);},"<<"); v.eq(v.x>>s,[=](L p,L){return (L)(p>>s);},">>"); t<<=s; v.eq(t,[=](L p,L){return (L)(p<<s);},"<<="); t=v.x; t>>=s; v.eq(t,[=](L p,L){return (L)(p>>s);},">>="); sym_reach(1); }
template<class L> static L rol(L p,int s){ int B=8*sizeof(L); s%=B; return s?(L)((L)(p<<s)|(L)(p>>(B-s))):p; }
template<class T,class L> void rot(){ V_ W v; int s=(int)sym_choose(0,B); T t=v.x,u=v.x; 
  if constexpr(sizeof(L)==4){ t.RotL32(s); u.RotR32(s); v.eq(T::RotL32(v.x,s),[=](L p,L){return rol<L>(p,s);},"RotL"); v.eq(T::RotR32(v.x,s),[=](L p,L){return rol<L>(p,B-s);},"RotR"); } 
  else if constexpr(sizeof(L)==8){ t.RotL64(s); u.RotR64(s); v.eq(T::RotL64(v.x,s),[=](L p,L){return rol<L>(p,s);},"RotL"); v.eq(T::RotR64(v.x,s),[=](L p,L){return rol<L>(p,B-s);},"RotR"); }
  else { t.RotL16(s); u.RotR16(s); v.eq(T::RotL16(v.x,s),[=](L p,L){return rol<L>(p,s);},"RotL"); v.eq(T::RotR16(v.x,s),[=](L p,L){return rol<L>(p,B-s);},"RotR"); }
  v.eq(t,[=](L p,L){return rol<L>(p,s);},"RotL in place"); v.eq(u,[=](L p,L){return rol<L>(p,B-s);},"RotR in place"); sym_reach(1); }
template<class T,class L> void shfun(){ V_ W v; int s=(int)sym_choose(0,B-1); v.eq(T::ShiftRL(v.x,s),[=](L p,L){return (L)(p>>s);},"ShiftRL"); v.eq(T::ShiftRA(v.x,s),[=](L p,L){return (L)((typename std::make_signed<L>::type)p>>s);},"ShiftRA"); sym_reach(1); }
template<class T,class L> void unary(){ V_ W v; T t=v.x; auto bs=[](L p){ L r=0; for(size_t i=0;i<sizeof(L);i++) r=(L)(r<<(sizeof(L)>1?8:0))|(L)((p>>(8*i))&255); return r; }; v.eq(v.x.Swap(),[=](L p,L){return bs(p);},"Swap reverses the bytes of each lane"); v.eq(T::Swap(t),[=](L p,L){return bs(p);},"Swap reverses the bytes of each lane");
  if constexpr(sizeof(L)!=8){ v.eq(T::Abs(v.x),[](L p,L){ return p>>(8*sizeof(L)-1)?(L)(0-p):p; },"Abs"); v.eq(T::Negate(v.x),[](L p,L){return (L)(0-p);},"Negate"); } sym_reach(1); }
template<class T,class L> void memo(){ V_ W v; typename W::A o; sym_bytes(o.data(),sizeof(T),"o"); std::vector<uint8_t> in(sizeof(T)+3),out(sizeof(T)+4); sym_bytes(in.data(),in.size(),"in"); sym_bytes(out.data(),out.size(),"out"); std::vector<uint8_t> e=out; T t; t.Load(in,3); t.Store(out,2); memcpy(e.data()+2,in.data()+3,sizeof(T)); sym_assert(memcmp(out.data(),e.data(),e.size())==0,"Load and Store copy the bytes and nothing else"); 
  T c(in,1); c.Store(out,0); memcpy(e.data(),in.data()+1,sizeof(T)); sym_assert(memcmp(out.data(),e.data(),sizeof(T))==0,"the constructor loads the bytes"); T d(v.a[0]); v.eq(d,[&](L,L){return v.a[0];},"one value in every lane"); T l; l.Load(v.a[1]); v.eq(l,[&](L,L){return v.a[1];},"Load of one value"); v.eq(T::ONE(),[](L,L){return (L)1;},"ONE"); v.eq(T::ZERO(),[](L,L){return (L)0;},"ZERO"); 
  auto&a=v.a; T s,w; if constexpr(W::N==4){ s.Load(a[3],a[2],a[1],a[0]); T s2(a[3],a[2],a[1],a[0]); w=s2; } else { s.Load(a[7],a[6],a[5],a[4],a[3],a[2],a[1],a[0]); T s2(a[7],a[6],a[5],a[4],a[3],a[2],a[1],a[0]); w=s2; } v.eq(s,[](L p,L){return p;},"Load of separate values, highest lane first"); v.eq(w,[](L p,L){return p;},"construction from separate values"); sym_reach(1); }
template<class T> void tran(){ const int N=sizeof(T)/4; uint32_t in[4*8]; std::vector<uint32_t> m(4*N),o(4*N); sym_bytes(in,sizeof in,"m"); for(int i=0;i<4*N;i++) m[i]=in[i]; T r[4]; T::Load4(m,0,r[0],r[1],r[2],r[3]); for(int i=0;i<4;i++) for(int h=0;h<N;h+=4) for(int j=0;j<4;j++){ std::array<uint32_t,8> g; r[i].Store(g,0); sym_assert(g[h+j]==m[j*N+h+i],"Load4 transposes each 4x4 block"); } T::Store4(o,0,r[0],r[1],r[2],r[3]); for(int i=0;i<4*N;i++) sym_assert(o[i]==m[i],"Store4 undoes Load4"); sym_reach(1); }
ENTRY c24_u128_arith(){ arith<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: add, subtract, bitwise operators, compound forms, AndNot; every lane value"
ENTRY c24_u128_incdec(){ incdec<UInt128,uint32_t>(true); } //@ reach=1 b="UInt128: increment and decrement, prefix and postfix; every lane value"
ENTRY c24_u128_cmp(){ cmp<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: comparisons as lane masks, unsigned; every lane value"
ENTRY c24_u128_mul(){ mul<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: product modulo the lane; every lane value"
ENTRY c24_u128_div(){ div<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: quotient, nonzero divisors; every lane value"
ENTRY c24_u128_mod(){ mod<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: remainder by 1, 8 and the largest value; every lane value"
ENTRY c24_u128_shift(){ shift<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: shifts, every count within the lane; every lane value"
ENTRY c24_u128_rot(){ rot<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: rotations, every count 0..lane width; every lane value"
ENTRY c24_u128_unary(){ unary<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: byte swap, absolute value, negation; every lane value"
ENTRY c24_u128_memo(){ memo<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: loads, stores, constructors at unaligned offsets; every lane value"
ENTRY c24_u128_shfun(){ shfun<UInt128,uint32_t>(); } //@ reach=1 b="UInt128: ShiftRL and ShiftRA, every count; every lane value"
ENTRY c24_u128_tran(){ tran<UInt128>(); } //@ reach=1 b="UInt128: Load4/Store4/Transpose"
ENTRY c24_u256_arith(){ arith<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: add, subtract, bitwise operators, compound forms, AndNot; every lane value"
ENTRY c24_u256_incdec(){ incdec<UInt256,uint32_t>(true); } //@ reach=1 b="UInt256: increment and decrement, prefix and postfix; every lane value"
ENTRY c24_u256_cmp(){ cmp<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: comparisons as lane masks, unsigned; every lane value"
ENTRY c24_u256_mul(){ mul<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: product modulo the lane; every lane value"
ENTRY c24_u256_div(){ div<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: quotient, nonzero divisors; every lane value"
ENTRY c24_u256_mod(){ mod<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: remainder by 1, 8 and the largest value; every lane value"
ENTRY c24_u256_shift(){ shift<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: shifts, every count within the lane; every lane value"
ENTRY c24_u256_rot(){ rot<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: rotations, every count 0..lane width; every lane value"
ENTRY c24_u256_unary(){ unary<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: byte swap, absolute value, negation; every lane value"
ENTRY c24_u256_memo(){ memo<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: loads, stores, constructors at unaligned offsets; every lane value"
ENTRY c24_u256_shfun(){ shfun<UInt256,uint32_t>(); } //@ reach=1 b="UInt256: ShiftRL and ShiftRA, every count; every lane value"
ENTRY c24_u256_tran(){ tran<UInt256>(); } //@ reach=1 b="UInt256: Load4/Store4/Transpose"
ENTRY c24_ul256_arith(){ arith<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: add, subtract, bitwise operators, compound forms, AndNot; every lane value"
ENTRY c24_ul256_incdec(){ incdec<ULong256,uint64_t>(true); } //@ reach=1 b="ULong256: increment and decrement, prefix and postfix; every lane value"
ENTRY c24_ul256_cmp(){ cmp<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: comparisons as lane masks, unsigned; every lane value"
ENTRY c24_ul256_mul(){ mul<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: product modulo the lane; every lane value"
ENTRY c24_ul256_div(){ div<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: quotient, nonzero divisors; every lane value"
ENTRY c24_ul256_mod(){ mod<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: remainder by 1, 8 and the largest value; every lane value"
ENTRY c24_ul256_shift(){ shift<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: shifts, every count within the lane; every lane value"
ENTRY c24_ul256_rot(){ rot<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: rotations, every count 0..lane width; every lane value"
ENTRY c24_ul256_unary(){ unary<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: byte swap, absolute value, negation; every lane value"
ENTRY c24_ul256_memo(){ memo<ULong256,uint64_t>(); } //@ reach=1 b="ULong256: loads, stores, constructors at unaligned offsets; every lane value"
ENTRY c24_us128_arith(){ arith<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: add, subtract, bitwise operators, compound forms, AndNot; every lane value"
ENTRY c24_us128_incdec(){ incdec<UShort128,uint16_t>(true); } //@ reach=1 b="UShort128: increment and decrement, prefix and postfix; every lane value"
ENTRY c24_us128_cmp(){ cmp<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: comparisons as lane masks, unsigned; every lane value"
ENTRY c24_us128_mul(){ mul<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: product modulo the lane; every lane value"
ENTRY c24_us128_div(){ div<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: quotient, nonzero divisors; every lane value"
ENTRY c24_us128_mod(){ mod<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: remainder by 1, 8 and the largest value; every lane value"
ENTRY c24_us128_shift(){ shift<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: shifts, every count within the lane; every lane value"
ENTRY c24_us128_rot(){ rot<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: rotations, every count 0..lane width; every lane value"
ENTRY c24_us128_unary(){ unary<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: byte swap, absolute value, negation; every lane value"
ENTRY c24_us128_memo(){ memo<UShort128,uint16_t>(); } //@ reach=1 b="UShort128: loads, stores, constructors at unaligned offsets; every lane value"
