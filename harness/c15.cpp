// C15: key containers
//@t 100
#include "sym.h"
#include <vector>
#include <memory>
#include <string>
#include "sysid.h"
#include "SymmetricKey.h"
#include "SymmetricSecureKey.h"
#include "SymmetricKeySize.h"
#include "AsymmetricKey.h"
#include "AsymmetricSecureKey.h"
#include "AsymmetricKeyPair.h"
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Asymmetric; using namespace CEX::Enumeration; typedef std::vector<uint8_t> Bytes; typedef SecureVector<uint8_t> SBytes;
template<class A> static void is(const A&a,const Bytes&b,const char*m){ sym_assert(a.size()==b.size(),m); if(a.size()==b.size()&&b.size()) sym_assert_eq(a.data(),b.data(),b.size(),m); }
static SBytes sec(const Bytes&b){ return SBytes(b.begin(),b.end()); }
template<class K> static void holds(K&k,const Bytes&key,const Bytes&iv,const Bytes&info){ sym_assert(k.KeySizes().KeySize()==key.size()&&k.KeySizes().IVSize()==iv.size()&&k.KeySizes().InfoSize()==info.size(),"the sizes it reports"); is(k.Key(),key,"key"); is(k.IV(),iv,"nonce"); is(k.Info(),info,"info"); is(k.SecureKey(),key,"secure key"); is(k.SecureIV(),iv,"secure nonce"); is(k.SecureInfo(),info,"secure info"); }
// the layout of a serialized key is the three 16 bit lengths followed by the three fields
static void ser(const SBytes&s,const Bytes&key,const Bytes&iv,const Bytes&info){ Bytes e; for(size_t n:{key.size(),iv.size(),info.size()}){ e.push_back((uint8_t)n); e.push_back((uint8_t)(n>>8)); } e.insert(e.end(),key.begin(),key.end()); e.insert(e.end(),iv.begin(),iv.end()); e.insert(e.end(),info.begin(),info.end()); is(s,e,"serialized form"); }
static const size_t KL[]={1,16,32,300}, NL[]={0,12,32}, IL[]={0,5,260};
template<class K> static void all(K&k,const Bytes&a,const Bytes&b,const Bytes&c){ holds(k,a,b,c); SBytes s=K::Serialize(k); ser(s,a,b,c); std::unique_ptr<SymmetricKey> d(K::DeSerialize(s)); holds(*d,a,b,c); std::unique_ptr<K> q(k.Clone()); holds(*q,a,b,c); k.Reset(); holds(*q,a,b,c); holds(*d,a,b,c); }
template<class V> static V cv(const Bytes&b){ return V(b.begin(),b.end()); }
template<class V> static void symk(){ size_t kl=KL[sym_choose(0,3)],nl=NL[sym_choose(0,2)],il=IL[sym_choose(0,2)]; Bytes a=symBytes(kl,"k"),b=symBytes(nl,"n"),c=symBytes(il,"i"); std::unique_ptr<SymmetricKey> k; if(nl==0&&il==0) k.reset(new SymmetricKey(cv<V>(a))); else if(il==0) k.reset(new SymmetricKey(cv<V>(a),cv<V>(b))); else k.reset(new SymmetricKey(cv<V>(a),cv<V>(b),cv<V>(c))); all(*k,a,b,c); sym_reach(1); }
ENTRY c15_sym(){ symk<Bytes>(); } //@ reach=1 b="SymmetricKey from standard vectors: key 1/16/32/300, nonce 0/12/32, info 0/5/260 bytes, arbitrary content; getters, serialization, clone, reset of the original"
ENTRY c15_sym_sec(){ symk<SBytes>(); } //@ reach=1 b="SymmetricKey from secure vectors"
ENTRY c15_sym_nokey(){ size_t nl=NL[sym_choose(1,2)],il=IL[sym_choose(0,2)]; Bytes z,b=symBytes(nl,"n"),c=symBytes(il,"i"); SymmetricKey k(z,b,c); all(k,z,b,c); sym_reach(1); } //@ reach=1 b="SymmetricKey without a key"
template<class V> static void seck(int lo,int hi){ static const SecurityPolicy P[]={SecurityPolicy::SPL256,SecurityPolicy::SPL256AE,SecurityPolicy::SPL512,SecurityPolicy::SPL512AE,SecurityPolicy::SPL1024,SecurityPolicy::SPL1024AE}; SecurityPolicy p=P[sym_choose(lo,hi)]; static const size_t L[][3]={{32,0,0},{32,16,0},{64,12,21},{100,40,90}}; const size_t*l=L[sym_choose(0,3)]; Bytes a=symBytes(l[0],"k"),b=symBytes(l[1],"n"),c=symBytes(l[2],"i"),salt={9,8,7,6,5,4,3,2,1}; V vs=cv<V>(salt); std::unique_ptr<SymmetricSecureKey> k; if(l[1]==0) k.reset(new SymmetricSecureKey(cv<V>(a),p,vs)); else if(l[2]==0) k.reset(new SymmetricSecureKey(cv<V>(a),cv<V>(b),p,vs)); else k.reset(new SymmetricSecureKey(cv<V>(a),cv<V>(b),cv<V>(c),p,vs)); all(*k,a,b,c); sym_reach(1); }
ENTRY c15_seck(){ sym_coarse(1); seck<Bytes>(0,1); } //@ reach=1 t=300 b="SymmetricSecureKey, policies SPL256 and SPL256AE, 4 layouts"
ENTRY c15_seck512(){ sym_coarse(1); seck<SBytes>(2,3); } //@ reach=1 t=300 b="SymmetricSecureKey, policies SPL512 and SPL512AE"
ENTRY c15_seck1024(){ sym_coarse(1); seck<Bytes>(4,5); } //@ reach=1 t=300 b="SymmetricSecureKey, policies SPL1024 and SPL1024AE"
template<class V> static void plaink(){ static const size_t L[][3]={{32,0,0},{32,16,0},{64,12,21},{200,1,3}}; const size_t*l=L[sym_choose(0,3)]; Bytes a=symBytes(l[0],"k"),b=symBytes(l[1],"n"),c=symBytes(l[2],"i"); std::unique_ptr<SymmetricSecureKey> k; if(l[1]==0) k.reset(new SymmetricSecureKey(cv<V>(a))); else if(l[2]==0) k.reset(new SymmetricSecureKey(cv<V>(a),cv<V>(b))); else k.reset(new SymmetricSecureKey(cv<V>(a),cv<V>(b),cv<V>(c))); all(*k,a,b,c); sym_reach(1); }
ENTRY c15_seck_nosalt(){ plaink<Bytes>(); } //@ reach=1 t=300 b="SymmetricSecureKey without policy and salt, standard vectors"
ENTRY c15_seck_nosalt_sec(){ plaink<SBytes>(); } //@ reach=1 t=300 b="SymmetricSecureKey without policy and salt, secure vectors"
static const size_t AL[]={1,32,33,1000};
template<class V> static void asymk(){ size_t n=AL[sym_choose(0,3)]; uint8_t pr=(uint8_t)sym_u64("pr"),kc=(uint8_t)sym_u64("kc"),pa=(uint8_t)sym_u64("pa"); sym_assume(pr!=0&&kc!=0&&pa!=0); Bytes a=symBytes(n,"k"); AsymmetricKey k(cv<V>(a),(AsymmetricPrimitives)pr,(AsymmetricKeyTypes)kc,(AsymmetricParameters)pa); 
  auto ck=[&](AsymmetricKey&q){ sym_assert((uint8_t)q.PrimitiveType()==pr&&(uint8_t)q.KeyClass()==kc&&(uint8_t)q.Parameters()==pa,"types"); is(q.Polynomial(),a,"polynomial"); is(q.SecurePolynomial(),a,"secure polynomial"); }; ck(k); SBytes s=AsymmetricKey::Serialize(k); std::unique_ptr<AsymmetricKey> d(AsymmetricKey::DeSerialize(s)); ck(*d); sym_assert(s.size()==n+3,"size"); sym_reach(1); }
ENTRY c15_asym(){ asymk<Bytes>(); } //@ reach=1 b="AsymmetricKey from standard vectors: 1/32/33/1000 bytes, every type byte"
ENTRY c15_asym_sec(){ asymk<SBytes>(); } //@ reach=1 b="AsymmetricKey from secure vectors"
template<class V> static void aseck(){ static const SecurityPolicy P[]={SecurityPolicy::SPL256,SecurityPolicy::SPL256AE,SecurityPolicy::SPL512,SecurityPolicy::SPL512AE,SecurityPolicy::SPL1024,SecurityPolicy::SPL1024AE}; SecurityPolicy p=P[sym_choose(0,5)]; size_t n=sym_choose(0,1)?32:150; Bytes a=symBytes(n,"k"),salt={1,2,3,4,5}; AsymmetricSecureKey k(cv<V>(a),cv<V>(salt),AsymmetricPrimitives::Kyber,AsymmetricKeyTypes::CipherPrivateKey,AsymmetricParameters::KYBERS3P2400,p); sym_assert(k.PrimitiveType()==AsymmetricPrimitives::Kyber&&k.KeyClass()==AsymmetricKeyTypes::CipherPrivateKey&&k.Parameters()==AsymmetricParameters::KYBERS3P2400,"types"); is(k.Polynomial(),a,"polynomial"); SBytes o(n+2); o[n]=o[n+1]=0xA5; k.SecurePolynomial(o); sym_assert_eq(o.data(),a.data(),n,"secure polynomial"); SBytes s=AsymmetricSecureKey::Serialize(k); sym_assert(s.size()==n+3,"serialized size"); std::unique_ptr<AsymmetricKey> d(AsymmetricSecureKey::DeSerialize(s)); is(d->Polynomial(),a,"deserialized polynomial"); sym_assert(d->PrimitiveType()==AsymmetricPrimitives::Kyber&&d->KeyClass()==AsymmetricKeyTypes::CipherPrivateKey&&d->Parameters()==AsymmetricParameters::KYBERS3P2400,"types"); sym_reach(1); }
ENTRY c15_aseck(){ sym_coarse(1); aseck<Bytes>(); } //@ reach=1 t=300 b="AsymmetricSecureKey, all six policies, 32 and 150 bytes"
ENTRY c15_aseck_sec(){ sym_coarse(1); aseck<SBytes>(); } //@ reach=1 t=300 b="AsymmetricSecureKey from secure vectors"
ENTRY c15_size(){ Bytes b=symBytes(12,"b"); SymmetricKeySize s(b); Bytes o=s.ToBytes(); assertEq(o,b,"key size block round trip"); uint32_t i=sym_u64("i"),k=sym_u64("k"),v=sym_u64("v"); SymmetricKeySize t(k,v,i); sym_assert(t.KeySize()==k&&t.IVSize()==v&&t.InfoSize()==i,"accessors"); SymmetricKeySize u(t.ToBytes()); sym_assert(u.KeySize()==k&&u.IVSize()==v&&u.InfoSize()==i,"through the block"); sym_reach(1); } //@ reach=1 b="every size triple"
ENTRY c15_contains(){ uint32_t a[3][3]; std::vector<SymmetricKeySize> L; for(int i=0;i<3;i++){ for(int j=0;j<3;j++) a[i][j]=(uint32_t)sym_u64("a"); L.push_back(SymmetricKeySize(a[i][0],a[i][1],a[i][2])); } uint32_t k=(uint32_t)sym_u64("k"),v=(uint32_t)sym_u64("v"),n=(uint32_t)sym_u64("n"); sym_assume(k!=0); bool r=SymmetricKeySize::Contains(L,k,v,n); bool e=false; for(int i=0;i<3;i++) e=e|((a[i][0]==k)&((v==0)|(a[i][1]==v))&((n==0)|(a[i][2]==n))); sym_assert(r==e,"a legal size is found exactly when one entry matches every size given"); sym_reach(1); } //@ reach=1 b="three arbitrary entries, every query with a key size"
