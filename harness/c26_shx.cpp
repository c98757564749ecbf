// C26: SHX (Serpent) over arbitrary S-boxes (the S-boxes themselves: c26_sbox.cpp): rounds, key schedule, decryption, wide transforms
//@t 120
//@exclude SHX
#include "sym.h"
#include "UInt256.h"
#include "Serpent.h"
#include "refserpent.h"
#include "kdfstub.h"
#include <cstring>
#include <memory>
#include <array>
typedef uint32_t W;
static void sbox(int i,int dir,W*x){ char n[3]={'S',(char)('0'+i),0}; uint8_t t[16],o[16],k=0; memcpy(t,x,16); sym_prp(n,dir,o,t,16,&k,1); memcpy(x,o,16); }
static void sboxW(int i,int dir,void*a,void*b,void*c,void*d){ W l[4][8]; memcpy(l[0],a,32); memcpy(l[1],b,32); memcpy(l[2],c,32); memcpy(l[3],d,32); for(int j=0;j<8;j++){ W t[4]={l[0][j],l[1][j],l[2][j],l[3][j]}; sbox(i,dir,t); for(int k=0;k<4;k++) l[k][j]=t[k]; } memcpy(a,l[0],32); memcpy(b,l[1],32); memcpy(c,l[2],32); memcpy(d,l[3],32); }
NAMESPACE_SERPENTBASE
#define SPEC(i) template<> void Sb##i<uint32_t>(uint32_t&a,uint32_t&b,uint32_t&c,uint32_t&d){ uint32_t x[4]={a,b,c,d}; sbox(i,0,x); a=x[0]; b=x[1]; c=x[2]; d=x[3]; } template<> void Ib##i<uint32_t>(uint32_t&a,uint32_t&b,uint32_t&c,uint32_t&d){ uint32_t x[4]={a,b,c,d}; sbox(i,1,x); a=x[0]; b=x[1]; c=x[2]; d=x[3]; } \
  template<> void Sb##i<CEX::Numeric::UInt256>(CEX::Numeric::UInt256&a,CEX::Numeric::UInt256&b,CEX::Numeric::UInt256&c,CEX::Numeric::UInt256&d){ sboxW(i,0,&a,&b,&c,&d); } template<> void Ib##i<CEX::Numeric::UInt256>(CEX::Numeric::UInt256&a,CEX::Numeric::UInt256&b,CEX::Numeric::UInt256&c,CEX::Numeric::UInt256&d){ sboxW(i,1,&a,&b,&c,&d); }
SPEC(0) SPEC(1) SPEC(2) SPEC(3) SPEC(4) SPEC(5) SPEC(6) SPEC(7)
NAMESPACE_SERPENTBASEEND
#include "SHX.cpp"
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Cipher::Block; using CEX::Enumeration::Kdfs;
static Bytes wordsLE(size_t n,const char*nm){ Bytes b; for(size_t i=0;i<n/4;i++){ uint8_t t[4]; sym_bytes(t,4,nm); b.insert(b.end(),t,t+4); } return b; }
static Bytes wordsBE(size_t n,const char*nm){ Bytes b; for(size_t i=0;i<n/4;i++){ uint8_t t[4]; sym_bytes(t,4,nm); for(int j=3;j>=0;j--) b.push_back(t[j]); } return b; }
static Bytes off(Bytes b,size_t o){ b.insert(b.begin(),o,(uint8_t)0xA5); return b; }
static void enc(const std::vector<W>&k,int nr,const uint8_t*in,uint8_t*out){ W x[4]; memcpy(x,in,16); for(int r=0;r<nr;r++){ for(int i=0;i<4;i++) x[i]^=k[4*r+i]; sbox(r%8,0,x); if(r<nr-1) refLT(x); } for(int i=0;i<4;i++) x[i]^=k[4*nr+i]; memcpy(out,x,16); }
// the key schedule: the key as a big endian number (padded with a one bit), the affine recurrence, then the S-boxes in descending order from 3
static std::vector<W> keys(const Bytes&key,int&nr){ size_t n=key.size()/4,m=n<=8?8:16; nr=m==16?40:32; std::vector<W> w(m+4*(nr+1)),p(m,0); for(size_t i=0;i<n;i++){ size_t o=key.size()-4*(i+1); p[i]=((W)key[o]<<24)|((W)key[o+1]<<16)|((W)key[o+2]<<8)|key[o+3]; } if(n<m) p[n]=1;
  std::vector<W> k(4*(nr+1)); for(size_t i=0;i<m;i++) w[i]=p[i]; const W phi=0x9E3779B9u; auto rec=[&](std::vector<W>&v,size_t i,W c){ W t=v[i-m]^v[i-m+3]^v[i-m+5]^phi^c; if(m==8) t^=v[i-1]; else t^=v[i-10]^v[i-8]^v[i-5]^v[i-3]^v[i-1]; return refRotl(t,11); };
  // the published cipher numbers the prekeys on from 0; this library restarts the first m of them, as the published one does for m = 8
  std::vector<W> a(2*m); for(size_t i=0;i<m;i++) a[i]=p[i]; for(size_t i=m;i<2*m;i++) a[i]=rec(a,i,(W)(i-m)); for(size_t i=0;i<m;i++) k[i]=a[m+i]; for(size_t i=m;i<k.size();i++) k[i]=rec(k,i,(W)i);
  for(int r=0;r<=nr;r++) sbox((67-r)%8,0,&k[4*r]); return k; }
static void xf(IBlockCipher&c,size_t n,const Bytes&in,size_t io,Bytes&o,size_t oo){ switch(n){ case 1: if(io==0&&oo==0) c.Transform(in,o); else c.Transform(in,io,o,oo); break; case 2: c.Transform256(in,io,o,oo); break; case 4: c.Transform512(in,io,o,oo); break; case 8: c.Transform1024(in,io,o,oo); break; case 16: c.Transform2048(in,io,o,oo); break; } }
static size_t pickN(){ size_t N[]={1,2,4,8,16}; return N[sym_choose(0,4)]; }
static void prop(IBlockCipher&c,const Bytes&key,const Bytes&info,size_t n,const std::vector<W>&k,int nr,const Bytes*old){ size_t io=n>1?5:(size_t)sym_choose(0,1)*5,oo=n>1?3:io?3:0; Bytes in=off(wordsLE(16*n,"in"),io),in0=in,o=symBytes(16*n+oo+2,"junk"),e=o;
  auto K=[&](const Bytes&b){ return info.size()?new SymmetricKey(b,Bytes(0),info):new SymmetricKey(b); };
  if(old){ std::unique_ptr<SymmetricKey> ok(K(*old)); bool d=sym_choose(0,1)!=0; c.Initialize(d,*ok); }
  std::unique_ptr<SymmetricKey> sk(K(key)); c.Initialize(true,*sk); sym_assert(c.IsInitialized()&&c.IsEncryption(),"initialised for encryption"); xf(c,n,in,io,o,oo); for(size_t i=0;i<n;i++) enc(k,nr,in0.data()+io+16*i,e.data()+oo+16*i); assertEq(o,e,"encryption is the definition's, and writes only the block"); assertEq(in,in0,"the input is unchanged"); sym_reach(1);
  if(n==1){ Bytes p=symBytes(16+oo+2,"junk"); c.EncryptBlock(in,io,p,oo); sym_assert_eq(p.data()+oo,e.data()+oo,16,"EncryptBlock is Transform"); c.DecryptBlock(o,oo,p,oo); sym_assert_eq(p.data()+oo,in0.data()+io,16,"DecryptBlock undoes EncryptBlock"); }
  c.Initialize(false,*sk); sym_assert(c.IsInitialized()&&!c.IsEncryption(),"initialised for decryption"); Bytes p=symBytes(16*n+io+2,"junk"),pe=p; xf(c,n,o,oo,p,io); memcpy(pe.data()+io,in0.data()+io,16*n); assertEq(p,pe,"decryption undoes encryption, and writes only the block"); sym_reach(2); sym_assert((int)c.Rounds()==nr,"round count"); }
static void std_(size_t kn,bool rekey){ sym_coarse(1); Bytes key=wordsBE(kn,"key"),old; if(rekey){ size_t N[]={16,24,32,64}; old=wordsBE(N[sym_choose(0,3)],"old"); } int nr; auto k=keys(key,nr); SHX c; prop(c,key,Bytes(0),rekey?1:pickN(),k,nr,rekey?&old:nullptr); }
ENTRY c26_shx128(){ std_(16,false); } //@ reach=1,2 b="Serpent-128 over any S-boxes: all keys and blocks; 1, 2, 4, 8 and 16 blocks per call, with offsets"
ENTRY c26_shx192(){ std_(24,false); } //@ reach=1,2 b="Serpent-192, as above"
ENTRY c26_shx256(){ std_(32,false); } //@ reach=1,2 b="Serpent-256, as above"
ENTRY c26_shx512(){ std_(64,false); } //@ reach=1,2 b="Serpent with the library's 512 bit schedule, 40 rounds, as above"
ENTRY c26_shx_rekey(){ size_t N[]={16,24,32,64}; std_(N[sym_choose(0,3)],true); } //@ reach=1,2 b="SHX initialised again with another key, size and direction"
static void ext(size_t kn,Kdfs kd,const char*name,bool rekey){ sym_coarse(1); size_t il=(size_t)sym_choose(0,1)*7; Bytes key=symBytes(kn,"key"),info=symBytes(il,"info"),old=symBytes(rekey?kn:0,"old"); int nr=kn==32?40:kn==64?48:64; Bytes cu(name,name+strlen(name)); cu.push_back((uint8_t)(kn*8)); cu.push_back((uint8_t)(kn*8>>8)); cu.insert(cu.end(),info.begin(),info.end());
  Bytes ks=UfKdf::stream(UfKdf::input(key,Bytes(0),cu),0,16*(nr+1)); std::vector<W> k(4*(nr+1)); memcpy(k.data(),ks.data(),ks.size()); SHX c(new UfKdf(kd)); prop(c,key,info,rekey?1:pickN(),k,nr,rekey?&old:nullptr); sym_assert(c.Name()==name,"name"); }
ENTRY c26_shx_k256(){ ext(32,Kdfs::SHAKE256,"SHXS256",false); } //@ reach=1,2 b="SHX with a 256 bit key and any KDF: 40 rounds, with and without info; 1 to 16 blocks per call"
ENTRY c26_shx_k512(){ ext(64,Kdfs::HKDF512,"SHXH512",false); } //@ reach=1,2 b="SHX, 512 bit key, 48 rounds"
ENTRY c26_shx_k_rekey(){ ext(32,Kdfs::HKDF256,"SHXH256",true); } //@ reach=1,2 b="SHX initialised again with another key and direction"
