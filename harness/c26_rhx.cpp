// C26: RHX (Rijndael): FIPS-197 for the standard key sizes, the KDF keyed variants, decryption undoing encryption, the wide transforms
//@t 120
#include "sym.h"
#include "RHX.h"
#include "SymmetricKey.h"
#include "kdfstub.h"
#include "refaes.h"
#include <memory>
using namespace CEX; using namespace CEX::Cipher; using namespace CEX::Cipher::Block; using CEX::Enumeration::Kdfs;
static void xf(IBlockCipher&c,size_t n,const Bytes&in,size_t io,Bytes&o,size_t oo){ switch(n){ case 1: if(io==0&&oo==0) c.Transform(in,o); else c.Transform(in,io,o,oo); break; case 2: c.Transform256(in,io,o,oo); break; case 4: c.Transform512(in,io,o,oo); break; case 8: c.Transform1024(in,io,o,oo); break; case 16: c.Transform2048(in,io,o,oo); break; } }
static size_t pickN(){ size_t N[]={1,2,4,8,16}; return N[sym_choose(0,4)]; }
// one cipher: an arbitrary earlier key and direction, then this key; encryption is the reference, decryption undoes it, nothing else is written
template<class REF> static void prop(IBlockCipher&c,const Bytes&key,const Bytes&info,size_t n,REF ref,const Bytes*old){ size_t io=n>1?5:(size_t)sym_choose(0,1)*5,oo=n>1?3:io?3:0; Bytes in=symBytes(16*n+io,"in"),in0=in,o=symBytes(16*n+oo+2,"junk"),e=o;
  auto K=[&](const Bytes&k){ return info.size()?new SymmetricKey(k,Bytes(0),info):new SymmetricKey(k); };
  if(old){ std::unique_ptr<SymmetricKey> ok(K(*old)); bool d=sym_choose(0,1)!=0; c.Initialize(d,*ok); }
  std::unique_ptr<SymmetricKey> k(K(key)); c.Initialize(true,*k); sym_assert(c.IsInitialized()&&c.IsEncryption(),"initialised for encryption"); xf(c,n,in,io,o,oo); for(size_t i=0;i<n;i++) ref(in0.data()+io+16*i,e.data()+oo+16*i); assertEq(o,e,"encryption is the definition's, and writes only the block"); assertEq(in,in0,"the input is unchanged"); sym_reach(1);
  if(n==1){ Bytes p=symBytes(16+oo+2,"junk"); c.EncryptBlock(in,io,p,oo); sym_assert_eq(p.data()+oo,e.data()+oo,16,"EncryptBlock is Transform"); }
  c.Initialize(false,*k); sym_assert(c.IsInitialized()&&!c.IsEncryption(),"initialised for decryption"); Bytes p=symBytes(16*n+io+2,"junk"),pe=p; xf(c,n,o,oo,p,io); memcpy(pe.data()+io,in0.data()+io,16*n); assertEq(p,pe,"decryption undoes encryption, and writes only the block"); sym_reach(2);
  if(n==1){ Bytes q(16); Bytes ct(o.begin()+oo,o.begin()+oo+16); c.DecryptBlock(ct,q); sym_assert_eq(q.data(),in0.data()+io,16,"DecryptBlock is Transform"); } }
static void std_(size_t kn,bool rekey){ sym_coarse(16); Bytes key=symBytes(kn,"key"),old=symBytes(rekey?(size_t)(16+8*sym_choose(0,2)):0,"old"); uint8_t rk[15][16]; refAesKey(key.data(),kn,rk); RHX c; prop(c,key,Bytes(0),rekey?1:pickN(),[&](const uint8_t*i,uint8_t*o){ refAesEnc(rk,(int)kn/4+6,i,o); },rekey?&old:nullptr); sym_assert(c.Rounds()==kn/4+6,"round count"); }
ENTRY c26_aes128(){ std_(16,false); } //@ reach=1,2 b="AES-128: all keys and blocks; 1, 2, 4, 8 and 16 blocks per call, with offsets"
ENTRY c26_aes192(){ std_(24,false); } //@ reach=1,2 b="AES-192, as above"
ENTRY c26_aes256(){ std_(32,false); } //@ reach=1,2 b="AES-256, as above"
ENTRY c26_aes_rekey(){ std_((size_t)(16+8*sym_choose(0,2)),true); } //@ reach=1,2 b="AES initialised again with another key, size and direction"
// the KDF keyed variants: the round keys are the KDF's output for name, key size and info, each 32 bit word byte reversed
static void ext(size_t kn,Kdfs kd,const char*name,bool rekey){ sym_coarse(16); size_t il=(size_t)sym_choose(0,1)*7; Bytes key=symBytes(kn,"key"),info=symBytes(il,"info"),old=symBytes(rekey?kn:0,"old"); int nr=(int)kn/4+14; Bytes cu(name,name+strlen(name)); cu.push_back((uint8_t)(kn*8)); cu.push_back((uint8_t)(kn*8>>8)); cu.insert(cu.end(),info.begin(),info.end());
  Bytes ks=UfKdf::stream(UfKdf::input(key,Bytes(0),cu),0,16*(nr+1)); std::vector<std::array<uint8_t,16>> rk(nr+1); for(int i=0;i<=nr;i++) for(int j=0;j<16;j++) rk[i][j]=ks[16*i+(j^3)];
  RHX c(new UfKdf(kd)); prop(c,key,info,rekey?1:pickN(),[&](const uint8_t*i,uint8_t*o){ refAesEnc((const uint8_t(*)[16])rk.data(),nr,i,o); },rekey?&old:nullptr); sym_assert((int)c.Rounds()==nr,"round count"); sym_assert(c.Name()==name,"name"); }
ENTRY c26_rhx256(){ ext(32,Kdfs::SHAKE256,"RHXS256",false); } //@ reach=1,2 b="RHX with a 256 bit key and any KDF: 22 rounds, with and without info; 1 to 16 blocks per call"
ENTRY c26_rhx512(){ ext(64,Kdfs::HKDF512,"RHXH512",false); } //@ reach=1,2 b="RHX, 512 bit key, 30 rounds"
ENTRY c26_rhx128(){ ext((size_t)(16+8*sym_choose(0,1)),Kdfs::SHAKE512,"RHXS512",false); } //@ reach=1,2 b="RHX, 128 and 192 bit keys, 18 and 20 rounds"
// a key of any other size is refused, and in standard mode so is one of 64 bytes
ENTRY c26_rhx_sizes(){ bool e=sym_choose(0,1)!=0; size_t N[]={1,8,15,17,20,23,25,28,31,33,40,48,56,63,64,65,128}; size_t n=N[sym_choose(0,16)]; RHX c(e?new UfKdf(Kdfs::SHAKE256):nullptr); Bytes k=symBytes(n,"k"); bool ok=e&&n==64,threw=false; try{ SymmetricKey sk(k); c.Initialize(true,sk); }catch(std::exception&){ threw=true; } sym_assert(threw==!ok,"a key size outside the standard is refused"); sym_reach(1); } //@ reach=1 b="17 other key sizes, standard and KDF keyed"
ENTRY c26_rhx_rekey(){ ext(32,Kdfs::HKDF256,"RHXH256",true); } //@ reach=1,2 b="RHX initialised again with another key and direction"
