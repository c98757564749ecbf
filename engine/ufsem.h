// Concrete semantics of the uninterpreted functions; shared by the engine's evaluator and the native replay runtime.
#ifndef UFSEM_H
#define UFSEM_H
#include <stdint.h>
#include <stddef.h>
#include <string.h>
#include <stdio.h>
#include <map>
#include <string>
// values chosen by the solver for particular applications: name, kind (0 function, 1 forward, 2 inverse), argument bytes
static inline std::map<std::string,std::string>& ufs_tab(){ static std::map<std::string,std::string> t; return t; }
static inline void ufs_save(const char*fn){ FILE*f=fopen(fn,"wb"); if(!f) return; for(auto&kv:ufs_tab()){ uint32_t n=kv.first.size(),m=kv.second.size(); fwrite(&n,4,1,f); fwrite(kv.first.data(),1,n,f); fwrite(&m,4,1,f); fwrite(kv.second.data(),1,m,f); } fclose(f); }
static inline void ufs_load(const char*fn){ FILE*f=fopen(fn,"rb"); if(!f) return; uint32_t n,m; while(fread(&n,4,1,f)==1){ std::string k(n,0),v; if(fread(&k[0],1,n,f)!=n||fread(&m,4,1,f)!=1) break; v.resize(m); if(fread(&v[0],1,m,f)!=m) break; ufs_tab()[k]=v; } fclose(f); }
static inline bool ufs_look(const char*name,int kind,const uint8_t*a,size_t an,const uint8_t*b,size_t bn,uint8_t*out,size_t on){ if(ufs_tab().empty()) return false; std::string k=name; k+=(char)kind; k.append((const char*)a,an); k.append((const char*)b,bn); auto it=ufs_tab().find(k); if(it==ufs_tab().end()||it->second.size()!=on) return false; memcpy(out,it->second.data(),on); return true; }
static inline uint64_t ufs_mix(uint64_t x){ x^=x>>30; x*=0xbf58476d1ce4e5b9ULL; x^=x>>27; x*=0x94d049bb133111ebULL; x^=x>>31; return x; }
static inline uint64_t ufs_hash(uint64_t seed,const uint8_t* p,size_t n){
  uint64_t h=ufs_mix(seed+0x9e3779b97f4a7c15ULL+n);
  while(n){ uint64_t v=0; size_t m=n<8?n:8; for(size_t i=0;i<m;i++) v|=(uint64_t)p[i]<<(8*i); h=ufs_mix(h^v)+0x9e3779b97f4a7c15ULL; p+=m; n-=m; }
  return ufs_mix(h);
}
static inline uint64_t ufs_name(const char* s){ uint64_t h=1469598103934665603ULL; while(*s){h^=(uint8_t)*s++;h*=1099511628211ULL;} return h; }
// plain function
static inline void ufs_fun(const char* name,uint8_t* out,size_t on,const uint8_t* in,size_t in_n){
  if(ufs_look(name,0,in,in_n,in,0,out,on)) return;
  uint64_t h=ufs_hash(ufs_name(name),in,in_n);
  for(size_t i=0;i<on;i++){ if(i%8==0) h=ufs_mix(h+0x1234567+i); out[i]=(uint8_t)(h>>(8*(i%8))); }
}
// keyed permutation (Feistel over halves), dir=0 forward, 1 inverse. even n.
static inline void ufs_prp(int dir,uint8_t* out,const uint8_t* in,size_t n,const uint8_t* key,size_t kn,const char*name="E"){
  if(ufs_look(name,dir?2:1,key,kn,in,n,out,n)) return;
  uint8_t L[128],R[128],F[128]; size_t h=n/2; memcpy(L,in,h); memcpy(R,in+h,h);
  uint64_t ks=ufs_hash(77,key,kn);
  for(int r=0;r<4;r++){ int rr=dir?3-r:r;
    if(!dir){ uint64_t s=ufs_hash(ks+rr,R,h); for(size_t i=0;i<h;i++){ if(i%8==0)s=ufs_mix(s+i); F[i]=L[i]^(uint8_t)(s>>(8*(i%8))); } memcpy(L,R,h); memcpy(R,F,h); }
    else { uint64_t s=ufs_hash(ks+rr,L,h); for(size_t i=0;i<h;i++){ if(i%8==0)s=ufs_mix(s+i); F[i]=R[i]^(uint8_t)(s>>(8*(i%8))); } memcpy(R,L,h); memcpy(L,F,h); }
  }
  memcpy(out,L,h); memcpy(out+h,R,h);
}
#endif
