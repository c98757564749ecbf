// Native replay: the builtins read the recorded inputs.
#include "sym.h"
#include "../engine/ufsem.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
static FILE* g_in; static int g_fail=0;
static void rec(void*p,size_t n){ uint32_t k=0; memset(p,0,n); if(!g_in||fread(&k,4,1,g_in)!=1) return; std::vector<uint8_t> b(k); if(k&&fread(b.data(),1,k,g_in)!=k) return; memcpy(p,b.data(),k<n?k:n); }
extern "C" {
void sym_bytes(void*p,size_t n,const char*){ if(n) rec(p,n); }
uint64_t sym_u64(const char*){ uint64_t v; rec(&v,8); return v; }
int64_t sym_choose(int64_t lo,int64_t hi){ int64_t v; rec(&v,8); if(v<lo||v>hi) v=lo; return v; }
void sym_assume(bool b){ if(!b){ printf("REPLAY-ASSUME-FALSE\n"); fflush(stdout); _exit(0);} }
void sym_assert(bool b,const char*m){ if(!b){ printf("REPLAY-FAIL %s\n",m); fflush(stdout); _exit(42);} }
bool sym_eq(const void*p,const void*q,size_t n){ return n==0||memcmp(p,q,n)==0; }
void sym_assert_eq(const void*p,const void*q,size_t n,const char*m){ sym_assert(sym_eq(p,q,n),m); }
void sym_uf(const char*name,void*o,size_t on,const void*in,size_t n){ std::vector<uint8_t> t((const uint8_t*)in,(const uint8_t*)in+n); ufs_fun(name,(uint8_t*)o,on,t.data(),n); }
void sym_prp(const char*nm,int dir,void*o,const void*in,size_t n,const void*k,size_t kn){ uint8_t t[128],u[128]; memcpy(t,in,n); ufs_prp(dir,u,t,n,(const uint8_t*)k,kn,nm); memcpy(o,u,n); }
void sym_reach(int){} bool sym_is_symbolic(const void*,size_t){return false;}
void sym_lane_start(){} void sym_lane(int64_t){} void sym_quiet(int64_t){} void sym_coarse(int64_t){} void sym_lane_end(){} void sym_secret(const void*,size_t){} void sym_ct(int){}
void sym_print(const char*m,...){ printf("%s\n",m); }
uint64_t sym_concretize(uint64_t v){return v;} void sym_watch_free(const char*){} void sym_assert_erased(const void*,size_t,const char*){}
}
extern "C" void REPLAY_ENTRY();
int main(int argc,char**argv){ if(argc>1){ g_in=fopen(argv[1],"rb"); ufs_load((std::string(argv[1])+".uf").c_str()); } try{ REPLAY_ENTRY(); }catch(std::exception&e){ printf("REPLAY-FAIL uncaught exception %s\n",e.what()); fflush(stdout); _exit(43);} catch(...){ printf("REPLAY-FAIL uncaught exception\n"); fflush(stdout); _exit(43);} printf("REPLAY-OK\n"); fflush(stdout); _exit(0); }
