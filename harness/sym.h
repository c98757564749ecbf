// Harness API: builtins of the symbolic executor; in native replay they are provided by rt_native.cpp.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
void sym_bytes(void* p,size_t n,const char* name);
uint64_t sym_u64(const char* name);
int64_t sym_choose(int64_t lo,int64_t hi);
void sym_assume(bool b);
void sym_assert(bool b,const char* msg);
void sym_assert_eq(const void* p,const void* q,size_t n,const char* msg);
bool sym_eq(const void* p,const void* q,size_t n);
void sym_uf(const char* name,void* out,size_t on,const void* in,size_t n);
void sym_prp(const char* name,int dir,void* out,const void* in,size_t n,const void* key,size_t kn);
void sym_reach(int k);
bool sym_is_symbolic(const void* p,size_t n);
void sym_lane_start();
void sym_lane(int64_t i);
void sym_quiet(int64_t on); // the harness's own accesses are not part of the lanes' work
void sym_coarse(int64_t m); // word-level terms: 1 for large permutations, 2 if 64 bit sums are truncated
void sym_lane_end();
void sym_secret(const void* p,size_t n);
void sym_ct(int on);
void sym_print(const char* m,...);
uint64_t sym_concretize(uint64_t v);
void sym_watch_free(const char* msg);
void sym_assert_erased(const void* p,size_t n,const char* msg);
}
#define ENTRY extern "C" void
#include <vector>
typedef std::vector<uint8_t> Bytes;
static inline Bytes symBytes(size_t n,const char* name){ Bytes b(n); if(n) sym_bytes(b.data(),n,name); return b; }
static inline void assertEq(const Bytes&a,const Bytes&b,const char* msg){ sym_assert(a.size()==b.size(),msg); if(a.size()==b.size()) sym_assert_eq(a.data(),b.data(),a.size(),msg); }
// runtime environment knobs (env.cpp)
struct EnvCfg { size_t cores, l1total, l1line; bool aesni, avx2, sha, cmul, rdrand, rdseed; int laneOrder; /*0 ascending 1 descending 2 chosen*/ bool trackRaces; };
extern EnvCfg g_env;
