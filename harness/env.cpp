// Environment stubs shared by the symbolic executor and native replay:
// CPU feature detection (configurable), the parallel-for primitive (deterministic lane orders, with footprint tracking).
#include "sym.h"
#include "CpuDetect.h"
#include "ParallelTools.h"
#include "SecureMemory.h"
EnvCfg g_env={2,32768*2,64,false,true,false,false,true,true,0,true};
namespace CEX { namespace Tools {
size_t ParallelTools::ProcessorCount(){ return g_env.cores; }
static __attribute__((noinline)) void oneLane(const std::function<void(size_t)>&F,size_t i){ std::function<void(size_t)> f(F); try{ f(i); }catch(...){ } }
void ParallelTools::ParallelFor(size_t From,size_t To,const std::function<void(size_t)>&F){
  static int depth=0; bool track=g_env.trackRaces&&depth==0; ++depth;
  int order=g_env.laneOrder==2?(int)sym_choose(0,1):g_env.laneOrder;
  if(track) sym_lane_start();
  for(size_t k=From;k<To;++k){ size_t i=order?To-1-(k-From):k; if(track) sym_lane((int64_t)i); oneLane(F,i); }
  if(track){ sym_lane(-1); sym_lane_end(); }
  --depth;
}
void ParallelTools::ParallelTask(const std::function<void()>&F){ F(); }
void ParallelTools::Vectorize(const std::function<void()>&F){ F(); }
}}
namespace CEX {
CpuDetect::CpuDetect(){ } CpuDetect::~CpuDetect(){}
const bool CpuDetect::ABM(){return true;} const bool CpuDetect::ADS(){return false;} const bool CpuDetect::AESNI(){return g_env.aesni;}
const bool CpuDetect::AVX(){return g_env.avx2;} const bool CpuDetect::AVX2(){return g_env.avx2;} const bool CpuDetect::AVX512F(){return false;}
const bool CpuDetect::BMT2(){return true;} const size_t CpuDetect::BusRefFrequency(){return 100;} const bool CpuDetect::CMUL(){return g_env.cmul;}
const bool CpuDetect::FMA4(){return false;} const size_t CpuDetect::FrequencyBase(){return 2000;} const size_t CpuDetect::FrequencyMax(){return 3000;}
const bool CpuDetect::HyperThread(){return false;} const bool CpuDetect::IsX86Emulation(){return false;} const bool CpuDetect::IsX64(){return true;}
const size_t CpuDetect::L1CacheSize(){return g_env.l1total/g_env.cores*2;} const size_t CpuDetect::L1CacheLineSize(){return g_env.l1line;}
const size_t CpuDetect::L1CacheTotal(){return g_env.l1total*2;} const size_t CpuDetect::L1DataCacheTotal(){return g_env.l1total;}
const size_t CpuDetect::L2CacheSize(){return 262144;} const size_t CpuDetect::L2CacheTotal(){return 262144*g_env.cores;}
const size_t CpuDetect::LogicalPerCore(){return 1;} const bool CpuDetect::MPX(){return false;} const size_t CpuDetect::PhysicalCores(){return g_env.cores;}
const bool CpuDetect::PQE(){return false;} const bool CpuDetect::PQM(){return false;} const bool CpuDetect::PREFETCH(){return false;}
const bool CpuDetect::RDRAND(){return g_env.rdrand;} const bool CpuDetect::RDSEED(){return g_env.rdseed;} const bool CpuDetect::RDTSCP(){return true;} const bool CpuDetect::RTM(){return false;}
const std::string& CpuDetect::SerialNumber(){ static std::string s; return s; }
CpuDetect::CpuVendors CpuDetect::Vendor(){ return (CpuVendors)1; }
const bool CpuDetect::SHA(){return g_env.sha;} const bool CpuDetect::SMAP(){return false;} const bool CpuDetect::SSE(){return true;} const bool CpuDetect::SSE2(){return true;}
const bool CpuDetect::SSE3(){return true;} const bool CpuDetect::SSSE3(){return true;} const bool CpuDetect::SSE4A(){return false;} const bool CpuDetect::SSE41(){return true;} const bool CpuDetect::SSE42(){return true;}
const size_t CpuDetect::VirtualCores(){return g_env.cores;} const bool CpuDetect::XOP(){return false;}
}
// no locked pages: the locking allocator then falls back to the heap
namespace CEX { size_t SecureMemory::Limit(){ return 0; } size_t SecureMemory::PageSize(){ return 4096; } }
