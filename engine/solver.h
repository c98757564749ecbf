#pragma once
#include "expr.h"
enum SatRes { UNSAT, SAT, UNKNOWN };
struct Shared {
  volatile long active,maxActive;
  volatile long paths,forks,insts,asserts,assertsTriv,assertsSmt,queries,querySat,queryUnsat,queryUnk,solverUs,violations,errors,incompl,inconcl,cacheHits,maxNodes,timeouts,reach[256],rewrites,assumesFalse,procs,portf;
};
extern Shared* SH;
SatRes solve(const EV& conds, Asg* model, unsigned rlimit, double timeout_s);
E mkAllOf(const EV&);
