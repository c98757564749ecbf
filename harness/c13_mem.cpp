// C13: the memory limit of SCBKDF
//@t 200
//@exclude SCBKDF
#include "sp185.h"
#include <map>
#include <memory>
#include <string>
#define private public
#include "SCBKDF.h"
#include "SymmetricKey.h"
#include "SCBKDF.cpp"
#undef private
using CEX::Kdf::SCBKDF; using CEX::Enumeration::ShakeModes; using CEX::Cipher::SymmetricKey;
// a cache of the size reached after 5952 growing cycles of 168 bytes (beyond the megabyte asked for) must not grow on
ENTRY c13_scb_memory(){ SCBKDF g(ShakeModes::SHAKE128,2,1); SymmetricKey k(symBytes(32,"k")); g.Initialize(k); bool full=sym_choose(0,1); size_t n=full?168*5953:168*2; g.m_scbkdfState->Cache.resize(n); Bytes o(20); g.Generate(o); sym_assert(g.m_scbkdfState->Cache.size()==(full?n:n+2*168),"the cache grows up to the memory limit"); sym_reach(full?1:2); } //@ reach=1,2 b="SCBKDF with a limit of 1 megabyte, cache below and at the limit"
