// C28: ECDSA parameter names (its header shares an include guard with ECDHParameters.h)
//@t 60
#include "sym.h"
#include <string>
#include <initializer_list>
#include "ECDSAParameters.h"
using namespace CEX; using namespace CEX::Enumeration;
// for every declared member: it has a name, and the name leads back to it
template<class E,class C> static void all(std::initializer_list<uint8_t> L){ std::string none=C::ToName((E)0); uint8_t v; sym_bytes(&v,1,"v"); bool mem=false; for(uint8_t m:L) mem=mem|(v==m); sym_assume(mem); std::string n=C::ToName((E)v); sym_reach(1); sym_assert(n!=none&&n.size()!=0,"every member has a name"); std::string q=n; E r=C::FromName(q); sym_assert((uint8_t)r==v,"the name leads back to the member"); }
ENTRY c28_ecdsaparameters(){ all<ECDSAParameters,ECDSAParameterConvert>({(uint8_t)ECDSAParameters::ECDSAS1P25519K,(uint8_t)ECDSAParameters::ECDSAS2P25519S}); } //@ reach=1 b="every member; every byte value for the names"
