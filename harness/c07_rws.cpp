// C07: RWS
//@t 100
#define WITH_RWS
#include "c07.h"
ENTRY c07_rws() { static const int R[]={1,2,3,5}; go(sRWS,R[sym_choose(0,3)]); } //@ reach=1 b="RWS with a 32 byte key: up to 4 blocks"
ENTRY c07_par_rws() { goPar(sRWS); } //@ reach=1 b="RWS, two lanes in both orders"
