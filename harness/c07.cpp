// C07: stream ciphers without authentication
//@t 100
#include "c07.h"
ENTRY c07_chacha() { go(sCHACHA,(int)sym_choose(0,10)); } //@ reach=1 b="ChaChaP20 over any block function: two calls of up to 8 and 9 blocks plus tails of 0..9 bytes, offsets (0,0),(5,3),(0,16) the last after use under another key, every key, nonce, info (absent or 16 bytes) and message"
ENTRY c07_csx512() { go(sCSX512,(int)sym_choose(0,7)); } //@ reach=1 b="CSX512, as above up to 5 blocks"
ENTRY c07_tsx256() { go(sTSX256,(int)sym_choose(0,10)); } //@ reach=1 b="TSX256 over any Threefish permutation, counters whose low byte is 0,F9,FF"
ENTRY c07_tsx512() { go(sTSX512,(int)sym_choose(0,10)); } //@ reach=1 b="TSX512, as above"
ENTRY c07_tsx1024() { go(sTSX1024,(int)sym_choose(0,7)); } //@ reach=1 b="TSX1024, as above"
static const int RQ[]={2,3,8};
ENTRY c07_rcs() { go(sRCS,RQ[sym_choose(0,2)]); } //@ reach=1 t=200 b="RCS with a 32 byte key: up to 8 blocks, each against the single block with that counter"
ENTRY c07_par_chacha() { goPar(sCHACHA); } //@ reach=1 b="ChaChaP20, two lanes in both orders: minimum parallel size plus 0..3 blocks and tails of 0,1,33,129 bytes, offsets"
ENTRY c07_par_csx512() { goPar(sCSX512); } //@ reach=1 b="CSX512, as above"
ENTRY c07_par_tsx256() { goPar(sTSX256); } //@ reach=1 b="TSX256, as above"
ENTRY c07_par_tsx512() { goPar(sTSX512); } //@ reach=1 b="TSX512, as above"
ENTRY c07_par_tsx1024() { goPar(sTSX1024); } //@ reach=1 b="TSX1024, as above"
ENTRY c07_par_rcs() { goPar(sRCS); } //@ reach=1 b="RCS, as above"
