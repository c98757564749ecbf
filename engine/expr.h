#pragma once
#include <cstdint>
#include <vector>
#include <string>
#include <cassert>
#include <cstring>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/ArrayRef.h"
#include "llvm/ADT/SmallString.h"
using llvm::APInt;
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
enum K : uint8_t {CONST,VAR,CONCAT,EXTRACT,XOR,AND,OR,ADD,MUL,UDIV,UREM,SDIV,SREM,SHL,LSHR,ASHR,ROTL,SEXT,ITE,EQ,ULT,SLT,UF,TBL,CLMUL};
struct Expr { K k; u8 flag; u32 w; u32 n; u32 id; u32 hash; u64 aux; Expr* kid[0]; };
typedef Expr* E;
typedef std::vector<E> EV;

struct Table { u32 iw, w; std::vector<APInt> v; };
struct UFInfo { std::string name; int prp; /*0 fun,1 enc,2 dec*/ u32 inv; std::string key; };
struct VarInfo { std::string name; u32 w; };
extern std::vector<VarInfo> g_vars;
extern std::vector<UFInfo> g_ufs;
extern std::vector<Table> g_tabs;
extern std::vector<E> g_byid;
u32 nodeCount();

E mkC(u32 w,u64 v);
E mkCA(const APInt&);
APInt cval(E e);
inline bool isC(E e){return e->k==CONST;}
u64 cu64(E e);
bool isZero(E e); bool isOnes(E e);
E mkVar(u32 w,const std::string&name);
E mkExtract(E e,u32 lo,u32 w);
E mkConcat(const EV& lsbFirst);
E mkXor(const EV&); inline E mkXor(E a,E b){return mkXor(EV{a,b});}
E mkAnd(const EV&); inline E mkAnd(E a,E b){return mkAnd(EV{a,b});}
E mkOr(const EV&); inline E mkOr(E a,E b){return mkOr(EV{a,b});}
E mkNot(E a);
E mkAdd(const EV&); inline E mkAdd(E a,E b){return mkAdd(EV{a,b});}
E mkNeg(E a); inline E mkSub(E a,E b){return mkAdd(EV{a,mkNeg(b)});}
E mkMul(E a,E b);
E mkDiv(K k,E a,E b);
E mkShlC(E a,u64 c); E mkLshrC(E a,u64 c); E mkAshrC(E a,u64 c); E mkRotl(E a,u64 c);
E mkShift(K k,E a,E amt);
E mkZext(E a,u32 w); E mkSext(E a,u32 w);
E mkIte(E c,E a,E b);
E mkEq(E a,E b); E mkUlt(E a,E b); E mkSlt(E a,E b);
inline E mkUle(E a,E b){return mkNot(mkUlt(b,a));}
inline E mkSle(E a,E b){return mkNot(mkSlt(b,a));}
E mkUF(u32 uf,u32 w,const EV& args);
u32 ufId(const std::string&name,int prp);
extern int g_coarse,g_lin,g_anf; void exMemoClear();
u32 internTable(Table&&t);
E mkTbl(u32 tab,E idx);
E mkClmul(E a,E b);
APInt umax(E e);
u32 leadZeros(E e);

struct Asg { std::vector<APInt> v; std::map<std::string,APInt> uf; /* values of function applications, by ufKey */ };
std::string ufKey(u32 uf,const std::vector<APInt>& args);
void ufPut(Asg&a,u32 uf,const std::vector<APInt>& args,const APInt&out);
struct Evaluator {
  const Asg* a; std::vector<APInt> memo; std::vector<u8> have;
  Evaluator(const Asg& A):a(&A){}
  const APInt& ev(E e);
};
void collectVars(E e,std::set<u32>&out);
std::string show(E e,int depth=4); void showDiff(E a,E b,int d=0);
E tTrue(); E tFalse();
E mkNode(K k,u32 w,u64 aux,const EV& kids);
E rebuild(E e,const EV& kids); // construct through simplifying constructors
E substitute(E e,const std::unordered_map<u32,E>&m,std::unordered_map<u32,E>&memo);
APInt ufEval(u32 uf,u32 w,const std::vector<APInt>& args);
APInt bytesToAP(const u8*p,size_t n);
void apToBytes(const APInt&a,u8*p,size_t n);
bool dependsOn(E e,const std::set<u32>&vars);
u32 trailZeros(E e);
APInt knownZero(E e);
E mkPopcnt(E a); E mkCtz(E a); E mkClz(E a);
inline E mkNe(E a,E b){return mkNot(mkEq(a,b));}
u64 dagSize(const EV&);
