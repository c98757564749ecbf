// The MACs under histories: every tag is the definition's value of (key, message), whatever came before, however the message was cut
#pragma once
#include "sym.h"
#include "IMac.h"
#include "SymmetricKey.h"
#include <memory>
#include <functional>
#include <cstring>
struct MacKey { Bytes key,iv,info; };
typedef std::function<Bytes(const MacKey&,const Bytes&,size_t)> MacRef; // tag of the given length
static std::unique_ptr<CEX::Cipher::SymmetricKey> mkKey(const MacKey&k){ using CEX::Cipher::SymmetricKey; if(k.info.size()) return std::unique_ptr<SymmetricKey>(new SymmetricKey(k.key,k.iv,k.info)); if(k.iv.size()) return std::unique_ptr<SymmetricKey>(new SymmetricKey(k.key,k.iv)); return std::unique_ptr<SymmetricKey>(new SymmetricKey(k.key)); }
static void macInit(CEX::Mac::IMac&m,const MacKey&k){ auto sk=mkKey(k); m.Initialize(*sk); sym_assert(m.IsInitialized(),"initialised"); }
// one message in one or two pieces, finished in one of four ways; xof: the output's length is part of the tag's definition
static void macOne(CEX::Mac::IMac&m,const MacKey&k,size_t n,size_t cut,int fin,bool xof,const MacRef&ref){ Bytes b=symBytes(n+4,"msg"),b0=b,x(b.begin()+3,b.begin()+3+n); size_t T=m.TagSize(); 
  if(fin==0){ Bytes o=symBytes(T,"junk"); m.Compute(x,o); assertEq(o,ref(k,x,T),"Compute gives the definition's tag"); return; }
  if(cut) m.Update(b,3,cut); if(n-cut||!cut) m.Update(b,3+cut,n-cut); assertEq(b,b0,"the input is unchanged");
  size_t ex=fin==3?0:1; Bytes o=symBytes(T+2+(xof?0:ex),"junk"),e=o; size_t len=xof?T+(fin==3?0:0):T;
  if(fin==1){ m.Finalize(o,2); Bytes t=ref(k,x,len); memcpy(e.data()+2,t.data(),T); assertEq(o,e,"Finalize gives the definition's tag and writes nothing else"); }
  else { CEX::SecureVector<uint8_t> s(o.begin(),o.end()); m.Finalize(s,2); Bytes t=ref(k,x,len); memcpy(e.data()+2,t.data(),T); assertEq(Bytes(s.begin(),s.end()),e,"Finalize into secure memory gives the definition's tag and writes nothing else"); } }
// lengths around the block boundaries, one piece
static void macLen(CEX::Mac::IMac&m,const MacKey&k,size_t r,int top,bool xof,const MacRef&ref){ int D[]={0,1,-1,-2,-3,-4,-9,5}; int q=(int)sym_choose(0,top),d=D[sym_choose(0,7)]; if(q==0&&d<0) return; int f=(int)sym_choose(0,2); macInit(m,k); macOne(m,k,(size_t)(q*(int)r+d),0,f,xof,ref); sym_reach(1); }
// two pieces
static void macCut(CEX::Mac::IMac&m,const MacKey&k,size_t r,bool xof,const MacRef&ref){ size_t N[]={r,r+1,2*r,2*r+3,3*r+1}; size_t n=N[sym_choose(0,4)]; size_t C[]={1,r-1,r,r+1,2*r-1,2*r}; size_t c=C[sym_choose(0,5)]; if(c>n) return; macInit(m,k); macOne(m,k,n,c,1,xof,ref); sym_reach(2); }
// histories: another key and a message finished or abandoned, Reset or not, before this key
static void macHist(CEX::Mac::IMac&m,const MacKey&k,const MacKey&old,size_t r,bool xof,const MacRef&ref){ int h=(int)sym_choose(0,4); size_t A[]={0,1,r,r+5}; size_t a=A[sym_choose(0,3)]; macInit(m,old); if(a){ Bytes b=symBytes(a,"other"); m.Update(b,0,a); } if(h&1){ Bytes o(m.TagSize()); if(m.IsInitialized()) m.Finalize(o,0); } if(h&2) m.Reset(); if(h==4){ macInit(m,old); } macInit(m,k); size_t N[]={0,3,r,r+2}; macOne(m,k,N[sym_choose(0,3)],0,1,xof,ref); sym_reach(3); }
// used before it is keyed, or with an output that is too short: refused
static void macBad(CEX::Mac::IMac&m,const MacKey&k){ Bytes b(3),o(m.TagSize()),s(m.TagSize()-1); auto thr=[&](std::function<void()> f){ try{ f(); }catch(std::exception&){ return true; } return false; };
  sym_assert(thr([&]{ m.Update(b,0,3); })&&thr([&]{ m.Finalize(o,0); })&&thr([&]{ m.Compute(b,o); }),"a MAC that has no key refuses to work"); macInit(m,k); sym_assert(thr([&]{ m.Finalize(s,0); }),"an output shorter than the tag is refused"); sym_assert(thr([&]{ m.Compute(b,s); }),"an output shorter than the tag is refused"); m.Reset(); sym_assert(!m.IsInitialized()&&thr([&]{ m.Update(b,0,3); }),"after Reset the MAC has no key"); sym_reach(4); }
