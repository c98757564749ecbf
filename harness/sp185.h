// SP 800-185 encodings and the sponge functions over an arbitrary permutation; HMAC over an arbitrary compression function
#pragma once
#include "dig.h"
static void lenc(Bytes&o,uint64_t v){ int n=1; while(n<8&&(v>>(8*n))) n++; o.push_back((uint8_t)n); for(int i=n;i--;) o.push_back((uint8_t)(v>>(8*i))); }
static void estr(Bytes&o,const Bytes&s){ lenc(o,8*(uint64_t)s.size()); o.insert(o.end(),s.begin(),s.end()); }
static void pad0(Bytes&o,size_t r){ while(o.size()%r) o.push_back(0); }
static Bytes refXof(size_t r,const Bytes&key,const Bytes&cust,const Bytes&name,size_t len){ Bytes p; bool c=cust.size()||name.size(); if(c){ lenc(p,r); estr(p,name); estr(p,cust); pad0(p,r); } p.insert(p.end(),key.begin(),key.end()); g_tailxor=true; Bytes o=refKeccak(p.data(),p.size(),r,c?4:0x1F,len); g_tailxor=false; return o; }
static Bytes refHmac(DK d,const Bytes&key,const Bytes&m){ size_t r=DI_[d].rate; Bytes k=key; if(k.size()>r) k=refDigest(d,k.data(),k.size()); k.resize(r); Bytes a(r),b(r); for(size_t i=0;i<r;i++){ a[i]=k[i]^0x36; b[i]=k[i]^0x5c; } a.insert(a.end(),m.begin(),m.end()); Bytes h=refDigest(d,a.data(),a.size()); b.insert(b.end(),h.begin(),h.end()); return refDigest(d,b.data(),b.size()); }
