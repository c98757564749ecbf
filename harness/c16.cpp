// C16: byte streams against an array with a position
//@t 60
#include "sym.h"
#include <vector>
#include <memory>
#include <string>
#include <type_traits>
#include "MemoryStream.h"
#include "SecureStream.h"
#include "StreamReader.h"
#include "StreamWriter.h"
#include "sysid.h"
using namespace CEX; using namespace CEX::IO; typedef std::vector<uint8_t> Bytes;
struct Model { Bytes d; size_t p=0; };
static const size_t RL[]={0,1,3,9,40};
template<class S> static void content(S&s,Model&m){ sym_assert(s.Length()==m.d.size(),"length"); sym_assert(s.Position()==m.p,"position"); Bytes b=s.ToArray(); sym_assert(b.size()==m.d.size(),"size of the contents"); if(b.size()==m.d.size()&&b.size()) sym_assert_eq(b.data(),m.d.data(),b.size(),"contents"); }
template<class S> static void op(S&s,Model&m,int k,int id){ 
  if(k<5){ size_t n=RL[k],o=k==2?4:0; Bytes in=symBytes(o+n+1,"w"); s.Write(in,o,n); if(m.p+n>m.d.size()) m.d.resize(m.p+n); for(size_t i=0;i<n;i++) m.d[m.p+i]=in[o+i]; m.p+=n; }
  else if(k<10){ size_t n=RL[k-5],o=(k==7||k==9)?6:0; Bytes out(o+n+2,0xA5); size_t exp=m.d.size()-m.p; if(exp>n) exp=n; size_t r=s.Read(out,o,n); sym_assert(r==exp,"the number of bytes read"); for(size_t i=0;i<out.size();i++){ uint8_t e=(i>=o&&i<o+exp)?m.d[m.p+i-o]:0xA5; sym_assert(out[i]==e,"read returns the bytes at the position, in range"); } m.p+=exp; }
  else if(k==10){ uint8_t b; sym_bytes(&b,1,"b"); s.WriteByte(b); if(m.p==m.d.size()) m.d.resize(m.p+1); m.d[m.p++]=b; }
  else if(k==11){ if(m.p>=m.d.size()) return; uint8_t b=s.ReadByte(); sym_assert(b==m.d[m.p],"single byte read"); m.p++; }
  else if(k==12){ s.Seek(0,SeekOrigin::Begin); m.p=0; }
  else if(k==13){ size_t q=m.d.size()/2; s.Seek(q,SeekOrigin::Begin); m.p=q; }
  else if(k==14){ size_t q=m.d.size()<2?m.d.size():2; s.Seek(q,SeekOrigin::End); m.p=m.d.size()-q; }
  else if(k==15){ size_t q=(m.d.size()-m.p)/2; s.Seek(q,SeekOrigin::Current); m.p+=q; }
  else if(k==16){ size_t q=m.d.size()/2; if(m.p>q){ s.Seek(q,SeekOrigin::Begin); m.p=q; } s.SetLength(q); m.d.resize(q); }
  else if(k==17){ s.Reset(); m.d.clear(); m.p=0; }
  else if(k==18){ MemoryStream t; s.CopyTo(&t); Bytes c=t.ToArray(); sym_assert(c.size()==m.d.size(),"copy length"); if(c.size()==m.d.size()&&c.size()) sym_assert_eq(c.data(),m.d.data(),c.size(),"copy"); }
}
template<class S> static void run(S&s,Model&m,int n,int hi){ content(s,m); for(int i=0;i<n;i++){ op(s,m,(int)sym_choose(0,hi),i); content(s,m); } sym_reach(1); }
ENTRY c16_mem(){ Model m; MemoryStream s; run(s,m,3,18); } //@ reach=1 b="MemoryStream from empty: every sequence of 3 out of 19 operations, arbitrary bytes"
ENTRY c16_mem_init(){ Model m; m.d=symBytes(13,"i"); MemoryStream s(m.d); run(s,m,3,18); } //@ reach=1 b="MemoryStream over 13 bytes: every sequence of 3 out of 19 operations"
ENTRY c16_mem_part(){ Bytes a=symBytes(20,"i"); Model m; m.d=Bytes(a.begin()+5,a.begin()+16); MemoryStream s(a,5,11); run(s,m,2,18); MemoryStream t(s); Model q; q.d=m.d; content(t,q); } //@ reach=1 b="MemoryStream over part of an array, and its copy"
ENTRY c16_mem_len(){ Model m; MemoryStream s((size_t)16); run(s,m,2,18); } //@ reach=1 b="MemoryStream with a reserved length"
ENTRY c16_sec(){ Model m; SecureStream s((size_t)0,0); run(s,m,2,18); } //@ reach=1 t=120 b="SecureStream from empty: every sequence of 2 operations"
ENTRY c16_sec_init(){ Model m; m.d=symBytes(13,"i"); SecureStream s(m.d,0x1122); run(s,m,2,18); } //@ reach=1 t=120 b="SecureStream over 13 bytes with a salt: every sequence of 2 operations"
ENTRY c16_sec_part(){ Bytes a=symBytes(60,"i"); Model m; m.d=Bytes(a.begin()+5,a.begin()+53); SecureStream s(a,5,48,0x123456789ABCDEF0ull); run(s,m,1,18); } //@ reach=1 t=120 b="SecureStream over part of an array, 48 bytes, 64-bit salt"
ENTRY c16_sec_deep(){ Model m; m.d=symBytes(33,"i"); SecureStream s(m.d,7); run(s,m,3,18); } //@ reach=1 tier=thorough t=800 b="SecureStream over 33 bytes: every sequence of 3 operations"
// typed reader and writer
template<class T> static void wr1(StreamWriter&w,Bytes&ref,const char*n){ T v=(T)sym_u64(n); w.Write(v); for(size_t i=0;i<sizeof(T);i++) ref.push_back((uint8_t)((typename std::make_unsigned<T>::type)v>>(8*i))); }
template<class T> static void wrv(StreamWriter&w,Bytes&ref,size_t n){ std::vector<T> v(n); if(n) sym_bytes(v.data(),n*sizeof(T),"v"); w.Write(v); for(T x:v) for(size_t i=0;i<sizeof(T);i++) ref.push_back((uint8_t)((typename std::make_unsigned<T>::type)x>>(8*i))); }
static void wop(StreamWriter&w,Bytes&r,int k){ switch(k){ case 0: wr1<uint8_t>(w,r,"a"); break; case 1: wr1<uint16_t>(w,r,"a"); break; case 2: wr1<uint32_t>(w,r,"a"); break; case 3: wr1<uint64_t>(w,r,"a"); break; case 4: wr1<int32_t>(w,r,"a"); break; case 5: wrv<uint8_t>(w,r,5); break; case 6: wrv<uint16_t>(w,r,3); break; case 7: wrv<uint32_t>(w,r,3); break; case 8: wrv<uint64_t>(w,r,2); break; } }
ENTRY c16_writer(){ size_t init=sym_choose(0,2)*4; StreamWriter w(init); Bytes r; for(int i=0;i<3;i++){ wop(w,r,(int)sym_choose(0,8)); sym_assert(w.Position()==r.size(),"position"); Bytes&g=w.Generate(); sym_assert(g.size()==(r.size()>init?r.size():init),"length"); sym_assert_eq(g.data(),r.data(),r.size(),"written bytes"); } std::unique_ptr<MemoryStream> m(w.GetStream()); Bytes o=m->ToArray(); assertEq(o,r,"the stream holds what was written"); sym_reach(1); } //@ reach=1 t=120 b="every sequence of 3 typed or array writes, initial lengths 0/4/8"
template<class T> static void rd(StreamReader&r,const Bytes&d,size_t&p){ if(p+sizeof(T)>d.size()) return; T v=r.ReadInt<T>(); typename std::make_unsigned<T>::type e=0; for(size_t i=0;i<sizeof(T);i++) e|=(typename std::make_unsigned<T>::type)d[p+i]<<(8*i); sym_assert((typename std::make_unsigned<T>::type)v==e,"typed read"); p+=sizeof(T); }
ENTRY c16_reader(){ Bytes d=symBytes(21,"d"); MemoryStream m(d); StreamReader r(m); size_t p=0; sym_assert(r.Length()==21,"length"); for(int i=0;i<3;i++){ switch((int)sym_choose(0,6)){ case 0: rd<uint8_t>(r,d,p); break; case 1: rd<uint16_t>(r,d,p); break; case 2: rd<uint32_t>(r,d,p); break; case 3: rd<uint64_t>(r,d,p); break; case 4: rd<int32_t>(r,d,p); break; case 5: { uint8_t b=r.ReadByte(); sym_assert(b==d[p],"byte"); p++; break; } case 6: { Bytes b=r.ReadBytes(5); sym_assert(b.size()==5,"size"); sym_assert_eq(b.data(),&d[p],5,"array read"); p+=5; break; } } sym_assert(r.Position()==p,"position"); } sym_reach(1); } //@ reach=1 t=120 b="every sequence of 3 typed or array reads over 21 arbitrary bytes"
