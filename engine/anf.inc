// Equality of bit vectors by the algebraic normal form of each bit over GF(2): a polynomial is a sorted list of monomials,
// a monomial a sorted list of atoms (bits of variables, of function values, or of terms that are not bitwise).
#include <vector>
#include <map>
#include <unordered_map>
static bool g_anfBusy=false; static size_t g_anfWork=0; static const size_t ANF_MAX=4000000;
struct Anf {
  typedef std::vector<u32> P; std::map<std::vector<u32>,u32> mono; std::vector<std::vector<u32>> monos; std::unordered_map<u64,u32> memo; std::vector<P> ps; std::unordered_map<u64,u32> atom; bool over=false;
  u32 mk(const std::vector<u32>&m){ auto it=mono.find(m); if(it!=mono.end()) return it->second; u32 i=monos.size(); monos.push_back(m); mono.emplace(m,i); return i; }
  P one(){ return P{mk({})}; }
  static P add(const P&a,const P&b){ P r; r.reserve(a.size()+b.size()); size_t i=0,j=0; while(i<a.size()&&j<b.size()){ if(a[i]<b[j]) r.push_back(a[i++]); else if(a[i]>b[j]) r.push_back(b[j++]); else i++,j++; } r.insert(r.end(),a.begin()+i,a.end()); r.insert(r.end(),b.begin()+j,b.end()); return r; }
  static P norm(std::vector<u32>&v){ std::sort(v.begin(),v.end()); P r; for(size_t i=0;i<v.size();){ size_t j=i; while(j<v.size()&&v[j]==v[i]) j++; if((j-i)&1) r.push_back(v[i]); i=j; } return r; }
  P mul(const P&a,const P&b){ if(a.empty()||b.empty()) return {}; g_anfWork+=a.size()*b.size(); if(g_anfWork>ANF_MAX){ over=true; return {}; } std::vector<u32> v; v.reserve(a.size()*b.size()); for(u32 x:a) for(u32 y:b){ const auto&p=monos[x]; const auto&q=monos[y]; std::vector<u32> m; m.reserve(p.size()+q.size()); std::set_union(p.begin(),p.end(),q.begin(),q.end(),std::back_inserter(m)); v.push_back(mk(m)); } return norm(v); }
  P at(E e,u32 bit){ u64 k=((u64)e->id<<16)|bit; auto it=atom.find(k); u32 a; if(it==atom.end()){ a=atom.size(); atom[k]=a; } else a=it->second; return P{mk({a})}; }
  std::unordered_map<u32,std::vector<P>> flatV; std::unordered_map<u32,bool> flatOk;
  bool flat(E e){ auto it=flatOk.find(e->id); if(it!=flatOk.end()) return it->second; bool ok=true; std::vector<P> acc; 
    for(u32 k=0;k<e->n&&ok&&!over;k++){ std::vector<P> b(e->w); for(u32 i=0;i<e->w;i++) b[i]=get(e->kid[k],i); if(!k){ acc=b; continue; } std::vector<P> r(e->w); std::vector<char> used(e->w,0);
      if(e->k==ADD){ for(u32 i=0;i<e->w;i++) if(acc[i].empty()) acc[i]=b[i]; else if(!b[i].empty()) ok=false; continue; }
      for(u32 i=0;i<e->w&&ok;i++) if(!acc[i].empty()) for(u32 j=0;i+j<e->w;j++) if(!b[j].empty()){ if(used[i+j]){ ok=false; break; } used[i+j]=1; r[i+j]=mul(acc[i],b[j]); } acc=r; }
    flatOk[e->id]=ok; if(ok) flatV[e->id]=acc; return ok; }
  P get(E e,u32 bit){
    if(over) return {}; if(e->k==CONST) return cval(e)[bit]?one():P{}; if(e->k==EXTRACT) return get(e->kid[0],bit+e->aux);
    if(e->k==CONCAT){ u32 o=0; for(u32 i=0;i<e->n;i++){ if(bit<o+e->kid[i]->w) return get(e->kid[i],bit-o); o+=e->kid[i]->w; } }
    u64 key=((u64)e->id<<16)|bit; auto it=memo.find(key); if(it!=memo.end()) return ps[it->second]; P r;
    switch(e->k){
    case XOR:{ std::vector<u32> v; for(u32 i=0;i<e->n;i++){ P p=get(e->kid[i],bit); v.insert(v.end(),p.begin(),p.end()); } g_anfWork+=v.size(); if(g_anfWork>ANF_MAX) over=true; r=norm(v); break; }
    case AND: r=get(e->kid[0],bit); for(u32 i=1;i<e->n;i++) r=mul(r,get(e->kid[i],bit)); break;
    case OR: r=get(e->kid[0],bit); for(u32 i=1;i<e->n;i++){ P q=get(e->kid[i],bit); r=add(add(r,q),mul(r,q)); } break;
    case ROTL: r=get(e->kid[0],(bit+e->w-(u32)e->aux)%e->w); break;
    case SEXT: r=get(e->kid[0],std::min(bit,e->kid[0]->w-1)); break;
    case ITE:{ P c=get(e->kid[0],0),a=get(e->kid[1],bit),b=get(e->kid[2],bit); r=add(b,mul(c,add(a,b))); break; }
    case EQ:{ u32 w=e->kid[0]->w; if(w>16){ r=at(e,0); break; } r=one(); for(u32 i=0;i<w;i++) r=mul(r,add(one(),add(get(e->kid[0],i),get(e->kid[1],i)))); break; }
    case CLMUL:{ std::vector<u32> v; for(u32 i=bit>63?bit-63:0;i<=63&&i<=bit;i++){ P p=mul(get(e->kid[0],i),get(e->kid[1],bit-i)); v.insert(v.end(),p.begin(),p.end()); } r=norm(v); break; }
    case MUL: case ADD:{ // bit vectors whose partial products (terms) never meet in one position: no carries
      if(!flat(e)){ r=at(e,bit); break; } r=flatV[e->id][bit]; break; }
    default: r=at(e,bit); }
    ps.push_back(r); memo[key]=ps.size()-1; return r; }
};
static Anf* anfE=nullptr;
// 1: the goal holds, 0: a normal form differs, -1: too large or of another shape
static int anfEq(E c){ if(!anfE) anfE=new Anf; g_anfWork=0; anfE->over=false; if(c->k==AND){ int r=1; for(u32 i=0;i<c->n;i++){ int q=anfEq(c->kid[i]); if(q!=1) return q; } return r; }
 if(c->k!=EQ){ Anf::P p=anfE->get(c,0); if(getenv("SYMX_DIFF")) { fprintf(stderr,"ANF goal kind %d: %zu over %d\n",(int)c->k,p.size(),anfE->over); for(size_t q=0;q<p.size()&&q<4;q++){ for(u32 t:anfE->monos[p[q]]) for(auto&kv:anfE->atom) if(kv.second==t) fprintf(stderr," %s:%u",show(g_byid[kv.first>>16],3).substr(0,80).c_str(),(u32)(kv.first&65535)); fprintf(stderr,"\n"); } } if(anfE->over){ delete anfE; anfE=nullptr; return -1; } return p==anfE->one()?1:0; }
 for(u32 i=0;i<c->kid[0]->w;i++){ g_anfWork=0; Anf::P a=anfE->get(c->kid[0],i),b=anfE->get(c->kid[1],i); if(getenv("SYMX_DIFF")&&(a!=b||anfE->over)){ fprintf(stderr,"ANF bit %u of %u: %zu/%zu over %d\n",i,c->kid[0]->w,a.size(),b.size(),anfE->over); Anf::P d=Anf::add(a,b); for(size_t q=0;q<d.size()&&q<4;q++){ for(u32 t:anfE->monos[d[q]]) for(auto&kv:anfE->atom) if(kv.second==t) fprintf(stderr," %s:%u",show(g_byid[kv.first>>16],3).substr(0,80).c_str(),(u32)(kv.first&65535)); fprintf(stderr,"\n"); } }
 if(anfE->over){ delete anfE; anfE=nullptr; return -1; } if(a!=b) return 0; } return 1; }
