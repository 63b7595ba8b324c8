#include <unordered_set>
// symex: symbolic executor for LLVM IR.  See ../DESIGN.md.
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <sys/prctl.h>
#include <time.h>
#include <fstream>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <regex>
using namespace llvm;

static inline float flt32(uint64_t u){uint32_t x=(uint32_t)u;float f;memcpy(&f,&x,4);return f;} static inline uint64_t u32f(float f){uint32_t x;memcpy(&x,&f,4);return x;}

static double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
struct Shared {
  std::atomic<int> active{1}, stop{0}, crashed{0}, lost{0};
  std::atomic<long> paths{0}, unsup{0}, unexplored{0}, queries{0}, qsat{0}, qunsat{0}, qunk{0}, qcache{0}, solverUs{0}, aSolver{0}, aConcrete{0}, confirmed{0}, unresolved{0}, instrs{0}, forks{0}, witless{0}, blocks{0}, traces{0}, traceBad{0}, witPaths{0}, cexTried{0}, procs{1}, infeasible{0}, replays{0};
};
static Shared*sh;
struct Options { std::string bc,entry,native,out,workdir=".",srcRoot="/repo/src"; int jobs=1; double time=120; unsigned rlimit=8000000; uint64_t maxSteps=30000000; int maxReplays=12; int traces=2; long concFloor=-1; bool fpvar=false,ieee=false; int symStoreFork=6; uint64_t seed=1; bool verbose=false; double extraTime=0,qtime=6; bool lognames=false; };
static Options opt;
static double t0;

struct PathEnd { std::string why; };      // silently ends the path
struct Violation { std::string kind,msg; }; // property violated on this path

class Exec {
public:
  Expr X; Module*M; const DataLayout*DL; LLVMContext C; std::unique_ptr<Module> Mo;
  std::unordered_map<const Function*,DFunc*> dfuncs; std::unordered_map<const GlobalValue*,uint64_t> gaddr; std::unordered_map<uint64_t,const Function*> fnAt;
  std::unordered_map<std::string,Node*> varNodes; State init; std::deque<State> work; State*S=nullptr;
  std::shared_ptr<Obj> tomb=std::make_shared<Obj>();
  std::vector<std::string> covFuncs; std::map<std::string,int> covIdx; std::vector<char> covHit; 
  std::map<std::string,long> assertHits, assertDis, coverHits, unsupWhy, unresolvedWhy, stubHits; std::vector<std::string> samples; std::vector<std::string> confirmedL; void confirmedW(const std::string&l){ std::ofstream f(opt.workdir+"/res_"+opt.entry+".v"+std::to_string(getpid()),std::ios::app); std::string t=l; for(auto&c:t)if(c=='\n'||c=='\t')c=' '; f<<"V\t"<<t<<"\n"; } std::map<std::string,int> replayCount; std::set<std::string> confirmedKnown;
  std::deque<std::shared_ptr<Assign>> recent; std::unordered_map<std::string,std::pair<int,std::shared_ptr<Assign>>> qcache;
  int tracesDone=0; uint64_t rngState=88172645463325252ULL; bool isMain=true; long myPaths=0; std::map<std::string,long> noteHits;
  std::unordered_map<std::string,double> siteTime;

  // ---------- memory
  Obj* objR(uint32_t id){ uint32_t c=id>>6; if(c>=S->mem.size()||!S->mem[c])return nullptr; return S->mem[c]->o[id&63].get(); }
  Obj* objW(uint32_t id){ auto&ch=S->mem[id>>6]; if(ch.use_count()>1)ch=std::make_shared<Chunk>(*ch); auto&o=ch->o[id&63]; if(o.use_count()>1)o=std::make_shared<Obj>(*o); return o.get(); }
  void setObj(uint32_t id,std::shared_ptr<Obj> o){ uint32_t c=id>>6; if(c>=S->mem.size())S->mem.resize(c+1); if(!S->mem[c])S->mem[c]=std::make_shared<Chunk>(); else if(S->mem[c].use_count()>1)S->mem[c]=std::make_shared<Chunk>(*S->mem[c]); S->mem[c]->o[id&63]=o; }
  uint64_t alloc(uint64_t size,uint8_t kind){ uint32_t id=S->nextObj++; auto o=std::make_shared<Obj>(); o->size=size; o->kind=kind; o->pages.resize((size+255)/256); setObj(id,o); return (uint64_t)id<<32; }
  void rawRead(const Obj*o,uint64_t off,void*dst,uint64_t n){ uint8_t*d=(uint8_t*)dst; while(n){ uint64_t p=off>>8,i=off&255,m=std::min<uint64_t>(n,256-i); if(p<o->pages.size()&&o->pages[p])memcpy(d,o->pages[p]->b+i,m); else memset(d,0,m); d+=m;off+=m;n-=m; } }
  void rawWrite(Obj*o,uint64_t off,const void*src,uint64_t n){ const uint8_t*s=(const uint8_t*)src; while(n){ uint64_t p=off>>8,i=off&255,m=std::min<uint64_t>(n,256-i); auto&pg=o->pages[p]; if(!pg){ pg=std::make_shared<Page>(); memset(pg->b,0,256);} else if(pg.use_count()>1)pg=std::make_shared<Page>(*pg); memcpy(pg->b+i,s,m); s+=m;off+=m;n-=m; } }
  Obj* access(uint64_t addr,uint64_t size,const char*what){ uint32_t id=addr>>32; uint64_t off=addr&0xffffffffu; Obj*o=id?objR(id):nullptr;
    if(!o) throw Violation{"memory",std::string("invalid pointer in ")+what};
    if(o->freed) throw Violation{"memory",std::string("use after free in ")+what};
    if(o->kind==3) throw Violation{"memory",std::string("data access to function in ")+what};
    if(off+size>o->size) throw Violation{"memory",std::string("out-of-bounds ")+what+" at offset "+std::to_string(off)+" of object of "+std::to_string(o->size)+" bytes"};
    return o; }
  void clearCells(Obj*o,uint64_t off,uint64_t n){ if(o->cells.empty())return; auto it=o->cells.upper_bound(off); if(it!=o->cells.begin())--it; 
    while(it!=o->cells.end()&&it->first<off+n){ uint64_t cs=it->first,cn=it->second.size; if(cs+cn<=off){++it;continue;} Node*nd=it->second.n; it=o->cells.erase(it);
      if(cs<off) o->cells[cs]={X.bytes(nd,0,(int)(off-cs)),(uint32_t)(off-cs)}; if(cs+cn>off+n) { o->cells[off+n]={X.bytes(nd,(int)(off+n-cs),(int)(cs+cn-off-n)),(uint32_t)(cs+cn-off-n)}; it=o->cells.upper_bound(off+n);} } }
  SVal mkv(Node*n,unsigned w,Kind k){ if(n->op==I_CONST){ SVal v; v.u=w>=64?(uint64_t)n->k:((uint64_t)n->k&((1ULL<<w)-1)); return v;} if(n->op==B_CONST){SVal v;v.u=n->k!=0;return v;} if(n->op==F_CONST&&k==KF32){SVal v;v.u=u32f((float)n->d);return v;} if(n->op==F_CONST){SVal v;memcpy(&v.u,&n->d,8);return v;} SVal v;v.s=n;return v; }
  Node* nd(SVal v,unsigned w,Kind k){ if(v.s)return v.s; if(k==KF){double d;memcpy(&d,&v.u,8);return X.cf(d);} if(k==KF32) return X.cf((double)flt32(v.u)); if(w==1)return X.cb(v.u&1); if(w>=64)return X.ci((int64_t)v.u); int64_t s=(int64_t)(v.u<<(64-w))>>(64-w); return X.ci(s); }
  Node* conv(Node*n,unsigned size,Kind k){ if(k==KF){ if(n->sort==SF)return n; if(n->op==I_BITS)return n->a[0]; if(n->op==I_CONST){double d;int64_t x=(int64_t)n->k;memcpy(&d,&x,8);return X.cf(d);} if(n->op==I_ITE){ return X.ite(n->a[0],conv(n->a[1],size,k),conv(n->a[2],size,k)); } if(n->op==I_BYTES&&n->k2==8&&n->a[0]->sort==SF)return n->a[0]; throw Unsupported{"integer bits read as double"}; }
    if(k==KF32){ if(n->sort==SF) return n; if(n->op==I_CONST) return X.cf((double)flt32((uint64_t)n->k&0xffffffffu)); throw Unsupported{"integer bits read as float"}; }
    if(n->sort==SF)return X.bits(n); if(n->sort==SB) return X.ite(n,X.ci(1),X.ci(0)); if(n->op==I_BYTES&&n->k==0&&n->a[0]->sort==SI&&n->k2==(int64_t)size){ } return n; }
  SVal loadAt(const Obj*o,uint64_t off,unsigned size,Kind k){
    if(!o->cells.empty()){ auto it=o->cells.upper_bound(off); if(it!=o->cells.begin())--it; while(it!=o->cells.end()&&it->first+it->second.size<=off)++it;
      if(it!=o->cells.end()&&it->first<off+size){
        if(it->first==off&&it->second.size==size){ Node*n=conv(it->second.n,size,k); return mkv(n,size*8,k);} 
        // assemble pieces
        struct P{Node*n;unsigned len;}; std::vector<P> ps; uint64_t p=off; auto j=it;
        while(p<off+size){ if(j!=o->cells.end()&&j->first<=p&&j->first+j->second.size>p){ unsigned so=p-j->first; unsigned l=std::min<uint64_t>(j->second.size-so,off+size-p); Node*cn=j->second.n; if(cn->sort==SF)cn=X.bits(cn); Node*pn;
            if(so==0&&l==j->second.size)pn=cn; else if(cn->op!=I_BITS&&cn->op!=I_BYTES&&j->second.size==8&&l==4&&so%4==0) pn=X.wrap(X.fdiv(cn,(I128)1<<(8*so)),32); else if(cn->op!=I_BITS&&cn->op!=I_BYTES&&so==0&&(l==4||l==1||l==2)) pn=X.wrap(cn,8*l)->op==I_WRAP? X.bytes(cn,so,l):X.wrap(cn,8*l); else pn=X.bytes(cn,so,l); ps.push_back({pn,l}); p+=l; ++j; }
          else { uint64_t e=off+size; if(j!=o->cells.end()&&j->first<e)e=std::max(j->first,p+1); if(j!=o->cells.end()&&j->first+j->second.size<=p){++j;continue;} unsigned l=std::min<uint64_t>(e-p,8); uint64_t u=0; rawRead(o,p,&u,l); int64_t s=l==8?(int64_t)u:((int64_t)(u<<(64-8*l))>>(64-8*l)); ps.push_back({X.ci(s),l}); p+=l; } }
        // whole recombination
        if(ps.size()>=1&&ps[0].n->op==I_BYTES){ Node*b=ps[0].n->a[0]; int64_t next=(int64_t)ps[0].n->k; bool ok=true; for(auto&q:ps){ if(q.n->op!=I_BYTES||q.n->a[0]!=b||(int64_t)q.n->k!=next){ok=false;break;} next+=q.len; }
          if(ok){ int64_t st=(int64_t)ps[0].n->k; if(b->sort==SF){ if(st==0&&size==8) return mkv(conv(b,size,k),64,k); } else { // byte range of an integer
              if(st==0){ Node*w=X.wrap(b,8*size); if(w==b||size<8){ return mkv(conv(w,size,k),size*8,k);} }
              return mkv(conv(X.bytes(b,(int)st,size),size,k),size*8,k);} 
            if(b->sort==SF) return mkv(conv(X.bytes(b,(int)st,size),size,k),size*8,k); } }
        Node*sum=X.ci(0); unsigned pos=0; for(auto&q:ps){ sum=X.add(sum,X.mulc(pos+q.len==size?q.n:X.zext(q.n,8*q.len),(I128)1<<(8*pos))); pos+=q.len; }
        return mkv(conv(X.wrap(sum,8*size),size,k),size*8,k);
      } }
    SVal v; if(size>8) throw Unsupported{"wide load"}; rawRead(o,off,&v.u,size); return v; }
  void storeAt(Obj*o,uint64_t off,unsigned size,SVal v){ clearCells(o,off,size); if(v.s){ Node*n=v.s; if(n->sort==SB)n=X.ite(n,X.ci(1),X.ci(0)); o->cells[off]={n,size}; } else rawWrite(o,off,&v.u,size); }

  SVal load(SVal addr,unsigned size,Kind k){
    if(addr.s) addr=mkv(sub(addr.s),64,KP);
    if(!addr.s){ Obj*o=access(addr.u,size,"load"); uint64_t off=addr.u&0xffffffffu; if(!o->log.empty()){ SVal r; if(logLookup(o,X.ci(off),size,k,r))return r; o=objR(addr.u>>32);} return loadAt(o,off,size,k); }
    uint32_t id; Node*off=resolve(addr.s,size,id,"load"); Obj*o=objR(id);
    if(off->op==I_CONST) return load(SVal{((uint64_t)id<<32)+(uint64_t)off->k,nullptr},size,k);
    SVal r; if(!o->log.empty()&&logLookup(o,off,size,k,r))return r; o=objR(id);
    I128 lo=std::max<I128>(0,off->lo),hi=std::min<I128>((I128)o->size-size,off->hi); I128 step=1,res=0; strideOf(off,step,res); lo+=((res-lo)%step+step)%step;
    I128 cnt=hi<lo?0:(hi-lo)/step+1; if(cnt>300000) { uint64_t c=concretize(addr,64); return load(SVal{c,nullptr},size,k);} 
    struct G{SVal v;std::vector<std::pair<I128,I128>> iv;}; std::vector<G> gs; std::map<std::pair<uint64_t,Node*>,int> idx;
    for(I128 p=lo;p<=hi;p+=step){ SVal c=loadAt(o,(uint64_t)p,size,k); auto key=std::make_pair(c.u,c.s); auto it=idx.find(key); if(it==idx.end()){ idx[key]=gs.size(); gs.push_back({c,{{p,p}}}); } else { auto&iv=gs[it->second].iv; if(iv.back().second==p-step)iv.back().second=p; else iv.push_back({p,p}); } }
    if(gs.empty()) throw PathEnd{"infeasible address"};
    if(gs.size()==1) return gs[0].v;
    std::sort(gs.begin(),gs.end(),[](const G&a,const G&b){ if(a.iv.size()!=b.iv.size())return a.iv.size()<b.iv.size(); I128 x=0,y=0; for(auto&i:a.iv)x+=i.second-i.first; for(auto&i:b.iv)y+=i.second-i.first; return x<y; });
    auto cond=[&](G&g){ Node*c=X.cb(false); for(auto&i:g.iv){ Node*p=i.first==i.second?X.eq0(X.sub(off,X.ci(i.first))):X.and_(X.le0(X.sub(X.ci(i.first),off)),X.le0(X.sub(off,X.ci(i.second)))); c=X.or_(c,p);} return c; };
    bool anyPtr=(k==KP); for(auto&g:gs) if(!g.v.s&&k!=KF&&size==8&&g.v.u>=(1ULL<<32)) anyPtr=true;
    if(!anyPtr&&gs.size()<=10){ try{ Node*n=nd(gs.back().v,size*8,k); for(int i=(int)gs.size()-2;i>=0;i--) n=X.ite(cond(gs[i]),nd(gs[i].v,size*8,k),n); return mkv(n,size*8,k);}catch(Unsupported&){} }
    if(gs.size()>64) { // narrow by the witness first
      uint64_t c=concretize(addr,64); return load(SVal{c,nullptr},size,k); }
    for(size_t i=0;i+1<gs.size();i++) if(branchOn(cond(gs[i]))) return gs[i].v;
    return gs.back().v; }
  void strideOf(Node*off,I128&step,I128&res){ step=0; I128 c=0; if(off->op==I_LIN){ c=off->k; for(auto&t:off->terms){ I128 a=t.second<0?-t.second:t.second; I128 g=step; while(a){I128 x=g%a;g=a;a=x;} step=g; } } else step=1; if(step==0)step=1; res=((c%step)+step)%step; }
  bool logLookup(Obj*o,Node*off,unsigned size,Kind k,SVal&r){ for(int i=(int)o->log.size()-1;i>=0;i--){ auto&e=o->log[i]; Node*eo=sub(e.off); Node*d=X.sub(off,eo); if(d->lo>=(I128)e.size||d->hi<=-(I128)size)continue; if(e.size!=size) { I128 st,rs; strideOf(d,st,rs); // overlap impossible by alignment?
          bool poss=false; if(st>64) st=st; for(I128 q=-(I128)size+1;q<(I128)e.size;q++) if(((q-rs)%st+st)%st==0)poss=true; if(!poss)continue; throw Unsupported{"partially overlapping symbolic stores"}; }
        I128 st,rs; strideOf(d,st,rs); if(d->op!=I_CONST) for(I128 q=-(I128)size+1;q<(I128)e.size;q++) if(q!=0&&((q-rs)%st+st)%st==0){ if(!mustNotOverlap(d,size)) throw Unsupported{"unaligned symbolic access"}; break; }
        if(d->op==I_CONST){ if(d->k!=0) throw Unsupported{"partially overlapping symbolic stores"}; }
        SVal ev=e.v; Kind ek=e.kind; if(branchOn(X.eq0(d))){ if(ev.s){ Node*n=conv(ev.s,size,k); r=mkv(n,size*8,k);} else r=ev; (void)ek; return true; }
        o=o; }
    return false; }
  bool mustNotOverlap(Node*d,unsigned size){ Node*c=X.cb(false); for(I128 q=-(I128)size+1;q<(I128)size;q++) if(q!=0) c=X.or_(c,X.eq0(X.sub(d,X.ci(q)))); std::shared_ptr<Assign> w; return solve(c,nullptr)==0; }
  // resolve a symbolic address to one object and an in-bounds offset
  Node* resolve(Node*a,unsigned size,uint32_t&id,const char*what){
    I128 base; if(a->op==I_LIN) id=(uint32_t)((a->k+(1<<20))>>32); else id=0;
    Obj*o=id?objR(id):nullptr; bool ok=o&&!o->freed&&a->lo>=((I128)id<<32)-((I128)1<<31)&&a->hi<=((I128)id<<32)+((I128)1<<31);
    if(!ok){ uint64_t c=concretize(SVal{0,a},64); id=c>>32; access(c,size,what); return X.ci(c&0xffffffffu); }
    base=(I128)id<<32; Node*off=X.sub(a,X.ci(base));
    if(off->lo<0||off->hi+size>(I128)o->size){ Node*in=X.and_(X.le0(X.mulc(off,-1)),X.le0(X.sub(X.add(off,X.ci(size)),X.ci((I128)o->size)))); if(!branchOn(in)) throw Violation{"memory",std::string("out-of-bounds symbolic ")+what+" of object of "+std::to_string(o->size)+" bytes"}; off=sub(off); }
    return off; }
  void store(SVal addr,unsigned size,SVal v,Kind k){
    if(addr.s) addr=mkv(sub(addr.s),64,KP);
    if(addr.s){ uint32_t id; Node*off=resolve(addr.s,size,id,"store"); Obj*o=objR(id); if(off->op!=I_CONST){ I128 st,rs; strideOf(off,st,rs); I128 lo=std::max<I128>(0,off->lo),hi=std::min<I128>((I128)o->size-size,off->hi); I128 cnt=(hi-lo)/st+1; if(cnt<=opt.symStoreFork){ uint64_t c=concretize(addr,64); addr=SVal{c,nullptr}; } else { if(o->ro) throw Violation{"memory","store to constant"}; objW(id)->log.push_back({off,size,v,k}); return; } } else addr=SVal{((uint64_t)id<<32)+(uint64_t)off->k,nullptr}; }
    Obj*o=access(addr.u,size,"store"); if(o->ro) throw Violation{"memory","store to constant"}; uint64_t off=addr.u&0xffffffffu; o=objW(addr.u>>32);
    if(!o->log.empty()){ bool clash=false; for(auto&e:o->log){ Node*d=X.sub(X.ci(off),sub(e.off)); if(!(d->lo>=(I128)e.size||d->hi<=-(I128)size))clash=true; } if(clash){ o->log.push_back({X.ci(off),size,v,k}); return; } }
    storeAt(o,off,size,v); }
  void copyMem(uint64_t d,uint64_t s,uint64_t n){ if(!n)return; Obj*so=access(s,n,"memcpy source"); access(d,n,"memcpy destination"); uint64_t soff=s&0xffffffffu,doff=d&0xffffffffu;
    auto clash=[&](Obj*o,uint64_t a){ for(auto&e:o->log){ Node*x=sub(e.off); if(!(x->hi+(I128)e.size<=(I128)a||x->lo>=(I128)(a+n)))return true; } return false; };
    if(clash(so,soff)||clash(objR(d>>32),doff)) throw Unsupported{"memcpy over symbolic stores"};
    std::vector<uint8_t> buf(n); rawRead(so,soff,buf.data(),n); std::vector<std::pair<uint64_t,Cell>> cs;
    auto it=so->cells.upper_bound(soff); if(it!=so->cells.begin())--it; for(;it!=so->cells.end()&&it->first<soff+n;++it){ uint64_t a=it->first,b=a+it->second.size; if(b<=soff)continue; uint64_t x=std::max(a,soff),y=std::min(b,soff+n); Node*nn=it->second.n; if(x!=a||y!=b) nn=X.bytes(nn,(int)(x-a),(int)(y-x)); cs.push_back({x-soff,{nn,(uint32_t)(y-x)}}); }
    Obj*o=objW(d>>32); if(o->ro) throw Violation{"memory","memcpy to constant"}; clearCells(o,doff,n); rawWrite(o,doff,buf.data(),n); for(auto&c:cs)o->cells[doff+c.first]=c.second; }
  void setMem(uint64_t d,int val,uint64_t n){ if(!n)return; access(d,n,"memset"); Obj*o=objW(d>>32); clearCells(o,d&0xffffffffu,n); std::vector<uint8_t> b(n,(uint8_t)val); rawWrite(o,d&0xffffffffu,b.data(),n); }
  void freeMem(SVal p){ uint64_t a=p.s?concretize(p,64):p.u; if(!a)return; Obj*o=objR(a>>32); if(!o||(a&0xffffffffu)||o->kind!=2) throw Violation{"memory","invalid free"}; if(o->freed) throw Violation{"memory","double free"}; setObj(a>>32,tomb); }
  std::string cstr(uint64_t a){ std::string s; for(;;a++){ Obj*o=access(a,1,"string"); SVal v=loadAt(o,a&0xffffffffu,1,KI); if(v.s) throw Unsupported{"symbolic string"}; if(!v.u)break; s+=(char)v.u; if(s.size()>100000) throw Unsupported{"long string"}; } return s; }

  // ---------- path condition
  Node* sub(Node*n){ Known*k=S->known.get(); if(!k||!(n->bloom&k->bloom))return n; return sub1(n,*k); }
  Node* sub1(Node*n,Known&k){ if(!(n->bloom&k.bloom))return n; auto v=k.val.find(n); if(v!=k.val.end())return v->second; auto m=k.memo.find(n); if(m!=k.memo.end())return m->second; Node*r=X.rebuild(n,[&](Node*c){return sub1(c,k);}); if(r!=n){ auto v2=k.val.find(r); if(v2!=k.val.end())r=v2->second; } k.memo[n]=r; return r; }
  void learn(Node*n,Node*v){ if(n->isConst())return; auto nk=std::make_shared<Known>(); if(S->known){nk->val=S->known->val;nk->bloom=S->known->bloom;} nk->val[n]=v; nk->bloom|=1ULL<<((n->id*0x9e3779b97f4a7c15ULL)>>58); S->known=nk; }
  void pushLit(Node*c,bool raw){ S->pc.push_back({c,raw,nullptr,nullptr}); }
  void assume(Node*c){ // c holds on this path
    if(c->op==B_CONST){ if(!c->k) S->dead=true; return; }
    if(c->op==B_AND){assume(c->a[0]);assume(c->a[1]);return;}
    if(c->op==B_NOT&&c->a[0]->op==B_OR){assume(X.not_(c->a[0]->a[0]));assume(X.not_(c->a[0]->a[1]));return;}
    if(c->op==B_EQ0){ Node*x=c->a[0]; Node*atom=nullptr; I128 v=0; if(x->op==I_LIN){ if(x->terms.size()==1){ atom=x->terms[0].first; v=-x->k/x->terms[0].second; } } else if(x->op!=I_MUL){ atom=x; v=0; }
      if(atom){ if(atom->op==I_FLOOR||atom->op==I_TRUNC||atom->op==I_ROUND){ Node*f=atom->a[0]; double k=(double)v; Node*lo,*hi;
          if(atom->op==I_FLOOR){ lo=X.not_(X.flt(f,X.cf(k))); hi=X.flt(f,X.cf(k+1)); }
          else if(atom->op==I_TRUNC){ if(v>0){ lo=X.not_(X.flt(f,X.cf(k))); hi=X.flt(f,X.cf(k+1)); } else if(v<0){ lo=X.flt(X.cf(k-1),f); hi=X.not_(X.flt(X.cf(k),f)); } else { lo=X.flt(X.cf(-1),f); hi=X.flt(f,X.cf(1)); } }
          else { if(v>0){ lo=X.not_(X.flt(f,X.cf(k-.5))); hi=X.flt(f,X.cf(k+.5)); } else if(v<0){ lo=X.flt(X.cf(k-.5),f); hi=X.not_(X.flt(X.cf(k+.5),f)); } else { lo=X.flt(X.cf(-.5),f); hi=X.flt(f,X.cf(.5)); } }
          learn(atom,X.ci(v)); learn(c,X.cb(true)); assume(lo); assume(hi); return; }
        pushLit(c,true); learn(atom,X.ci(v)); learn(c,X.cb(true)); return; }
      pushLit(c,false); learn(c,X.cb(true)); return; }
    if(c->op==B_FEQ&&c->a[1]->isConst()){ pushLit(c,true); learn(c->a[0],c->a[1]); learn(c,X.cb(true)); return; }
    if(c->op==B_FEQ&&c->a[0]->isConst()){ pushLit(c,true); learn(c->a[1],c->a[0]); learn(c,X.cb(true)); return; }
    pushLit(c,false); if(c->op==B_NOT) learn(c->a[0],X.cb(false)); else learn(c,X.cb(true));
    if(c->op==B_LE0) { Node*n=X.not_(c); learn(n,X.cb(false)); }
  }
  Node* litSub(Lit&l){ if(l.raw||!S->known)return l.orig; if(l.ver==S->known.get()&&l.sub)return l.sub; Known&k=*S->known; Node*n=l.orig; Node*r;
    auto kids=[&](Node*x){ return (x->bloom&k.bloom)?X.rebuild(x,[&](Node*c){return sub1(c,k);}):x; };
    if(n->op==B_NOT) r=X.not_(kids(n->a[0])); else r=kids(n); l.sub=r; l.ver=S->known.get(); return r; }
  bool evalPC(Assign&A){ for(auto&l:S->pc) if(!X.eval(l.orig,A).b)return false; return true; }
  Val dflt(int i){ auto&v=X.vars[i]; Val r; rngState^=rngState<<13; rngState^=rngState>>7; rngState^=rngState<<17; uint64_t h=rngState; if(v.sort==SI){ I128 n=v.hi-v.lo+1; r.i=v.lo+(I128)(h%(uint64_t)(n>((I128)1<<62)?((I128)1<<62):n)); } else if(v.sort==SF){ double t=(double)(h>>11)/9007199254740992.0; r.d=v.flo+(v.fhi-v.flo)*t; if(v.quantum>0) r.d=std::round(r.d/v.quantum)*v.quantum; else { double s=std::ldexp(1,-8); double x=std::round(r.d/s)*s; if(x>=v.flo&&x<=v.fhi)r.d=x; } if(r.d<v.flo)r.d=v.flo; if(r.d>v.fhi)r.d=v.fhi; } else r.b=h&1; return r; }
  void grow(Assign&A){ while(A.v.size()<X.vars.size()){ A.v.push_back(dflt(A.v.size())); } }

  bool asserting=false;
  // solve PC && extra.  0 unsat, 1 sat, 2 unknown. *wit gets a validated witness if one is found.
  int solve(Node*extra,std::shared_ptr<Assign>*wit,bool needWit=false){
    if(extra->op==B_CONST&&!extra->k)return 0;
    bool full=!S->wit;
    std::vector<Node*> cs; std::vector<Node*> cand; cand.reserve(S->pc.size());
    for(auto&l:S->pc){ Node*n=litSub(l); if(n->op==B_CONST){ if(!n->k)return 0; continue; } cand.push_back(n); }
    if(extra->op!=B_CONST)cs.push_back(extra);
    Deps d=extra->deps; 
    std::vector<char> in(cand.size(),0);
    if(full&&wit){ for(size_t i=0;i<cand.size();i++){in[i]=1;d.add(cand[i]->deps);} }
    else { bool ch=true; while(ch){ ch=false; for(size_t i=0;i<cand.size();i++) if(!in[i]&&cand[i]->deps.meets(d)){ in[i]=1; Deps o=d; d.add(cand[i]->deps); ch=true; (void)o; } } }
    std::vector<uint32_t> ids; for(size_t i=0;i<cand.size();i++)if(in[i]){cs.push_back(cand[i]);}
    for(auto n:cs)ids.push_back(n->id); std::sort(ids.begin(),ids.end()); ids.erase(std::unique(ids.begin(),ids.end()),ids.end());
    std::string key((char*)ids.data(),ids.size()*4); key+=full&&wit?'F':'S'; if(asserting)key+='A';
    auto it=qcache.find(key); if(it!=qcache.end()){ int r=it->second.first; if(r==0){sh->qcache++;return 0;} if(!wit){sh->qcache++;return r;} if(it->second.second){ auto w=merge(it->second.second,d); if(w&&validate(*w,extra)){ sh->qcache++; *wit=w; return 1; } } else if(r==2){ sh->qcache++; return 2; } }
    // recent witnesses
    if(wit){ int cnt=0; for(auto&a:recent){ if(++cnt>12)break; auto w=merge(a,d); if(w&&validate(*w,extra)){ sh->qcache++; *wit=w; qcache[key]={1,a}; return 1; } } }
    double ts=now(); int r; std::shared_ptr<Assign> found; 
    r=z3solve(cs,d,extra,wit?&found:nullptr,full);
    sh->queries++; sh->solverUs+=(long)((now()-ts)*1e6); if(opt.verbose&&now()-ts>0.5) fprintf(stderr,"slow query %.1fs r=%d wit=%d/%d n=%zu at %s: %s\n",now()-ts,r,wit?1:0,found?1:0,cs.size(),fr?loc().c_str():"",X.str(extra,5).substr(0,300).c_str()); if(r==0)sh->qunsat++; else if(r==1)sh->qsat++; else sh->qunk++;
    if(found&&wit){ *wit=found; recent.push_front(found); if(recent.size()>24)recent.pop_back(); }
    qcache[key]={r,found}; return r; }
  std::shared_ptr<Assign> merge(const std::shared_ptr<Assign>&a,const Deps&d){ auto w=std::make_shared<Assign>(); if(S->wit){grow(*S->wit);w->v=S->wit->v;} else grow(*w); for(size_t i=0;i<a->v.size()&&i<w->v.size();i++) if(d.w[i/64]>>(i%64)&1) w->v[i]=a->v[i]; grow(*w); return w; }
  bool validate(Assign&A,Node*extra){ grow(A); if(!X.eval(extra,A).b)return false; return evalPC(A); }
  static double zdouble(const z3::expr&e){ std::string s; if(e.is_numeral()||e.is_algebraic()){ s=Z3_get_numeral_decimal_string(e.ctx(),e,60); if(!s.empty()&&s.back()=='?')s.pop_back(); return strtod(s.c_str(),nullptr);} return 0; }
  int z3solve(const std::vector<Node*>&cs,const Deps&d,Node*extra,std::shared_ptr<Assign>*found,bool full){
    bool nl=false,hasInt=false; for(auto n:cs){nl|=n->nl;hasInt|=n->hasInt;}
    std::vector<z3::expr> cons; for(auto n:cs)cons.push_back(X.zbool(n));
    int result=2;
    auto attempt=[&](int kind,bool grid,unsigned rl,z3::expr*block)->int{
      std::vector<z3::expr> defs; X.collectDefs(cs,defs,grid);
      z3::solver s= kind==0? z3::solver(X.ctx,z3::solver::simple()) : kind==1? z3::tactic(X.ctx,"qfnra-nlsat").mk_solver() : z3::solver(X.ctx);
      z3::params p(X.ctx); p.set("rlimit",rl); p.set("timeout",(unsigned)std::max(1000.0,std::min(opt.qtime*1000,(opt.time+5-(now()-t0))*1000))); s.set(p);
      for(auto&e:cons)s.add(e); for(auto&e:defs)s.add(e); if(block)s.add(*block);
      z3::check_result cr; try{ cr=s.check(); }catch(z3::exception&e){ return 2; }
      if(cr==z3::unsat)return 0; if(cr==z3::unknown)return 2;
      if(found){ z3::model m=s.get_model(); std::vector<std::pair<int,Val>> mv;
        for(size_t i=0;i<X.vars.size();i++) if((d.w[i/64]>>(i%64)&1)&&X.vars[i].node&&(X.vars[i].node->zR||X.vars[i].node->zFP||full)){ auto&v=X.vars[i]; Val x; if(v.sort==SI){ z3::expr e=m.eval(X.zint(v.node),true); std::string t=Z3_get_numeral_string(X.ctx,e); x.i=strtoll(t.c_str(),nullptr,10);} else if(v.sort==SB){ x.b=m.eval(X.zbool(v.node),true).is_true(); } else if(X.fpIEEE){ z3::expr e=m.eval(X.zfp(v.node),true); z3::expr b=m.eval(z3::expr(X.ctx,Z3_mk_fpa_to_ieee_bv(X.ctx,e)),true); uint64_t u=b.get_numeral_uint64(); memcpy(&x.d,&u,8);} else { x.d=zdouble(m.eval(X.zreal(v.node),true)); if(v.quantum>0)x.d=std::round(x.d/v.quantum)*v.quantum; x.d=std::min(std::max(x.d,v.flo),v.fhi);} mv.push_back({(int)i,x}); }
        double snaps[]={0,0x1p-20,0x1p-10,0x1p-30,0x1p-4,0x1p-40}; for(double sn:snaps){ auto w=std::make_shared<Assign>(); if(S->wit){grow(*S->wit);w->v=S->wit->v;} grow(*w); for(auto&x:mv){ Val y=x.second; if(sn>0&&X.vars[x.first].sort==SF&&X.vars[x.first].quantum==0){ double t=std::round(y.d/sn)*sn; if(t>=X.vars[x.first].flo&&t<=X.vars[x.first].fhi)y.d=t; } w->v[x.first]=y; } if(validate(*w,extra)){ *found=w; break; } if(X.fpIEEE)break; } }
      return 1; };
    unsigned rl=opt.rlimit;
    bool hasGrid=false; for(size_t i=0;i<X.vars.size();i++) if((d.w[i/64]>>(i%64)&1)&&X.vars[i].quantum>0)hasGrid=true;
    if(X.fpIEEE) return attempt(2,false,rl*20,nullptr);
    if(nl){ result=attempt(0,false,rl/8,nullptr); if(result==2&&!hasInt) result=attempt(1,false,rl,nullptr); if(result==2) result=attempt(0,false,rl,nullptr); if(result==2) result=attempt(1,false,rl,nullptr); }
    else { result=attempt(0,false,rl,nullptr); if(result==2)result=attempt(2,false,rl,nullptr); }
    if(result==1&&found&&!*found&&hasGrid){ int r2=attempt(0,true,asserting?rl:rl/20,nullptr); if(r2==0)return 0; }
    if(result==1&&found&&!*found){ // margin: look for a point away from rounding edges
      z3::expr b=X.ctx.bool_val(true); bool any=false; for(auto n:cs){ Node*a=n; bool neg=false; if(a->op==B_NOT){neg=true;a=a->a[0];} if(a->op==B_LT){ any=true; double m=std::max(1e-9,4*(a->a[0]->E+a->a[1]->E)); z3::expr x=X.zreal(a->a[0]),y=X.zreal(a->a[1]); z3::expr mm=X.ctx.real_val(std::to_string(m).c_str()); std::ostringstream os; os.precision(20); os<<std::fixed<<m; mm=X.ctx.real_val(os.str().c_str()); b=b&&(neg? y+mm<=x : x+mm<=y); } }
      if(any) attempt(nl&&!hasInt?1:0,hasGrid&&asserting,asserting?rl/2:rl/20,&b);
      if(!*found&&asserting){ // the same for the comparisons nested within the assertion, whatever their outcome
        std::vector<Node*> st{extra}; std::unordered_set<Node*> seen; z3::expr b2=X.ctx.bool_val(true); int at=0;
        while(!st.empty()&&at<64){ Node*n=st.back(); st.pop_back(); if(!n||!seen.insert(n).second)continue; if(seen.size()>4000){at=0;break;}
          if(n->op==B_LT){ at++; double m=std::max(1e-9,4*(n->a[0]->E+n->a[1]->E)); std::ostringstream os; os.precision(20); os<<std::fixed<<m; z3::expr mm=X.ctx.real_val(os.str().c_str()),x=X.zreal(n->a[0]),y=X.zreal(n->a[1]); b2=b2&&(x+mm<=y||y+mm<=x); }
          for(auto c:n->a)st.push_back(c); for(auto&t:n->terms)st.push_back(t.first); }
        if(at) attempt(nl&&!hasInt?1:0,hasGrid,rl/2,&b2); } }
    return result; }

  // decide a condition on the current path; forks when both outcomes are possible
  bool branchOn(Node*c){
    c=sub(c); if(c->op==B_CONST)return c->k!=0;
    Node*nc=X.not_(c);
    if(S->wit){ grow(*S->wit); bool v=X.eval(c,*S->wit).b; Node*oth=v?nc:c; std::shared_ptr<Assign> w; int r=solve(oth,&w);
      if(r==0){ assumeKnown(v?c:nc); return v; }
      forkOther(oth,w); assume(v?c:nc); return v; }
    std::shared_ptr<Assign> w1,w2; int r1=solve(c,&w1); if(r1==0){ std::shared_ptr<Assign> w; assumeKnown(nc); return false; } int r2=solve(nc,&w2); if(r2==0){ assumeKnown(c); if(w1)S->wit=w1; return true; }
    forkOther(nc,w2); assume(c); S->wit=w1; return true; }
  // c is implied by PC: remember it for rewriting only (no new literal needed)
  void assumeKnown(Node*c){ if(c->op==B_AND){assumeKnown(c->a[0]);assumeKnown(c->a[1]);return;} 
    if(c->op==B_EQ0){ assume(c); return; }
    if(c->op==B_NOT) learnImplied(c->a[0],X.cb(false)); else learnImplied(c,X.cb(true)); }
  // implied facts must not be used to drop the literals that imply them: they are kept separately
  std::unordered_map<Node*,Node*> dummy;
  void learnImplied(Node*n,Node*v){ pushLit(v->k?n:X.not_(n),false); learn(n,v); }
  void forkOther(Node*c,std::shared_ptr<Assign> w){ sh->forks++; work.push_back(*S); State*cur=S; S=&work.back(); S->wit=w; if(!w)sh->witless++; assume(c); bool dead=S->dead; S=cur; if(dead)work.pop_back(); }
  uint64_t concretize(SVal v,unsigned w){ if(!v.s)return v.u; Node*n=sub(v.s); if(n->op==I_CONST){ return mkv(n,w,KI).u; } if(n->sort==SB) return branchOn(n)?1:0; if(n->sort==SF) throw Unsupported{"concretization of a double"};
    I128 k; if(S->wit){ grow(*S->wit); k=X.eval(n,*S->wit).i; } else k=modelValue(n);
    if(n->lo==n->hi)k=n->lo;
    if(branchOn(X.eq0(X.sub(n,X.ci(k))))) return mkv(X.ci(k),w,KI).u;
    // no: other value, retry on this path
    return concretize(v,w); }
  I128 modelValue(Node*n){ std::vector<Node*> cs; for(auto&l:S->pc){Node*x=litSub(l); if(x->op==B_CONST){ if(!x->k)throw PathEnd{"infeasible"}; continue;} cs.push_back(x);} std::vector<Node*> roots=cs; z3::expr e=X.zint(n); roots.push_back(n); std::vector<z3::expr> defs; z3::solver s(X.ctx,z3::solver::simple()); z3::params p(X.ctx); p.set("rlimit",opt.rlimit); p.set("timeout",(unsigned)(opt.qtime*1000)); s.set(p); for(auto x:cs)s.add(X.zbool(x)); X.collectDefs(roots,defs,false); for(auto&x:defs)s.add(x); sh->queries++; double ts=now(); auto r=s.check(); sh->solverUs+=(long)((now()-ts)*1e6); if(r==z3::unsat){sh->qunsat++; throw PathEnd{"infeasible"};} if(r==z3::unknown){sh->qunk++; throw Unsupported{"no model for concretization"};} sh->qsat++; std::string t=Z3_get_numeral_string(X.ctx,s.get_model().eval(e,true)); return (I128)strtoll(t.c_str(),nullptr,10); }

  // ---------- decode
  unsigned nslots(Type*t){ if(auto*st=dyn_cast<StructType>(t)){unsigned n=0;for(auto*e:st->elements())n+=nslots(e);return n;} if(auto*at=dyn_cast<ArrayType>(t))return at->getNumElements()*nslots(at->getElementType()); if(auto*vt=dyn_cast<FixedVectorType>(t))return vt->getNumElements(); if(t->isVoidTy())return 0; return 1; }
  Kind kindOf(Type*t){ if(t->isPointerTy())return KP; if(t->isDoubleTy())return KF; if(t->isFloatTy())return KF32; if(t->isIntegerTy()&&t->getIntegerBitWidth()<=64)return KI; return KX; }
  void flatten(Type*t,uint64_t off,std::vector<std::pair<unsigned,unsigned>>&f,std::vector<Kind>&k){ if(auto*st=dyn_cast<StructType>(t)){auto*sl=DL->getStructLayout(st); for(unsigned i=0;i<st->getNumElements();i++)flatten(st->getElementType(i),off+sl->getElementOffset(i),f,k);} else if(auto*at=dyn_cast<ArrayType>(t)){uint64_t es=DL->getTypeAllocSize(at->getElementType()); for(unsigned i=0;i<at->getNumElements();i++)flatten(at->getElementType(),off+i*es,f,k);} else if(auto*vt=dyn_cast<FixedVectorType>(t)){uint64_t es=DL->getTypeStoreSize(vt->getElementType()); for(unsigned i=0;i<vt->getNumElements();i++)flatten(vt->getElementType(),off+i*es,f,k);} else { f.push_back({(unsigned)off,(unsigned)DL->getTypeStoreSize(t)}); k.push_back(kindOf(t)); } }
  void constSlots(const Constant*c,std::vector<SVal>&out){
    Type*t=c->getType();
    if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)){ for(unsigned i=0;i<nslots(t);i++)out.push_back(SVal{}); return; }
    if(auto*ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64){ out.push_back(SVal{ci->getValue().trunc(64).getZExtValue(),nullptr}); return;} out.push_back(SVal{ci->getZExtValue(),nullptr}); return; }
    if(auto*cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); out.push_back(SVal{b.getBitWidth()<=64?b.getZExtValue():0,nullptr}); return; }
    if(auto*ca=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<ca->getNumElements();i++)constSlots(ca->getElementAsConstant(i),out); return; }
    if(isa<ConstantAggregate>(c)){ for(auto&o:c->operands())constSlots(llvm::cast<Constant>(o),out); return; }
    if(auto*gv=dyn_cast<GlobalValue>(c)){ out.push_back(SVal{addrOf(gv),nullptr}); return; }
    if(auto*ce=dyn_cast<ConstantExpr>(c)){
      switch(ce->getOpcode()){
      case Instruction::GetElementPtr:{ std::vector<SVal> b; constSlots(ce->getOperand(0),b); APInt off(64,0); if(!llvm::cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) throw Unsupported{"gep const"}; out.push_back(SVal{b[0].u+(uint64_t)off.getSExtValue(),nullptr}); return; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: constSlots(ce->getOperand(0),out); return;
      case Instruction::Trunc: { std::vector<SVal> b; constSlots(ce->getOperand(0),b); unsigned w=ce->getType()->getIntegerBitWidth(); out.push_back(SVal{b[0].u&((1ULL<<w)-1),nullptr}); return; }
      case Instruction::Sub: case Instruction::Add: { std::vector<SVal> a,b; constSlots(ce->getOperand(0),a); constSlots(ce->getOperand(1),b); out.push_back(SVal{ce->getOpcode()==Instruction::Sub?a[0].u-b[0].u:a[0].u+b[0].u,nullptr}); return; }
      default: throw Unsupported{std::string("constant expression ")+ce->getOpcodeName()}; } }
    throw Unsupported{"constant"}; }
  uint64_t addrOf(const GlobalValue*gv){ if(auto*a=dyn_cast<GlobalAlias>(gv)){ std::vector<SVal> v; constSlots(a->getAliasee(),v); return v[0].u; } auto it=gaddr.find(gv); if(it!=gaddr.end())return it->second; throw Unsupported{"late global "+gv->getName().str()}; }
  void writeConst(Obj*o,uint64_t off,const Constant*c){ Type*t=c->getType(); if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c))return; std::vector<std::pair<unsigned,unsigned>> f; std::vector<Kind> k; 
    if(auto*cd=dyn_cast<ConstantDataSequential>(c)){ StringRef r=cd->getRawDataValues(); rawWrite(o,off,r.data(),r.size()); return; }
    if(auto*cs=dyn_cast<ConstantStruct>(c)){ auto*sl=DL->getStructLayout(cs->getType()); for(unsigned i=0;i<cs->getNumOperands();i++)writeConst(o,off+sl->getElementOffset(i),cs->getOperand(i)); return; }
    if(auto*ca=dyn_cast<ConstantArray>(c)){ uint64_t es=DL->getTypeAllocSize(ca->getType()->getElementType()); for(unsigned i=0;i<ca->getNumOperands();i++)writeConst(o,off+i*es,ca->getOperand(i)); return; }
    std::vector<SVal> v; constSlots(c,v); if(t->isX86_FP80Ty()) return; rawWrite(o,off,&v[0].u,DL->getTypeStoreSize(t)); }
  void setup(){
    S=&init; tomb->freed=true;
    auto dem=[&](const GlobalValue&g){return g.getName().str();};
    for(auto&F:*M){ if(F.isIntrinsic())continue; auto o=std::make_shared<Obj>(); o->kind=3; o->size=1; uint32_t id=S->nextObj++; setObj(id,o); gaddr[&F]=(uint64_t)id<<32; fnAt[(uint64_t)id<<32]=&F; }
    for(auto&G:M->globals()){ uint64_t sz=DL->getTypeAllocSize(G.getValueType()); if(G.isDeclaration())sz=std::max<uint64_t>(sz,4096); gaddr[&G]=alloc(sz,0); }
    for(auto&G:M->globals()) if(G.hasInitializer()){ uint64_t a=gaddr[&G]; Obj*o=objW(a>>32); writeConst(o,0,G.getInitializer()); if(G.isConstant())o->ro=true; }
    (void)dem; }
  static std::string srcRel(const std::string&root,DIScope*sc){ if(!sc)return ""; std::string f=sc->getFilename().str(); if(f.empty())return ""; std::string full=f[0]=='/'?f:(sc->getDirectory().str()+"/"+f); std::vector<std::string> parts; std::stringstream ss(full); std::string p; while(std::getline(ss,p,'/')){ if(p==""||p==".")continue; if(p==".."){if(!parts.empty())parts.pop_back();continue;} parts.push_back(p);} full=""; for(auto&q:parts)full+="/"+q; if(full.compare(0,root.size(),root)==0)return full.substr(root.size()+1); return ""; }
  int covId(const std::string&s){ auto it=covIdx.find(s); if(it!=covIdx.end())return it->second; int i=covFuncs.size(); covIdx[s]=i; covFuncs.push_back(s); covHit.push_back(0); return i; }
  DFunc* decode(const Function*F){
    auto it=dfuncs.find(F); if(it!=dfuncs.end())return it->second;
    DFunc*D=new DFunc; D->F=F; D->name=F->getName().str(); dfuncs[F]=D; std::unordered_map<const llvm::Value*,int> slot; std::unordered_map<const BasicBlock*,DBlock*> bm; std::map<const Constant*,int> cpool;
    int nr=0; for(auto&A:F->args()){ slot[&A]=nr; D->argSlot.push_back(nr); nr+=nslots(A.getType()); }
    for(auto&B:*F){ auto*db=new DBlock; db->f=D; db->bb=&B; db->id=D->blocks.size(); D->blocks.push_back(db); bm[&B]=db; for(auto&I:B){ unsigned n=nslots(I.getType()); if(n){slot[&I]=nr;nr+=n;} } }
    D->nregs=nr;
    auto operand=[&](const llvm::Value*v)->Operand{ if(auto*c=dyn_cast<Constant>(v)){ auto ci=cpool.find(c); if(ci!=cpool.end())return {~ci->second}; int i=D->consts.size(); std::vector<SVal> o; constSlots(c,o); for(auto&x:o)D->consts.push_back(x); if(o.empty())D->consts.push_back(SVal{}); cpool[c]=i; return {~i}; } auto s=slot.find(v); if(s==slot.end()) return {~0}; return {s->second}; };
    D->consts.push_back(SVal{});
    std::set<int> seenCov;
    for(auto*db:D->blocks){ std::set<int> cov;
      for(auto&I:*db->bb){ 
        if(auto loc=I.getDebugLoc()){ for(DILocation*l=loc.get();l;l=l->getInlinedAt()){ auto*sp=l->getScope()->getSubprogram(); if(!sp)continue; std::string f=srcRel(opt.srcRoot,sp->getFile()?(DIScope*)sp->getFile():(DIScope*)sp); if(f.empty())continue; std::string nm=sp->getName().str(); std::string cls; if(auto*ct=dyn_cast_or_null<DIType>(sp->getScope()))cls=ct->getName().str(); cov.insert(covId(f+":"+std::to_string(sp->getLine())+" "+(cls.empty()?"":cls+"::")+nm)); } }
        if(isa<PHINode>(I)||isa<DbgInfoIntrinsic>(I))continue;
        DInst d; d.op=I.getOpcode(); d.I=&I; if(slot.count(&I)&&nslots(I.getType()))d.dst=slot[&I]; d.nslots=nslots(I.getType()); Type*t=I.getType(); if(t->isIntegerTy())d.w=t->getIntegerBitWidth(); else if(t->isPointerTy()||t->isDoubleTy())d.w=64; else if(t->isFloatTy())d.w=32; d.kind=kindOf(t);
        try{ decodeInst(d,I,operand,bm); }catch(Unsupported&u){ d.op=0; noteHits["decode: "+u.what]++; }
        db->insts.push_back(std::move(d)); }
      db->cov.assign(cov.begin(),cov.end());
      for(auto&I:*db->bb){ auto*P=dyn_cast<PHINode>(&I); if(!P)break; for(unsigned i=0;i<P->getNumIncomingValues();i++){ Operand o; try{o=operand(P->getIncomingValue(i));}catch(Unsupported&){o={~0};} db->phis[bm[P->getIncomingBlock(i)]].push_back({slot[P],o,(int)nslots(P->getType())}); } }
    }
    return D; }
  template<class OP,class BM> void decodeInst(DInst&d,const Instruction&I,OP&operand,BM&bm){
    if(auto*br=dyn_cast<BranchInst>(&I)){ if(br->isConditional()){ d.ops.push_back(operand(br->getCondition())); d.t1=bm[br->getSuccessor(0)]; d.t2=bm[br->getSuccessor(1)]; } else d.t1=bm[br->getSuccessor(0)]; return; }
    if(auto*sw=dyn_cast<SwitchInst>(&I)){ d.ops.push_back(operand(sw->getCondition())); d.w=sw->getCondition()->getType()->getIntegerBitWidth(); d.t1=bm[sw->getDefaultDest()]; for(auto&c:sw->cases())d.cases.push_back({c.getCaseValue()->getZExtValue(),bm[c.getCaseSuccessor()]}); return; }
    if(auto*al=dyn_cast<AllocaInst>(&I)){ d.imm=DL->getTypeAllocSize(al->getAllocatedType()); d.ops.push_back(operand(al->getArraySize())); return; }
    if(auto*g=dyn_cast<GetElementPtrInst>(&I)){ if(t_isvec(g->getType())) throw Unsupported{"vector gep"}; d.ops.push_back(operand(g->getPointerOperand())); int64_t c=0; for(gep_type_iterator ti=gep_type_begin(g),te=gep_type_end(g);ti!=te;++ti){ const llvm::Value*ix=ti.getOperand(); if(StructType*st=ti.getStructTypeOrNull()){ c+=DL->getStructLayout(st)->getElementOffset(llvm::cast<ConstantInt>(ix)->getZExtValue()); continue; } int64_t sz=DL->getTypeAllocSize(ti.getIndexedType()); if(auto*ci=dyn_cast<ConstantInt>(ix)){c+=ci->getSExtValue()*sz;continue;} d.gep.push_back({operand(ix),sz}); d.argSlots.push_back(ix->getType()->getIntegerBitWidth()); } d.imm=c; return; }
    if(isa<LoadInst>(I)){ d.ops.push_back(operand(llvm::cast<LoadInst>(I).getPointerOperand())); flatten(I.getType(),0,d.flat,d.fkinds); d.size=DL->getTypeStoreSize(I.getType()); return; }
    if(auto*st=dyn_cast<StoreInst>(&I)){ d.ops.push_back(operand(st->getValueOperand())); d.ops.push_back(operand(st->getPointerOperand())); flatten(st->getValueOperand()->getType(),0,d.flat,d.fkinds); return; }
    if(auto*ev=dyn_cast<ExtractValueInst>(&I)){ d.ops.push_back(operand(ev->getAggregateOperand())); Type*t=ev->getAggregateOperand()->getType(); unsigned o=0; for(unsigned ix:ev->indices()){ if(auto*s=dyn_cast<StructType>(t)){for(unsigned i=0;i<ix;i++)o+=nslots(s->getElementType(i)); t=s->getElementType(ix);} else {auto*at=llvm::cast<ArrayType>(t); o+=ix*nslots(at->getElementType()); t=at->getElementType();} } d.imm=o; return; }
    if(auto*iv=dyn_cast<InsertValueInst>(&I)){ d.ops.push_back(operand(iv->getAggregateOperand())); d.ops.push_back(operand(iv->getInsertedValueOperand())); Type*t=iv->getAggregateOperand()->getType(); unsigned o=0; for(unsigned ix:iv->indices()){ if(auto*s=dyn_cast<StructType>(t)){for(unsigned i=0;i<ix;i++)o+=nslots(s->getElementType(i)); t=s->getElementType(ix);} else {auto*at=llvm::cast<ArrayType>(t); o+=ix*nslots(at->getElementType()); t=at->getElementType();} } d.imm=o; d.size=nslots(t); return; }
    if(auto*ee=dyn_cast<ExtractElementInst>(&I)){ d.ops.push_back(operand(ee->getVectorOperand())); d.imm=llvm::cast<ConstantInt>(ee->getIndexOperand())->getZExtValue(); d.op=Instruction::ExtractValue; return; }
    if(auto*ie=dyn_cast<InsertElementInst>(&I)){ d.ops.push_back(operand(ie->getOperand(0))); d.ops.push_back(operand(ie->getOperand(1))); d.imm=llvm::cast<ConstantInt>(ie->getOperand(2))->getZExtValue(); d.size=1; d.op=Instruction::InsertValue; return; }
    if(auto*cb=dyn_cast<CallBase>(&I)){
      if(auto*iv=dyn_cast<InvokeInst>(&I)){ d.t1=bm[iv->getNormalDest()]; d.t2=bm[iv->getUnwindDest()]; }
      const llvm::Value*cv=cb->getCalledOperand()->stripPointerCasts(); const Function*cf=dyn_cast<Function>(cv);
      if(auto*ga=dyn_cast<GlobalAlias>(cv))cf=dyn_cast<Function>(ga->getAliaseeObject());
      if(cf&&cf->isIntrinsic()){ d.iid=cf->getIntrinsicID(); if(d.iid==Intrinsic::lifetime_start||d.iid==Intrinsic::lifetime_end||d.iid==Intrinsic::assume||d.iid==Intrinsic::experimental_noalias_scope_decl||d.iid==Intrinsic::donothing){ d.model=-2; return; } }
      for(auto&a:cb->args()){ if(isa<MetadataAsValue>(a.get())){d.ops.push_back({~0});d.argSlots.push_back(1);continue;} d.ops.push_back(operand(a.get())); d.argSlots.push_back(nslots(a->getType())); }
      if(cf){ if(!cf->isIntrinsic()){ d.calleeAddr=gaddr[cf]; } } else d.ops.push_back(operand(cb->getCalledOperand()));
      for(unsigned i=0;i<cb->arg_size();i++) d.flat.push_back({i,cb->getArgOperand(i)->getType()->isIntegerTy()?cb->getArgOperand(i)->getType()->getIntegerBitWidth():64});
      return; }
    if(auto*ic=dyn_cast<ICmpInst>(&I)){ d.pred=ic->getPredicate(); Type*t=ic->getOperand(0)->getType(); if(t->isVectorTy())throw Unsupported{"vector icmp"}; d.w2=t->isPointerTy()?64:t->getIntegerBitWidth(); d.kind=t->isPointerTy()?KP:KI; if(d.w2>64)throw Unsupported{"i128"}; }
    else if(auto*fc=dyn_cast<FCmpInst>(&I)){ d.pred=fc->getPredicate(); d.kind=kindOf(fc->getOperand(0)->getType()); }
    else if(isa<CastInst>(I)){ Type*t=I.getOperand(0)->getType(); if(t->isVectorTy()||I.getType()->isVectorTy()) { if(I.getOpcode()!=Instruction::BitCast) throw Unsupported{"vector cast"}; throw Unsupported{"vector bitcast"}; } d.w2=t->isIntegerTy()?t->getIntegerBitWidth():64; if((t->isIntegerTy()&&d.w2>64)||d.kind==KX||kindOf(t)==KX)throw Unsupported{"wide cast"}; d.pred=kindOf(t); }
    else if(I.getType()->isVectorTy()&&!isa<SelectInst>(I)&&!isa<FreezeInst>(I)) throw Unsupported{"vector instruction"};
    else if(I.isBinaryOp()&&d.kind==KX) throw Unsupported{"wide arithmetic"};
    for(auto&o:I.operands()) if(!isa<BasicBlock>(o.get())) d.ops.push_back(operand(o.get()));
  }
  static bool t_isvec(Type*t){return t->isVectorTy();}

  // ---------- execution
  Frame*fr=nullptr;
  inline SVal get(Operand o){ if(o.slot<0)return fr->f->consts[~o.slot]; return fr->regs[o.slot]; }
  inline SVal get(Operand o,int i){ if(o.slot<0)return fr->f->consts[~o.slot+i]; return fr->regs[o.slot+i]; }
  SVal gets(Operand o,unsigned w,Kind k){ SVal v=get(o); if(v.s){ Node*n=sub(v.s); v=mkv(n,w,k);} return v; }
  void jump(DBlock*to){ DBlock*from=fr->bb; enter(to,from); }
  void enter(DBlock*to,DBlock*from){ fr->prev=from; fr->bb=to; fr->ip=0; if(!to->phis.empty()){ auto&pc=to->phis[from]; if(pc.size()==1&&pc[0].n==1) fr->regs[pc[0].dst]=get(pc[0].src); else { std::vector<SVal> tmp; for(auto&c:pc)for(int i=0;i<c.n;i++)tmp.push_back(get(c.src,i)); size_t j=0; for(auto&c:pc)for(int i=0;i<c.n;i++)fr->regs[c.dst+i]=tmp[j++]; } } if(!to->seen){ to->seen=true; for(int c:to->cov)covHit[c]=1; } sh_blocks++; }
  long sh_blocks=0;
  void pushFrame(DFunc*D,const std::vector<SVal>&args){ if(S->stack.size()>2000) throw Violation{"stack","stack overflow (unbounded recursion)"}; S->stack.emplace_back(); fr=&S->stack.back(); fr->f=D; fr->regs.resize(D->nregs); for(size_t i=0;i<args.size()&&i<(size_t)D->nregs;i++)fr->regs[i]=args[i]; fr->bb=nullptr; fr->prev=nullptr; fr->ip=0; DBlock*b=D->blocks[0]; fr->bb=b; if(!b->seen){b->seen=true;for(int c:b->cov)covHit[c]=1;} }
  void popFrame(const std::vector<SVal>&ret){ for(uint32_t a:S->stack.back().allocas) setObj(a,tomb); S->stack.pop_back(); if(S->stack.empty()){fr=nullptr;return;} fr=&S->stack.back(); DInst&c=fr->bb->insts[fr->ip]; if(c.dst>=0)for(size_t i=0;i<ret.size();i++)fr->regs[c.dst+i]=ret[i]; if(c.t1)jump(c.t1); else fr->ip++; }
  bool step(); // executes one instruction; false when the path is finished
  Node* bitop(unsigned op,Node*x,Node*y,unsigned w); SVal binop(DInst&d); SVal icmp(DInst&d); SVal fcmp(DInst&d); SVal castOp(DInst&d); SVal fbin(unsigned op,SVal a,SVal b);
  bool callModel(DInst&d,const std::string&name,const Function*F); void intrinsic(DInst&d);
  void setDst(DInst&d,SVal v){ if(d.dst>=0)fr->regs[d.dst]=v; }
  void doCall(DInst&d);
  bool unwound=false; bool typeAccepts(uint64_t thrown,uint64_t caught); int padKind(DInst&c,uint64_t&sel); bool hasHandler(); void dropFrame(); void unwind();
  void finishCall(DInst&d){ if(d.t1&&d.I->getOpcode()==Instruction::Invoke)jump(d.t1); else fr->ip++; }
  void runAll(); void runPath(); void endPath(bool complete); void report(const std::string&kind,const std::string&msg);
  std::string loc(); bool confirm(const std::string&kind,const std::string&msg,std::shared_ptr<Assign>w,bool known); void writeCex(const std::string&file,Assign&A); void traceCheck(); void dump(); 
  void doAssert(Node*c,const std::string&msg,const std::string&known);
  Node* fpSlow(SVal v){ return nd(v,64,KF); }
  void throwMatch(DInst&d);
  Node* flr(Op kind,Node*n); void doPow(DInst&d);
  std::vector<pid_t> children; std::vector<const Function*> ctors; const Function*entryFn=nullptr; double lastFlush=0;
  bool split(); void runState(State&st); void writeRes(); int aggregate(); void callFunction(DInst&d,const Function*F); bool ifConvert(DInst&d,Node*n); uint64_t modelMalloc(DInst&d); bool dynCast(uint64_t p,uint64_t ti,uint64_t&res); std::string cstrArg(DInst&d,int i){return cstr(concretize(get(d.ops[i]),64));}
  uint64_t gsym(const char*n){ auto*g=M->getNamedValue(n); if(!g)return 0; auto it=gaddr.find(g); return it==gaddr.end()?0:it->second; }
};

static std::string jesc(const std::string&s){ std::string o; for(char c:s){ if(c=='"'||c=='\\'){o+='\\';o+=c;} else if((unsigned char)c<32)o+=' '; else o+=c; } return o; }
std::string Exec::loc(){ std::string s; int n=0; for(int i=(int)S->stack.size()-1;i>=0&&n<6;i--){ auto&f=S->stack[i]; if(!f.bb||f.ip>=(int)f.bb->insts.size())continue; if(auto l=f.bb->insts[f.ip].I->getDebugLoc()){ for(DILocation*q=l.get();q&&n<6;q=q->getInlinedAt()){ std::string fn=q->getFilename().str(); size_t p=fn.rfind('/'); if(p!=std::string::npos)fn=fn.substr(p+1); s+=(s.empty()?"":" < ")+fn+":"+std::to_string(q->getLine()); n++; } } } return s; }
void Exec::writeCex(const std::string&file,Assign&A){ grow(A); std::ofstream f(file); f<<"# counterexample for "<<opt.entry<<"\n"; for(auto&t:S->inputs){ Node*n=std::get<2>(t); Val v=X.eval(n,A); int k=std::get<1>(t); if(k==1){ uint64_t u; memcpy(&u,&v.d,8); char b[64]; snprintf(b,64,"%016lx",u); f<<std::get<0>(t)<<" f "<<b<<" # "; f.precision(17); f<<v.d<<"\n"; } else if(k==2) f<<std::get<0>(t)<<" b "<<(v.b?1:0)<<"\n"; else f<<std::get<0>(t)<<" i "<<(long long)v.i<<"\n"; } }
static int runNative(const std::string&cex,const std::string&outf,int tmo){ std::string cmd="timeout -s KILL "+std::to_string(tmo)+" "+opt.native+" "+opt.entry+" "+cex+" > "+outf+" 2>&1"; int r=system(cmd.c_str()); if(r==-1)return -1; if(WIFSIGNALED(r))return 128+WTERMSIG(r); return WEXITSTATUS(r); }
bool Exec::confirm(const std::string&kind,const std::string&msg,std::shared_ptr<Assign> w,bool known){
  std::string site=kind+"|"+msg.substr(0,msg.find(" @ ")); int&cnt=replayCount[site]; if(cnt>=opt.maxReplays)return false; cnt++; sh->cexTried++;
  std::string base=opt.workdir+"/cex_"+opt.entry+"_"+std::to_string(getpid())+"_"+std::to_string((long)sh->replays++); writeCex(base+".txt",*w); if(opt.native.empty())return true;
  int rc=runNative(base+".txt",base+".out",20);
  // 0: passes natively; 77: the inputs do not satisfy an assumption; otherwise it fails natively
  bool ok=rc!=0&&rc!=77&&rc!=78&&rc!=-1&&rc!=126&&rc!=127;
  if(ok&&known){ std::ifstream f(base+".out"); std::string t((std::istreambuf_iterator<char>(f)),std::istreambuf_iterator<char>()); }
  if(!ok){ if(opt.verbose) fprintf(stderr,"not reproduced (rc=%d): %s %s\n",rc,kind.c_str(),msg.c_str()); else { unlink((base+".txt").c_str()); unlink((base+".out").c_str()); } return false; }
  confirmedW("{\"kind\":\""+jesc(kind)+"\",\"msg\":\""+jesc(msg)+"\",\"cex\":\""+jesc(base+".txt")+"\",\"native_rc\":"+std::to_string(rc)+",\"path\":\""+jesc(loc())+"\"}");
  return true; }
void Exec::report(const std::string&kind,const std::string&msg){
  // path reached a failure unconditionally: PC itself is the counterexample
  std::shared_ptr<Assign> w=S->wit; int r=1; if(!w){ Node*t=X.cb(true); asserting=true; r=solve(t,&w); asserting=false; if(r==0){ sh->infeasible++; return; } }
  std::string m=msg+" @ "+loc();
  if(opt.verbose)fprintf(stderr,"candidate %s: %s wit=%d\n",kind.c_str(),m.c_str(),(int)!!w);
  if(opt.verbose&&!w&&getenv("SYMEX_DUMP")){ for(auto&l:S->pc){ Node*n=litSub(l); fprintf(stderr,"   PC %s   [sub: %s]\n",X.str(l.orig,8).c_str(),X.str(n,8).c_str()); } z3::solver sv(X.ctx); std::vector<Node*> cs; for(auto&l:S->pc)cs.push_back(l.orig); for(auto c:cs)sv.add(X.zbool(c)); std::vector<z3::expr> df; X.collectDefs(cs,df,false); for(auto&e:df)sv.add(e); auto r=sv.check(); std::ostringstream os; os<<sv; if(r==z3::sat)os<<"\nMODEL "<<sv.get_model(); fprintf(stderr,"   z3 %d %s\n",(int)r,os.str().c_str()); }
  if(w&&confirm(kind,m,w,false)){ sh->confirmed++; sh->stop=1; }
  else { sh->unresolved++; unresolvedWhy[kind+": "+msg+(w?" (not reproduced natively)":" (no concrete witness)")]++; } }
void Exec::doAssert(Node*c,const std::string&msg,const std::string&known){
  assertHits[msg]++; c=sub(c);
  if(c->op==B_CONST&&c->k){ sh->aConcrete++; assertDis[msg]++; return; }
  Node*nc=X.not_(c); std::shared_ptr<Assign> w; int r;
  if(c->op==B_CONST){ r=1; w=S->wit; if(!w){ r=solve(X.cb(true),&w); if(r==0){ sh->infeasible++; throw PathEnd{"infeasible"}; } } }
  else if(S->wit&&(grow(*S->wit),!X.eval(c,*S->wit).b)){ r=1; w=S->wit; }
  else { asserting=true; r=solve(nc,&w); asserting=false; }
  if(r==0){ sh->aSolver++; assertDis[msg]++; if(c->op!=B_CONST) assumeKnown(c); return; }
  std::string kind=known.empty()?"assert":"known:"+known;
  bool isKnown=!known.empty();
  bool conf=false; if(w){ if(isKnown&&confirmedKnown.count(known)) conf=true; else conf=confirm(kind,msg+" @ "+loc(),w,isKnown); }
  if(conf){ if(isKnown)confirmedKnown.insert(known); else { sh->confirmed++; sh->stop=1; throw PathEnd{"violated"}; } }
  else { if(opt.verbose&&getenv("SYMEX_DUMP")){ fprintf(stderr,"UNRESOLVED %s: %s\n",msg.c_str(),X.str(c,12).c_str()); std::function<void(Node*,int)> pr=[&](Node*n,int k){ if(n->sort==SF)fprintf(stderr,"%*s%d [%g,%g] E=%g\n",k*2,"",(int)n->op,n->flo,n->fhi,n->E); if(k<6)for(auto x:n->a)if(x)pr(x,k+1); }; pr(c,0); }
    sh->unresolved++; unresolvedWhy[kind+": "+msg+(r==2?" (solver gave up)":w?" (not reproduced natively)":" (only rounding-edge candidates)")]++; }
  if(c->op==B_CONST) throw PathEnd{"violated"};
  if(S->wit&&X.eval(c,*S->wit).b){ assume(c); } else { std::shared_ptr<Assign> w2; int r2=solve(c,&w2); if(r2==0) throw PathEnd{"violated"}; S->wit=w2; assume(c); }
}
void Exec::traceCheck(){ // validate the engine: the native build must agree with this path
  if(opt.native.empty()||!S->wit)return; std::string base=opt.workdir+"/tr_"+opt.entry+"_"+std::to_string(getpid())+"_"+std::to_string((long)sh->replays++); writeCex(base+".txt",*S->wit); int rc=runNative(base+".txt",base+".out",20); sh->traces++; bool bad=rc!=0; std::string why="rc="+std::to_string(rc);
  if(!bad){ std::ifstream f(base+".out"); std::string line; size_t i=0; while(std::getline(f,line)){ if(line.compare(0,4,"OBS ")!=0)continue; std::istringstream is(line.substr(4)); std::string nm,hex; is>>nm>>hex; uint64_t u=strtoull(hex.c_str(),nullptr,16); if(i>=S->obs.size()){bad=true;why="extra observation";break;} SVal v=S->obs[i].second; Kind k=S->obsKind[i].second; uint64_t e; if(v.s){ Val x=X.eval(v.s,*S->wit); if(k==KF)memcpy(&e,&x.d,8); else e=(uint64_t)x.i; if(v.s->sort==SB)e=x.b; } else e=v.u; double de,du; memcpy(&de,&e,8); memcpy(&du,&u,8); bool eq=e==u||(k==KF&&(de==du||(std::isnan(de)&&std::isnan(du)))); if(!eq){bad=true; why="observation "+nm+" engine="+(k==KF?std::to_string(de):std::to_string((int64_t)e))+" native="+(k==KF?std::to_string(du):std::to_string((int64_t)u));break;} i++; } if(!bad&&i!=S->obs.size()){bad=true;why="missing observation";} }
  if(bad){ sh->traceBad++; noteHits["trace mismatch: "+why]++; if(opt.verbose)fprintf(stderr,"TRACE MISMATCH %s (%s)\n",base.c_str(),why.c_str()); } if(!bad||!opt.verbose){ unlink((base+".txt").c_str()); unlink((base+".out").c_str()); } }
void Exec::endPath(bool complete){ if(!S->wit&&complete&&tracesDone<opt.traces+6){ std::shared_ptr<Assign> w; try{ solve(X.cb(true),&w); }catch(...){} S->wit=w; } sh->paths++; myPaths++; if(S->wit)sh->witPaths++; for(auto&c:S->covers)coverHits[c]++; 
  if(S->wit&&samples.size()<3){ std::string s="{"; bool f=true; int n=0; for(auto&t:S->inputs){ if(++n>24)break; Val v=X.eval(std::get<2>(t),*S->wit); char b[64]; int k=std::get<1>(t); if(k==1)snprintf(b,64,"%.17g",v.d); else if(k==2)snprintf(b,64,"%d",(int)v.b); else snprintf(b,64,"%lld",(long long)v.i); s+=(f?"":",")+("\""+jesc(std::get<0>(t))+"\":"+b); f=false; } s+="}"; samples.push_back(s); }
  if(S->wit&&complete&&(tracesDone<opt.traces||(myPaths&(myPaths-1))==0)&&tracesDone<opt.traces+6){ tracesDone++; traceCheck(); } }

// ---------- arithmetic
static inline uint64_t msk(unsigned w){return w>=64?~0ULL:(1ULL<<w)-1;}
static inline int64_t sx(uint64_t v,unsigned w){return w>=64?(int64_t)v:((int64_t)(v<<(64-w))>>(64-w));}
static inline double dbl(uint64_t u){double d;memcpy(&d,&u,8);return d;} static inline uint64_t ubl(double d){uint64_t u;memcpy(&u,&d,8);return u;}
Node* Exec::bitop(unsigned op,Node*x,Node*y,unsigned w){
  auto U=[&](I128 k){return k<0?k+((I128)1<<w):k;};
  if(x->op==I_CONST)std::swap(x,y);
  if(x==y) return op==Instruction::Xor?X.ci(0):x;
  auto b01=[](Node*n){return n->lo>=0&&n->hi<=1;}; auto bm1=[](Node*n){return n->lo>=-1&&n->hi<=0;};
  if(y->op==I_CONST&&!(b01(x)&&b01(y))){ I128 mk=U(y->k);
    if(op==Instruction::And) return X.andc(x,mk,w); if(op==Instruction::Or) return X.orI(x,y,w);
    if(y->k==-1) return X.sub(X.ci(-1),x); return X.wrap(X.sub(X.add(x,X.ci(mk)),X.mulc(X.andc(x,mk,w),2)),w); }
  if(b01(y)||bm1(y)) std::swap(x,y);
  if(b01(x)){ Node*c=X.not_(X.eq0(x));
    if(b01(y)){ Node*e=X.not_(X.eq0(y)); Node*z=op==Instruction::And?X.and_(c,e):op==Instruction::Or?X.or_(c,e):X.xor_(c,e); return X.ite(z,X.ci(1),X.ci(0)); }
    Node*l=X.fmod_(y,2); if(op==Instruction::And) return X.ite(c,l,X.ci(0));
    return X.wrap(X.add(y,X.ite(c,X.sub(X.ci(1),op==Instruction::Or?l:X.mulc(l,2)),X.ci(0))),w); }
  if(bm1(x)){ Node*c=X.not_(X.eq0(x)); return op==Instruction::And?X.ite(c,y,X.ci(0)):op==Instruction::Or?X.ite(c,X.ci(-1),y):X.ite(c,X.sub(X.ci(-1),y),y); }
  auto cst=[](Node*n){return n->op==I_ITE&&n->a[1]->isConst()&&n->a[2]->isConst();};
  if(cst(y)) std::swap(x,y);
  if(cst(x)) return X.ite(x->a[0],bitop(op,x->a[1],y,w),bitop(op,x->a[2],y,w));
  if(op==Instruction::Or){ try{ return X.orI(x,y,w);}catch(Unsupported&){} }
  if(x->lo>=0&&y->lo>=0&&x->hi<(1<<16)&&y->hi<(1<<16)){ Node*r=X.ci(0); for(int i=0;i<16&&(((I128)1<<i)<=std::max(x->hi,y->hi));i++){
      Node*a=X.fmod_(X.fdiv(x,(I128)1<<i),2),*b=X.fmod_(X.fdiv(y,(I128)1<<i),2); r=X.add(r,X.mulc(bitop(op,a,b,w),(I128)1<<i)); } return r; }
  throw Unsupported{std::string("bitwise ")+(op==Instruction::And?"and":op==Instruction::Or?"or":"xor")+" of two symbolic values"};
}
SVal Exec::binop(DInst&d){
  SVal a=gets(d.ops[0],d.w,d.kind),b=gets(d.ops[1],d.w,d.kind); unsigned w=d.w; uint64_t m=msk(w);
  if(!a.s&&!b.s){ uint64_t r=0,x=a.u,y=b.u; switch(d.op){
    case Instruction::Add:r=x+y;break; case Instruction::Sub:r=x-y;break; case Instruction::Mul:r=x*y;break;
    case Instruction::UDiv: if(!y)throw Violation{"arith","division by zero"}; r=x/y;break; case Instruction::URem: if(!y)throw Violation{"arith","division by zero"}; r=x%y;break;
    case Instruction::SDiv:{ int64_t p=sx(x,w),q=sx(y,w); if(!q)throw Violation{"arith","division by zero"}; r=q==-1?-(uint64_t)p:p/q;break;} case Instruction::SRem:{ int64_t p=sx(x,w),q=sx(y,w); if(!q)throw Violation{"arith","division by zero"}; r=q==-1?0:p%q;break;}
    case Instruction::Shl:r=y>=w?0:x<<y;break; case Instruction::LShr:r=y>=w?0:x>>y;break; case Instruction::AShr:r=y>=w?(sx(x,w)<0?~0ULL:0):(uint64_t)(sx(x,w)>>y);break;
    case Instruction::And:r=x&y;break; case Instruction::Or:r=x|y;break; case Instruction::Xor:r=x^y;break; default: throw Unsupported{"binop"}; } return SVal{r&m,nullptr}; }
  Node*x=nd(a,w,KI),*y=nd(b,w,KI);
  if(x->sort==SF)x=X.bits(x); if(y->sort==SF)y=X.bits(y);
  if(w==1){ Node*r; switch(d.op){ case Instruction::And:case Instruction::Mul:r=X.and_(x,y);break; case Instruction::Or:r=X.or_(x,y);break; case Instruction::Xor:case Instruction::Add:case Instruction::Sub:r=X.xor_(x,y);break; default:throw Unsupported{"i1 op"}; } return mkv(r,1,KI); }
  Node*r; switch(d.op){
    case Instruction::Add:r=X.wrap(X.add(x,y),w);break; case Instruction::Sub:r=X.wrap(X.sub(x,y),w);break; case Instruction::Mul:r=X.wrap(X.mul(x,y),w);break;
    case Instruction::SDiv: case Instruction::SRem: { if(y->op!=I_CONST){ if(branchOn(X.eq0(y)))throw Violation{"arith","division by zero"}; y=sub(y); } else if(y->k==0)throw Violation{"arith","division by zero"}; Node*q=X.divn(x,y); r=d.op==Instruction::SDiv?X.wrap(q,w):X.wrap(X.sub(x,X.mul(q,y)),w); break; }
    case Instruction::UDiv: case Instruction::URem: { Node*ux=X.zext(x,w),*uy=X.zext(y,w); if(uy->op!=I_CONST){ uint64_t c=concretize(b,w); uy=X.ci((I128)c);} if(uy->k==0)throw Violation{"arith","division by zero"}; r=X.wrap(d.op==Instruction::UDiv?X.fdiv(ux,uy->k):X.fmod_(ux,uy->k),w); break; }
    case Instruction::Shl:{ uint64_t s=concretize(b,w); r=s>=w?X.ci(0):X.wrap(X.mulc(x,(I128)1<<s),w); break; }
    case Instruction::LShr:{ uint64_t s=concretize(b,w); r=s>=w?X.ci(0):X.wrap(X.fdiv(X.zext(x,w),(I128)1<<s),w); break; }
    case Instruction::AShr:{ uint64_t s=concretize(b,w); if(s>=w)s=w-1; r=X.fdiv(x,(I128)1<<s); break; }
    case Instruction::And: case Instruction::Or: case Instruction::Xor: r=bitop(d.op,x,y,w); break;
    default: throw Unsupported{"binop"}; }
  return mkv(r,w,KI); }
SVal Exec::icmp(DInst&d){
  unsigned w=d.w2; SVal a=gets(d.ops[0],w,d.kind),b=gets(d.ops[1],w,d.kind); unsigned p=d.pred;
  if(!a.s&&!b.s){ uint64_t x=a.u,y=b.u; int64_t s=sx(x,w),t=sx(y,w); bool r=false; switch(p){ case CmpInst::ICMP_EQ:r=x==y;break; case CmpInst::ICMP_NE:r=x!=y;break; case CmpInst::ICMP_UGT:r=x>y;break; case CmpInst::ICMP_UGE:r=x>=y;break; case CmpInst::ICMP_ULT:r=x<y;break; case CmpInst::ICMP_ULE:r=x<=y;break; case CmpInst::ICMP_SGT:r=s>t;break; case CmpInst::ICMP_SGE:r=s>=t;break; case CmpInst::ICMP_SLT:r=s<t;break; case CmpInst::ICMP_SLE:r=s<=t;break; } return SVal{r,nullptr}; }
  Node*x=nd(a,w,KI),*y=nd(b,w,KI); Node*r;
  if(w==1){ switch(p){ case CmpInst::ICMP_EQ:r=X.not_(X.xor_(x,y));break; case CmpInst::ICMP_NE:r=X.xor_(x,y);break; case CmpInst::ICMP_ULT: case CmpInst::ICMP_SGT:r=X.and_(X.not_(x),y);break; case CmpInst::ICMP_UGT: case CmpInst::ICMP_SLT:r=X.and_(x,X.not_(y));break; case CmpInst::ICMP_ULE:case CmpInst::ICMP_SGE:r=X.or_(X.not_(x),y);break; default:r=X.or_(x,X.not_(y)); } return mkv(r,1,KI); }
  if(x->op==I_BITS||y->op==I_BITS||x->op==I_BYTES||y->op==I_BYTES){ // compare raw bits: only (in)equality of doubles
    if((p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE)&&x->op==I_BITS&&y->op==I_BITS){ r=X.feq(x->a[0],y->a[0]); return mkv(p==CmpInst::ICMP_EQ?r:X.not_(r),1,KI);} 
    if((x->op==I_BYTES&&x->a[0]->sort==SF)||(y->op==I_BYTES&&y->a[0]->sort==SF)||x->op==I_BITS||y->op==I_BITS) throw Unsupported{"arithmetic on the bits of a double"}; }
  if(p==CmpInst::ICMP_UGT||p==CmpInst::ICMP_UGE||p==CmpInst::ICMP_ULT||p==CmpInst::ICMP_ULE){ if(x->op!=I_CONST&&x->lo<0){} x=X.zext(x,w); y=X.zext(y,w); }
  switch(p){ case CmpInst::ICMP_EQ:r=X.ieq(x,y);break; case CmpInst::ICMP_NE:r=X.not_(X.ieq(x,y));break; case CmpInst::ICMP_UGT:case CmpInst::ICMP_SGT:r=X.ilt(y,x);break; case CmpInst::ICMP_UGE:case CmpInst::ICMP_SGE:r=X.ile(y,x);break; case CmpInst::ICMP_ULT:case CmpInst::ICMP_SLT:r=X.ilt(x,y);break; default:r=X.ile(x,y); }
  return mkv(r,1,KI); }
SVal Exec::fcmp(DInst&d){
  if(d.kind==KX) throw Unsupported{"long double"};
  SVal a=gets(d.ops[0],64,KF),b=gets(d.ops[1],64,KF); unsigned p=d.pred;
  if(p==CmpInst::FCMP_FALSE)return SVal{0,nullptr}; if(p==CmpInst::FCMP_TRUE)return SVal{1,nullptr};
  if(!a.s&&!b.s){ double x=d.kind==KF32?flt32(a.u):dbl(a.u),y=d.kind==KF32?flt32(b.u):dbl(b.u); bool un=std::isnan(x)||std::isnan(y); bool r; switch(p){ case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; default:r=un||x!=y; } return SVal{r,nullptr}; }
  Node*x=nd(a,64,d.kind),*y=nd(b,64,d.kind); bool nan=(x->isConst()&&std::isnan(x->d))||(y->isConst()&&std::isnan(y->d)); bool uno=p>=CmpInst::FCMP_UNO;
  if(nan) return SVal{(uint64_t)uno,nullptr};
  Node*r; switch(p){ case CmpInst::FCMP_OEQ:case CmpInst::FCMP_UEQ:r=X.feq(x,y);break; case CmpInst::FCMP_OGT:case CmpInst::FCMP_UGT:r=X.flt(y,x);break; case CmpInst::FCMP_OGE:case CmpInst::FCMP_UGE:r=X.fle(y,x);break; case CmpInst::FCMP_OLT:case CmpInst::FCMP_ULT:r=X.flt(x,y);break; case CmpInst::FCMP_OLE:case CmpInst::FCMP_ULE:r=X.fle(x,y);break; case CmpInst::FCMP_ONE:case CmpInst::FCMP_UNE:r=X.not_(X.feq(x,y));break; case CmpInst::FCMP_ORD:r=X.cb(true);break; default:r=X.cb(false); }
  return mkv(r,1,KI); }
SVal Exec::fbin(unsigned op,SVal a,SVal b){
  if(!a.s&&!b.s){ double x=dbl(a.u),y=dbl(b.u),r; switch(op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=std::fmod(x,y);} return SVal{ubl(r),nullptr}; }
  Node*x=nd(a,64,KF),*y=nd(b,64,KF); Node*r; auto inf=[](Node*n){return n->isConst()&&!std::isfinite(n->d);};
  switch(op){
  case Instruction::FAdd:r=X.fadd(x,y);break; case Instruction::FSub:r=X.fsub(x,y);break;
  case Instruction::FMul: if(inf(x)||inf(y)){ if(inf(y))std::swap(x,y); if(std::isnan(x->d)){r=x;break;} // inf * symbolic
      if(branchOn(X.feq(y,X.cf(0)))) {r=X.cf(std::nan(""));break;} bool neg=branchOn(X.flt(y,X.cf(0))); r=X.cf(neg?-x->d:x->d); break; } r=X.fmul(x,y);break;
  case Instruction::FDiv: { if(inf(x)){ if(std::isnan(x->d)){r=x;break;} if(y->isConst()){r=X.cf(x->d/y->d);break;} bool neg=branchOn(X.flt(y,X.cf(0))); r=X.cf(neg?-x->d:x->d); break; }
      if(y->isConst()){ if(y->d==0){ if(branchOn(X.feq(x,X.cf(0)))){r=X.cf(std::nan(""));break;} bool neg=branchOn(X.flt(x,X.cf(0))); double iv=std::signbit(dbl(b.u))?-INFINITY:INFINITY; r=X.cf(neg?-iv:iv); break; } r=X.fdivf(x,y,0); break; }
      double bm=0; if(y->flo>0)bm=y->flo; else if(y->fhi<0)bm=-y->fhi; else {
        if(branchOn(X.feq(y,X.cf(0)))){ if(branchOn(X.feq(x,X.cf(0)))){r=X.cf(std::nan(""));break;} bool neg=branchOn(X.flt(x,X.cf(0))); r=X.cf(neg?-INFINITY:INFINITY); break; }
        Node*ay=X.fabs_(y); double cands[]={0.05,1e-3,1e-6,1e-9,1e-15,1e-30,1e-100}; for(double c:cands){ if(y->q>-1000&&c<=std::ldexp(1.0,y->q)){ bm=std::ldexp(1.0,y->q); break; } if(solve(X.flt(ay,X.cf(c)),nullptr)==0){bm=c;break;} } if(bm==0) throw Unsupported{"division by a value arbitrarily close to zero"}; }
      if(x==y){r=X.cf(1);break;} r=X.fdivf(x,y,bm); break; }
  default: if(y->isConst()&&y->d!=0) { r=X.uf(UF_FMOD,x,y); } else throw Unsupported{"symbolic fmod"}; }
  return mkv(r,64,KF); }
SVal Exec::castOp(DInst&d){
  SVal a=gets(d.ops[0],d.w2,(Kind)d.pred); unsigned w=d.w,ws=d.w2;
  if(!a.s){ switch(d.op){ case Instruction::ZExt: case Instruction::PtrToInt: case Instruction::IntToPtr: return SVal{a.u&msk(w),nullptr}; case Instruction::Trunc:return SVal{a.u&msk(w),nullptr}; case Instruction::SExt:return SVal{(uint64_t)sx(a.u,ws)&msk(w),nullptr}; case Instruction::BitCast:return a;
      case Instruction::SIToFP:{ double r=(double)sx(a.u,ws); return SVal{d.kind==KF32?u32f((float)sx(a.u,ws)):ubl(r),nullptr}; } case Instruction::UIToFP:{ return SVal{d.kind==KF32?u32f((float)a.u):ubl((double)a.u),nullptr}; }
      case Instruction::FPToSI: case Instruction::FPToUI: { double x=d.pred==KF32?flt32(a.u):dbl(a.u); if(d.op==Instruction::FPToUI){ if(!(x>-1&&x<18446744073709551616.0)){ return SVal{w>=64?0x8000000000000000ULL:0,nullptr}; } return SVal{(uint64_t)x&msk(w),nullptr}; } // x86 semantics out of range
          if(w<=32&&!(x>-2147483649.0&&x<2147483648.0)) return SVal{0x80000000ULL&msk(w),nullptr}; if(!(x>=-9223372036854775808.0&&x<9223372036854775808.0)) return SVal{0x8000000000000000ULL,nullptr}; return SVal{(uint64_t)(int64_t)x&msk(w),nullptr}; }
      case Instruction::FPExt:return SVal{ubl((double)flt32(a.u)),nullptr}; case Instruction::FPTrunc:return SVal{u32f((float)dbl(a.u)),nullptr}; default: throw Unsupported{"cast"}; } }
  Node*x=a.s; Node*r;
  switch(d.op){
  case Instruction::ZExt: if(x->sort==SB) r=X.ite(x,X.ci(1),X.ci(0)); else r=X.zext(x,ws); break;
  case Instruction::SExt: if(x->sort==SB) r=X.ite(x,X.ci(-1),X.ci(0)); else r=x; break;
  case Instruction::Trunc: if(w==1){ Node*m=X.fmod_(x,2); r=X.not_(X.eq0(m)); if(x->op==I_ITE) r=X.ite(x->a[0],X.not_(X.eq0(X.fmod_(x->a[1],2))),X.not_(X.eq0(X.fmod_(x->a[2],2)))); } else if(x->op==I_BITS||(x->op==I_BYTES&&x->a[0]->sort==SF)) r=X.bytes(x,0,w/8); else r=X.wrap(x,w); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: r=x; break;
  case Instruction::BitCast: if(d.kind==KF)r=conv(x,8,KF); else if(d.pred==KF)r=X.bits(x); else r=x; break;
  case Instruction::SIToFP: if(x->sort==SB) r=X.ite(x,X.cf(-1),X.cf(0)); else r=X.itof(x); break;
  case Instruction::UIToFP: if(x->sort==SB) r=X.ite(x,X.cf(1),X.cf(0)); else r=X.itof(X.zext(x,ws)); break;
  case Instruction::FPToSI: case Instruction::FPToUI: { double L=d.op==Instruction::FPToUI?-1:(w<=32?-2147483649.0:-9223372036854775809.0),H=d.op==Instruction::FPToUI?(w>=64?18446744073709551616.0:std::ldexp(1,w)):(w<=32?2147483648.0:9223372036854775808.0); if(x->flo<=L||x->fhi>=H){ Node*in=X.and_(X.flt(X.cf(L),x),X.flt(x,X.cf(H))); if(!branchOn(in)) return SVal{w<=32?(uint64_t)0x80000000ULL:0x8000000000000000ULL,nullptr}; }
      r=X.toint(I_TRUNC,x); if(r->lo<-((I128)1<<62)*2||r->hi>=((I128)1<<63)) throw Unsupported{"huge float to int"}; r=X.wrap(r,w); if(opt.concFloor>=0&&r->op!=I_CONST&&r->hi-r->lo<=opt.concFloor){ uint64_t c=concretize(SVal{0,r},w); return SVal{c&msk(w),nullptr}; } break; }
  case Instruction::FPTrunc: if(d.kind!=KF32) throw Unsupported{"symbolic cast"}; r=X.uf(UF_F32,x); break;
  case Instruction::FPExt: if(d.kind!=KF||d.pred!=KF32) throw Unsupported{"symbolic cast"}; r=x; break;
  default: throw Unsupported{"symbolic cast"}; }
  if(d.kind==KF32&&(d.op==Instruction::SIToFP||d.op==Instruction::UIToFP)) r=X.uf(UF_F32,r);
  return mkv(r,w,d.kind); }

static bool endsWith(const std::string&s,const char*e){ size_t n=strlen(e); return s.size()>=n&&s.compare(s.size()-n,n,e)==0; }
void Exec::intrinsic(DInst&d){
  auto A=[&](int i,unsigned w,Kind k){return gets(d.ops[i],w,k);};
  auto f1=[&](auto conc,auto sym){ if(d.kind==KF32){ SVal v=A(0,32,KF32); if(v.s) throw Unsupported{"float"}; setDst(d,SVal{u32f((float)conc((double)flt32(v.u))),nullptr}); return; } if(d.kind==KX) throw Unsupported{"long double"}; SVal v=A(0,64,KF); if(!v.s)setDst(d,SVal{ubl(conc(dbl(v.u))),nullptr}); else setDst(d,mkv(sym(v.s),64,KF)); };
  switch(d.iid){
  case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { uint64_t x=concretize(get(d.ops[0]),64),y=concretize(get(d.ops[1]),64),n=concretize(get(d.ops[2]),64); copyMem(x,y,n); break; }
  case Intrinsic::memset: { uint64_t x=concretize(get(d.ops[0]),64),n=concretize(get(d.ops[2]),64); uint64_t v=concretize(get(d.ops[1]),8); setMem(x,(int)v,n); break; }
  case Intrinsic::fabs: f1([](double x){return std::fabs(x);},[&](Node*n){return X.fabs_(n);}); break;
  case Intrinsic::floor: f1([](double x){return std::floor(x);},[&](Node*n){return flr(I_FLOOR,n);}); break;
  case Intrinsic::ceil: f1([](double x){return std::ceil(x);},[&](Node*n){return X.fneg(flr(I_FLOOR,X.fneg(n)));}); break;
  case Intrinsic::trunc: f1([](double x){return std::trunc(x);},[&](Node*n){return flr(I_TRUNC,n);}); break;
  case Intrinsic::round: f1([](double x){return std::round(x);},[&](Node*n){return flr(I_ROUND,n);}); break;
  case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: f1([](double x){return std::nearbyint(x);},[&](Node*n){return flr(I_RINT,n);}); break;
  case Intrinsic::sqrt: { SVal v=A(0,64,KF); if(!v.s){setDst(d,SVal{ubl(std::sqrt(dbl(v.u))),nullptr});break;} if(v.s->flo<0&&branchOn(X.flt(v.s,X.cf(0)))){setDst(d,SVal{ubl(std::nan("")),nullptr});break;} setDst(d,mkv(X.fsqrt(sub(v.s)),64,KF)); break; }
  case Intrinsic::sin: f1([](double x){return std::sin(x);},[&](Node*n){return X.uf(UF_SIN,n);}); break;
  case Intrinsic::cos: f1([](double x){return std::cos(x);},[&](Node*n){return X.uf(UF_COS,n);}); break;
  case Intrinsic::exp: f1([](double x){return std::exp(x);},[&](Node*n){return X.uf(UF_EXP,n);}); break;
  case Intrinsic::log: f1([](double x){return std::log(x);},[&](Node*n){return X.uf(UF_LOG,n);}); break;
  case Intrinsic::pow: doPow(d); break;
  case Intrinsic::powi: { SVal v=A(0,64,KF); int64_t e=sx(concretize(get(d.ops[1]),32),32); if(!v.s)setDst(d,SVal{ubl(std::pow(dbl(v.u),(double)e)),nullptr}); else { if(e<0||e>4) throw Unsupported{"powi"}; setDst(d,mkv(X.fpow(v.s,(int)e),64,KF)); } break; }
  case Intrinsic::copysign: { SVal v=A(0,64,KF),s=A(1,64,KF); if(!v.s&&!s.s){setDst(d,SVal{ubl(std::copysign(dbl(v.u),dbl(s.u))),nullptr});break;} Node*m=X.fabs_(nd(v,64,KF)); if(!s.s){ setDst(d,mkv(std::signbit(dbl(s.u))?X.fneg(m):m,64,KF)); } else setDst(d,mkv(X.ite(X.flt(s.s,X.cf(0)),X.fneg(m),m),64,KF)); break; }
  case Intrinsic::maxnum: case Intrinsic::minnum: { SVal x=A(0,64,KF),y=A(1,64,KF); bool mx=d.iid==Intrinsic::maxnum; if(!x.s&&!y.s){setDst(d,SVal{ubl(mx?std::fmax(dbl(x.u),dbl(y.u)):std::fmin(dbl(x.u),dbl(y.u))),nullptr});break;} Node*p=nd(x,64,KF),*q=nd(y,64,KF); if(p->isConst()&&std::isnan(p->d)){setDst(d,y);break;} if(q->isConst()&&std::isnan(q->d)){setDst(d,x);break;} setDst(d,mkv(mx?X.ite(X.flt(p,q),q,p):X.ite(X.flt(q,p),q,p),64,KF)); break; }
  case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { SVal x=A(0,d.w,KI),y=A(1,d.w,KI); bool u=d.iid==Intrinsic::umax||d.iid==Intrinsic::umin,mx=d.iid==Intrinsic::smax||d.iid==Intrinsic::umax; Node*p=nd(x,d.w,KI),*q=nd(y,d.w,KI); Node*c=u?X.ilt(X.zext(p,d.w),X.zext(q,d.w)):X.ilt(p,q); setDst(d,mkv(mx?X.ite(c,q,p):X.ite(c,p,q),d.w,KI)); break; }
  case Intrinsic::abs: { SVal x=A(0,d.w,KI); Node*p=nd(x,d.w,KI); setDst(d,mkv(X.wrap(X.ite(X.le0(X.add(p,X.ci(1))),X.mulc(p,-1),p),d.w),d.w,KI)); break; }
  case Intrinsic::uadd_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: { unsigned w=d.I->getOperand(0)->getType()->getIntegerBitWidth(); Node*x=nd(A(0,w,KI),w,KI),*y=nd(A(1,w,KI),w,KI); bool u=d.iid==Intrinsic::uadd_with_overflow||d.iid==Intrinsic::umul_with_overflow||d.iid==Intrinsic::usub_with_overflow; if(u){x=X.zext(x,w);y=X.zext(y,w);} Node*r=(d.iid==Intrinsic::uadd_with_overflow||d.iid==Intrinsic::sadd_with_overflow)?X.add(x,y):(d.iid==Intrinsic::usub_with_overflow||d.iid==Intrinsic::ssub_with_overflow)?X.sub(x,y):X.mul(x,y); I128 lo=u?0:-((I128)1<<(w-1)),hi=u?((I128)1<<w)-1:((I128)1<<(w-1))-1; Node*ok=X.and_(X.le0(X.sub(X.ci(lo),r)),X.le0(X.sub(r,X.ci(hi)))); fr->regs[d.dst]=mkv(X.wrap(r,w),w,KI); fr->regs[d.dst+1]=mkv(X.not_(ok),1,KI); break; }
  case Intrinsic::usub_sat: { unsigned w=d.w; Node*x=X.zext(nd(A(0,w,KI),w,KI),w),*y=X.zext(nd(A(1,w,KI),w,KI),w); setDst(d,mkv(X.ite(X.ilt(x,y),X.ci(0),X.wrap(X.sub(x,y),w)),w,KI)); break; }
  case Intrinsic::invariant_start: case Intrinsic::invariant_end: if(!d.I->getType()->isVoidTy()) setDst(d,SVal{0,nullptr}); break;
  case Intrinsic::expect: setDst(d,get(d.ops[0])); break;
  case Intrinsic::is_constant: setDst(d,SVal{0,nullptr}); break;
  case Intrinsic::objectsize: setDst(d,SVal{~0ULL,nullptr}); break;
  case Intrinsic::ctlz: case Intrinsic::cttz: case Intrinsic::ctpop: { uint64_t v=concretize(A(0,d.w,KI),d.w); uint64_t r; if(d.iid==Intrinsic::ctpop)r=__builtin_popcountll(v); else if(v==0)r=d.w; else r=d.iid==Intrinsic::cttz?__builtin_ctzll(v):__builtin_clzll(v)-(64-d.w); setDst(d,SVal{r,nullptr}); break; }
  case Intrinsic::fshl: case Intrinsic::fshr: { unsigned w=d.w; uint64_t s=concretize(get(d.ops[2]),w)%w; uint64_t x=concretize(get(d.ops[0]),w),y=concretize(get(d.ops[1]),w); uint64_t r; if(d.iid==Intrinsic::fshl) r=s?((x<<s)|(y>>(w-s))):x; else r=s?((x<<(w-s))|(y>>s)):y; setDst(d,SVal{r&msk(w),nullptr}); break; }
  case Intrinsic::stacksave: setDst(d,SVal{0,nullptr}); break; case Intrinsic::stackrestore: break;
  case Intrinsic::trap: case Intrinsic::ubsantrap: throw Violation{"abort","trap"};
  case Intrinsic::eh_typeid_for: setDst(d,SVal{get(d.ops[0]).u>>32,nullptr}); break;
  case Intrinsic::is_fpclass: { SVal v=A(0,64,KF); uint64_t m=concretize(get(d.ops[1]),32); if(v.s){ bool nanTest=(m&~3ULL)==0; bool infTest=(m&~(0x204ULL))==0; if(nanTest||infTest){setDst(d,SVal{0,nullptr});break;} if(m==0x1f8){setDst(d,SVal{1,nullptr});break;} throw Unsupported{"fpclass"}; } double x=dbl(v.u); bool r=false; if((m&3)&&std::isnan(x))r=true; if((m&4)&&std::isinf(x)&&x<0)r=true; if((m&0x200)&&std::isinf(x)&&x>0)r=true; if(std::isfinite(x)&&(m&0x1f8)){ bool neg=std::signbit(x); int c=std::fpclassify(x); if(c==FP_NORMAL)r|=(m&(neg?8:0x100))!=0; else if(c==FP_SUBNORMAL)r|=(m&(neg?0x10:0x80))!=0; else r|=(m&(neg?0x20:0x40))!=0; } setDst(d,SVal{r,nullptr}); break; }
  case Intrinsic::fmuladd: case Intrinsic::fma: throw Unsupported{"fma"};
  default: throw Unsupported{"intrinsic "+Intrinsic::getBaseName(d.iid).str()}; }
}
struct SplitChild {};

Node* Exec::flr(Op kind,Node*n){ n=sub(n); Node*k=X.toint(kind,n); if(!k->isConst()&&opt.concFloor>=0&&k->hi-k->lo<=opt.concFloor){ uint64_t c=concretize(SVal{0,k},64); k=X.ci((int64_t)c); } return X.itof(k); }
void Exec::doPow(DInst&d){
  SVal a=gets(d.ops[0],64,KF),b=gets(d.ops[1],64,KF);
  if(!a.s&&!b.s){ setDst(d,SVal{ubl(std::pow(dbl(a.u),dbl(b.u))),nullptr}); return; }
  if(!b.s){ double e=dbl(b.u); if(e==std::floor(e)&&e>=0&&e<=4){ setDst(d,mkv(X.fpow(nd(a,64,KF),(int)e),64,KF)); return; } if(e==0.5){ Node*x=nd(a,64,KF); if(x->flo>=0){ setDst(d,mkv(X.fsqrt(x),64,KF)); return; } } }
  setDst(d,mkv(X.uf(UF_POW,nd(a,64,KF),nd(b,64,KF)),64,KF)); }

// library models; true if the call was handled (destination set)
bool Exec::callModel(DInst&d,const std::string&name,const Function*F){
  auto V=[&](int i){ return get(d.ops[i]); };
  auto ARG=[&](int i,unsigned w=64){ return concretize(get(d.ops[i]),w); };
  auto DBL=[&](int i){ uint64_t u; SVal v=gets(d.ops[i],64,KF); if(v.s) throw Unsupported{"concrete double expected in "+name}; u=v.u; return dbl(u); };
  auto I=[&](int i,unsigned w){ SVal v=gets(d.ops[i],w,KI); return nd(v,w,KI); };
  auto boolArg=[&](int i,unsigned w)->Node*{ SVal v=gets(d.ops[i],w,KI); Node*n=nd(v,w,KI); if(n->sort==SB)return n; return X.not_(X.eq0(n)); };
  auto ret=[&](uint64_t u){ setDst(d,SVal{u,nullptr}); return true; };
  const char*n=name.c_str();
  if(name.compare(0,6,"verif_")==0){
    std::string f=name.substr(6);
    if(f=="int"||f=="real"||f=="grid"||f=="bool"||f=="choose"){
      std::string nm=cstrArg(d,0); int cnt=S->names[nm]; std::string key=nm+"#"+std::to_string(cnt); std::string vk=key; Node*v=nullptr; int kind=0;
      if(f=="int"){ int64_t lo=(int64_t)ARG(1),hi=(int64_t)ARG(2); if(hi<lo) throw PathEnd{"empty range"}; if(lo==hi) v=X.ci(lo); vk+="/i"+std::to_string(lo)+","+std::to_string(hi); if(!v){ Node*&s=varNodes[vk]; if(!s)s=X.varI(key,lo,hi); v=s; } }
      else if(f=="choose"){ int64_t hi=sx(ARG(1,32),32); std::string pend=vk+"/c"+std::to_string(hi); if(hi<=1)v=X.ci(0); else { Node*&s=varNodes[pend]; if(!s)s=X.varI(key,0,hi-1); v=s; }
        // concretize: fork happens before any effect
        Node*sv=sub(v); uint64_t c= sv->isConst()?(uint64_t)(int64_t)sv->k:concretize(SVal{0,sv},32); S->names[nm]=cnt+1; S->inputs.push_back(std::make_tuple(key,0,v)); return ret(c&0xffffffffu); }
      else if(f=="real"||f=="grid"){ double lo=DBL(1),hi=DBL(2),q=f=="grid"?DBL(3):0; kind=1; if(lo==hi) v=X.cf(lo); else { char b[100]; snprintf(b,100,"/f%a,%a,%a",lo,hi,q); vk+=b; Node*&s=varNodes[vk]; if(!s)s=X.varF(key,lo,hi,q); v=s; } }
      else { kind=2; Node*&s=varNodes[vk+"/b"]; if(!s)s=X.varB(key); v=s; }
      S->names[nm]=cnt+1; S->inputs.push_back(std::make_tuple(key,kind,v)); v=sub(v);
      if(kind==2){ if(d.w==1) setDst(d,mkv(v,1,KI)); else setDst(d,mkv(X.ite(v,X.ci(1),X.ci(0)),d.w,KI)); } else setDst(d,mkv(v,kind==1?64:d.w,kind==1?KF:KI));
      return true; }
    if(f=="assume"){ Node*c=boolArg(0,32); c=sub(c); if(c->op==B_CONST){ if(!c->k) throw PathEnd{"assumption"}; return true; }
      if(S->wit&&(grow(*S->wit),X.eval(c,*S->wit).b)){ assume(c); if(S->dead) throw PathEnd{"assumption"}; return true; }
      std::shared_ptr<Assign> w; int r=solve(c,&w); if(r==0) throw PathEnd{"assumption"}; S->wit=w; if(!w)sh->witless++; assume(c); if(S->dead) throw PathEnd{"assumption"}; return true; }
    if(f=="check"){ Node*c=boolArg(0,32); doAssert(c,cstrArg(d,1),""); if(S->dead)throw PathEnd{"violated"}; return true; }
    if(f=="known"){ Node*c=boolArg(0,32); std::string id=cstrArg(d,1),m=cstrArg(d,2); doAssert(c,m,id); if(S->dead)throw PathEnd{"violated"}; return true; }
    if(f=="cover"){ S->covers.push_back(cstrArg(d,0)); return true; }
    if(f=="observe_d"){ std::string nm=cstrArg(d,0); S->obs.push_back({nm,gets(d.ops[1],64,KF)}); S->obsKind.push_back({nm,KF}); return true; }
    if(f=="observe_i"){ std::string nm=cstrArg(d,0); S->obs.push_back({nm,gets(d.ops[1],64,KI)}); S->obsKind.push_back({nm,KI}); return true; }
    if(f=="fork"){ Node*c=boolArg(0,32); bool b=branchOn(c); return ret(b); }
    if(f=="pick"){ uint64_t c=ARG(0,64); return ret(c); }
    if(f=="allow_throw"){ S->allowThrow=ARG(0,32)!=0; return true; }
    if(f=="is_symbolic"){ return ret(1); }
    if(f=="end_path"){ throw PathEnd{"harness"}; }
    if(f=="trace"){ if(opt.verbose){ SVal v=gets(d.ops[1],64,KF); std::string nm=cstrArg(d,0); fprintf(stderr,"TRACE %s = %s\n",nm.c_str(),v.s?X.str(v.s,8).c_str():std::to_string(dbl(v.u)).c_str()); } return true; }
    if(f=="trace_i"){ if(opt.verbose){ SVal v=gets(d.ops[1],64,KI); std::string nm=cstrArg(d,0); fprintf(stderr,"TRACE %s = %s\n",nm.c_str(),v.s?X.str(v.s,8).c_str():std::to_string((int64_t)v.u).c_str()); } return true; }
    throw Unsupported{"unknown verif function "+name}; }
  // ---- memory
  static const std::set<std::string> mallocs={"malloc","_Znwm","_Znam","_ZnwmSt11align_val_t","_ZnwmRKSt9nothrow_t","_ZnamRKSt9nothrow_t"};
  if(mallocs.count(name)){ uint64_t sz=ARG(0); if(sz>(1ULL<<30)) throw Violation{"memory","allocation of "+std::to_string(sz)+" bytes"}; return ret(alloc(sz,2)); }
  if(name=="calloc"){ uint64_t sz=ARG(0)*ARG(1); return ret(alloc(sz,2)); }
  if(name=="free"||name.compare(0,5,"_ZdlP")==0||name.compare(0,5,"_ZdaP")==0){ freeMem(V(0)); return true; }
  if(name=="memcpy"||name=="memmove"){ uint64_t x=ARG(0),y=ARG(1),z=ARG(2); copyMem(x,y,z); return ret(x); }
  if(name=="memset"){ uint64_t x=ARG(0),v=ARG(1,32),z=ARG(2); setMem(x,(int)v,z); return ret(x); }
  if(name=="memcmp"||name=="bcmp"||name=="strncmp"){ uint64_t x=ARG(0),y=ARG(1),z=ARG(2); int r=0; for(uint64_t i=0;i<z&&!r;){ uint64_t step=1; Obj*o=access(x+i,1,"memcmp"); SVal p,q; 
      Obj*o2=access(y+i,1,"memcmp"); uint64_t xo=(x+i)&0xffffffffu,yo=(y+i)&0xffffffffu; auto c1=o->cells.find(xo); auto c2=o2->cells.find(yo); uint64_t cs=0; if(c1!=o->cells.end())cs=c1->second.size; if(c2!=o2->cells.end())cs=std::max<uint64_t>(cs,c2->second.size);
      if(cs&&cs<=z-i){ Kind k=KI; if((c1!=o->cells.end()&&c1->second.n->sort==SF)||(c2!=o2->cells.end()&&c2->second.n->sort==SF))k=KF; p=loadAt(o,xo,cs,k); q=loadAt(o2,yo,cs,k); Node*e=k==KF?X.feq(nd(p,64,KF),nd(q,64,KF)):X.ieq(nd(p,cs*8,KI),nd(q,cs*8,KI)); if(!branchOn(e)){ r=1; if(name!="bcmp") r=1; } step=cs; }
      else { p=loadAt(o,xo,1,KI); q=loadAt(o2,yo,1,KI); if(p.s||q.s) throw Unsupported{"memcmp on symbolic bytes"}; if(p.u!=q.u) r=(uint8_t)p.u<(uint8_t)q.u?-1:1; if(name=="strncmp"&&!p.u)break; }
      i+=step; } return ret((uint32_t)r); }
  if(name=="memchr"){ uint64_t x=ARG(0),c=ARG(1,32)&255,z=ARG(2); for(uint64_t i=0;i<z;i++){ Obj*o=access(x+i,1,"memchr"); SVal p=loadAt(o,(x+i)&0xffffffffu,1,KI); if(p.s) throw Unsupported{"memchr"}; if((p.u&255)==c) return ret(x+i);} return ret(0); }
  if(name=="strlen") return ret(cstrArg(d,0).size());
  if(name=="strcmp"){ int r=cstrArg(d,0).compare(cstrArg(d,1)); return ret((uint32_t)(r<0?-1:r>0)); }
  if(name=="strtod"||name=="strtol"||name=="strtoul"||name=="atoi"||name=="atof"||name=="strtoll"){ uint64_t p=ARG(0); std::string s=cstr(p); char*e=nullptr; uint64_t r; if(name=="strtod"||name=="atof") r=ubl(strtod(s.c_str(),&e)); else if(name=="atoi") r=(uint64_t)atoi(s.c_str()); else r=(uint64_t)strtol(s.c_str(),&e,(int)ARG(2,32)); if(name[0]=='s'){ uint64_t ep=ARG(1); if(ep) store(SVal{ep,nullptr},8,SVal{p+(uint64_t)(e-s.c_str()),nullptr},KP); } return ret(r); }
  if(name=="__errno_location"){ uint64_t g=gsym("__verif_errno"); if(!g) throw Unsupported{"errno"}; return ret(g); }
  // ---- maths
  auto m1=[&](double(*c)(double),std::function<Node*(Node*)> s){ SVal v=gets(d.ops[0],64,KF); if(!v.s) return ret(ubl(c(dbl(v.u)))); setDst(d,mkv(s(v.s),64,KF)); return true; };
  auto u1=[&](double(*c)(double),UFK k){ return m1(c,[&](Node*x){return X.uf(k,x);}); };
  if(d.kind==KF||d.kind==KI||d.kind==KF32){ 
    if(name=="sin") return u1(::sin,UF_SIN); if(name=="cos") return u1(::cos,UF_COS); if(name=="tan") return u1(::tan,UF_TAN); if(name=="exp") return u1(::exp,UF_EXP); if(name=="atan") return u1(::atan,UF_ATAN);
    if(name=="log"){ SVal v=gets(d.ops[0],64,KF); if(v.s&&v.s->flo<=0){ if(!branchOn(X.flt(X.cf(1e-300),v.s))) throw Unsupported{"log of a non-positive value"}; throw Unsupported{"log near zero"}; } return u1(::log,UF_LOG); }
    if(name=="acos"||name=="asin"){ SVal v=gets(d.ops[0],64,KF); if(v.s){ Node*x=v.s; if(branchOn(X.or_(X.flt(x,X.cf(-1)),X.flt(X.cf(1),x)))) return ret(ubl(std::nan(""))); } return name=="acos"?u1(::acos,UF_ACOS):u1(::asin,UF_ASIN); }
    if(name=="sqrt"){ SVal v=gets(d.ops[0],64,KF); if(v.s&&v.s->flo<0&&branchOn(X.flt(v.s,X.cf(0)))) return ret(ubl(std::nan(""))); return m1(::sqrt,[&](Node*x){return X.fsqrt(sub(x));}); }
    if(name=="pow"){ doPow(d); return true; }
    if(name=="atan2"||name=="hypot"||name=="fmod"||name=="fmax"||name=="fmin"||name=="copysign"){ SVal a=gets(d.ops[0],64,KF),b=gets(d.ops[1],64,KF); bool cc=!a.s&&!b.s; Node*x=nd(a,64,KF),*y=nd(b,64,KF);
      if(name=="atan2"){ if(cc) return ret(ubl(std::atan2(dbl(a.u),dbl(b.u)))); setDst(d,mkv(X.uf(UF_ATAN2,x,y),64,KF)); return true; }
      if(name=="hypot"){ if(cc) return ret(ubl(std::hypot(dbl(a.u),dbl(b.u)))); setDst(d,mkv(X.uf(UF_HYPOT,x,y),64,KF)); return true; }
      if(name=="fmod"){ setDst(d,fbin(Instruction::FRem,a,b)); return true; }
      if(name=="fmax"||name=="fmin"){ if(cc) return ret(ubl(name=="fmax"?std::fmax(dbl(a.u),dbl(b.u)):std::fmin(dbl(a.u),dbl(b.u)))); if(x->isConst()&&std::isnan(x->d)){setDst(d,b);return true;} if(y->isConst()&&std::isnan(y->d)){setDst(d,a);return true;} setDst(d,mkv(name=="fmax"?X.ite(X.flt(x,y),y,x):X.ite(X.flt(y,x),y,x),64,KF)); return true; } }
    if(name=="floor") return m1(::floor,[&](Node*x){return flr(I_FLOOR,x);}); if(name=="ceil") return m1(::ceil,[&](Node*x){return X.fneg(flr(I_FLOOR,X.fneg(x)));});
    if(name=="round") return m1(::round,[&](Node*x){return flr(I_ROUND,x);}); if(name=="trunc") return m1(::trunc,[&](Node*x){return flr(I_TRUNC,x);}); if(name=="rint"||name=="nearbyint") return m1(::nearbyint,[&](Node*x){return flr(I_RINT,x);});
    if(name=="fabs") return m1(::fabs,[&](Node*x){return X.fabs_(x);});
    if(name=="lround"||name=="lrint"||name=="llround"){ SVal v=gets(d.ops[0],64,KF); if(!v.s) return ret((uint64_t)(name=="lrint"?std::lrint(dbl(v.u)):std::lround(dbl(v.u)))); Node*f=flr(name=="lrint"?I_RINT:I_ROUND,v.s); setDst(d,mkv(X.toint(I_TRUNC,f),64,KI)); return true; }
    if(name=="abs"){ Node*x=I(0,32); setDst(d,mkv(X.ite(X.le0(X.add(x,X.ci(1))),X.mulc(x,-1),x),32,KI)); return true; } }
  // ---- failure
  if(name=="__assert_fail") throw Violation{"assertion in the code",cstrArg(d,0)};
  if(name=="abort"||name=="_ZSt9terminatev"||name=="__clang_call_terminate") throw Violation{"abort",name};
  if(name=="exit"||name=="_exit") { if(S->allowThrow) throw PathEnd{"exit"}; throw Violation{"exit","process exit"}; }
  if(name=="__cxa_pure_virtual") throw Violation{"abort","pure virtual call"};
  if(name=="__cxa_throw"){ S->exnObj=ARG(0); S->exnType=ARG(1); if(hasHandler()){ unwind(); return true; } }
  if(name=="__cxa_rethrow"&&!S->caught.empty()){ S->exnObj=S->caught.back().first; S->exnType=S->caught.back().second; if(hasHandler()){ unwind(); return true; } }
  if(name.compare(0,10,"_ZSt20__th")==0||(name.compare(0,4,"_ZSt")==0&&name.find("__throw_")!=std::string::npos)||name=="__cxa_throw"||name=="__cxa_rethrow"||name=="__cxa_throw_bad_array_new_length"||name=="__cxa_bad_cast"){ if(S->allowThrow) throw PathEnd{"throw"}; throw Violation{"exception",name}; }
  if(name=="__cxa_allocate_exception") return ret(alloc(ARG(0)+64,2)); 
  if(name=="__cxa_free_exception") return true;
  if(name=="__cxa_begin_catch"){ S->caught.push_back({S->exnObj,S->exnType}); return ret(S->exnObj); }
  if(name=="__cxa_end_catch"){ if(!S->caught.empty()) S->caught.pop_back(); return true; }
  if(name=="__cxa_get_exception_ptr") return ret(S->exnObj);
  // ---- runtime
  if(name=="__cxa_atexit"||name=="atexit"||name=="__cxa_thread_atexit") return ret(0);
  if(name=="__cxa_guard_acquire"){ uint64_t g=ARG(0); SVal v=load(SVal{g,nullptr},1,KI); return ret((v.u&1)?0:1); }
  if(name=="__cxa_guard_release"){ uint64_t g=ARG(0); store(SVal{g,nullptr},1,SVal{1,nullptr},KI); return true; }
  if(name=="__cxa_guard_abort") return true;
  if(name=="__dynamic_cast"){ uint64_t p=ARG(0),r=0; uint64_t dst=ARG(2); if(p) dynCast(p,dst,r); return ret(r); }
  if(name=="_ZNSt8ios_base4InitC1Ev"||name=="_ZNSt8ios_base4InitD1Ev"||name.find("ios_base_library_init")!=std::string::npos) return true;
  if(name=="_ZSt11_Hash_bytesPKvmm"){ uint64_t p=ARG(0),len=ARG(1),seed=ARG(2); uint64_t h=seed^(len*0xc6a4a7935bd1e995ULL); for(uint64_t i=0;i<len;i++){ Obj*o=access(p+i,1,"hash"); SVal v=loadAt(o,(p+i)&0xffffffffu,1,KI); if(v.s) throw Unsupported{"hash of symbolic bytes"}; h=(h^(v.u&255))*0x100000001b3ULL; } return ret(h); }
  if(name=="time"||name=="clock") return ret(1);
  if(name=="__gxx_personality_v0") return ret(0);
  if(name=="pthread_mutex_lock"||name=="pthread_mutex_unlock"||name=="pthread_once") return ret(0);
  // stream output: produces nothing observable
  if(name=="_ZNSolsEd"||name=="_ZNSolsEi"||name=="_ZNSolsEb"||name=="_ZNSolsEm"||name=="_ZNSolsEj"||name=="_ZNSolsEl"||name=="_ZNSolsEf"||name=="_ZNSolsEPKv"||name=="_ZNSo5flushEv"||name=="_ZNSo3putEc"||name=="_ZNSo5writeEPKcl"||name.compare(0,8,"_ZNSolsE")==0||name.compare(0,9,"_ZNSo9_M_i")==0||name.compare(0,6,"_ZStls")==0||name.compare(0,8,"_ZSt4end")==0||name.compare(0,10,"_ZSt5flush")==0||name.compare(0,16,"_ZSt16__ostream_")==0){ stubHits["stream output"]++; setDst(d,V(0)); return true; }
  (void)n;(void)F; return false; }

bool Exec::dynCast(uint64_t p,uint64_t dst,uint64_t&res){
  auto rd=[&](uint64_t a){ SVal v=load(SVal{a,nullptr},8,KP); return concretize(v,64); };
  uint64_t vt=rd(p); int64_t top=(int64_t)rd(vt-16); uint64_t ti=rd(vt-8); uint64_t full=p+(uint64_t)top;
  uint64_t cls=gsym("_ZTVN10__cxxabiv117__class_type_infoE"),si=gsym("_ZTVN10__cxxabiv120__si_class_type_infoE"),vmi=gsym("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  std::function<bool(uint64_t,uint64_t)> walk=[&](uint64_t t,uint64_t obj)->bool{ if(t==dst){res=obj;return true;} uint64_t k=rd(t)>>32; if(cls&&k==cls>>32)return false; if(si&&k==si>>32) return walk(rd(t+16),obj); if(vmi&&k==vmi>>32){ uint64_t cnt=concretize(load(SVal{t+20,nullptr},4,KI),32); for(uint64_t i=0;i<cnt;i++){ uint64_t b=rd(t+24+16*i); int64_t fl=(int64_t)rd(t+32+16*i); uint64_t o; if(fl&1){ uint64_t v=rd(obj); o=obj+rd(v+(uint64_t)(fl>>8)); } else o=obj+(uint64_t)(fl>>8); if(walk(b,o))return true; } return false; } return false; };
  return walk(ti,full); }

// does a type caught by a handler accept the thrown type? (class hierarchies without offset adjustment)
bool Exec::typeAccepts(uint64_t thrown,uint64_t caught){ if(thrown==caught) return true;
  auto rd=[&](uint64_t a){ SVal v=load(SVal{a,nullptr},8,KP); return concretize(v,64); };
  uint64_t si=gsym("_ZTVN10__cxxabiv120__si_class_type_infoE"),vmi=gsym("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  for(auto&kv:gaddr) if(kv.second==thrown){ auto*gv=llvm::dyn_cast<llvm::GlobalVariable>(kv.first); if(!gv||!gv->hasInitializer()) return false; break; }
  uint64_t k=rd(thrown)>>32; if(si&&k==si>>32) return typeAccepts(rd(thrown+16),caught); if(vmi&&k==vmi>>32) throw Unsupported{"exception type with several bases"}; return false; }
// 0: nothing to do here, 1: cleanup only, 2: a handler (sel: its selector)
int Exec::padKind(DInst&c,uint64_t&sel){ sel=0; if(c.I->getOpcode()!=Instruction::Invoke) return 0;
  auto*LP=llvm::cast<llvm::InvokeInst>(c.I)->getLandingPadInst();
  for(unsigned i=0;i<LP->getNumClauses();i++){ if(LP->isFilter(i)) throw Unsupported{"exception specification"}; auto*C=LP->getClause(i)->stripPointerCasts();
    if(llvm::isa<llvm::ConstantPointerNull>(C)){ sel=1; return 2; }
    auto it=gaddr.find(llvm::cast<llvm::GlobalValue>(C)); if(it==gaddr.end()) throw Unsupported{"exception type"};
    if(typeAccepts(S->exnType,it->second)){ sel=it->second>>32; return 2; } }
  return LP->isCleanup()?1:0; }
bool Exec::hasHandler(){ for(size_t i=S->stack.size();i-->0;){ auto&f=S->stack[i]; uint64_t sel; if(padKind(f.bb->insts[f.ip],sel)==2) return true; } return false; }
void Exec::dropFrame(){ for(uint32_t a:S->stack.back().allocas) setObj(a,tomb); S->stack.pop_back(); fr=S->stack.empty()?nullptr:&S->stack.back(); }
void Exec::unwind(){ for(;;){ if(!fr) throw Violation{"exception","not caught"}; uint64_t sel; DInst&c=fr->bb->insts[fr->ip]; int k=padKind(c,sel); if(k){ S->exnSel=sel; jump(c.t2); unwound=true; return; } dropFrame(); } }

void Exec::callFunction(DInst&d,const Function*F){
  DFunc*D=decode(F); std::vector<SVal> args; std::vector<uint32_t> byv; auto*CB=llvm::cast<CallBase>(d.I); unsigned na=CB->arg_size();
  for(unsigned i=0;i<na;i++){ unsigned ns=d.argSlots[i]; if(i<F->arg_size()&&F->hasParamAttribute(i,Attribute::ByVal)){ uint64_t sz=DL->getTypeAllocSize(F->getParamByValType(i)); uint64_t src=concretize(get(d.ops[i]),64); uint64_t m=alloc(sz,1); copyMem(m,src,sz); byv.push_back(m>>32); args.push_back(SVal{m,nullptr}); continue; }
    for(unsigned j=0;j<ns;j++)args.push_back(get(d.ops[i],j)); }
  if(F->isVarArg()) throw Unsupported{"variadic function"};
  pushFrame(D,args); for(auto b:byv)fr->allocas.push_back(b); }

void Exec::doCall(DInst&d){
  if(d.model==-2){ fr->ip++; return; }
  if(d.iid){ intrinsic(d); finishCall(d); return; }
  const Function*F=nullptr; uint64_t a=d.calleeAddr;
  if(!a){ SVal fp=get(d.ops.back()); if(!fp.s&&!fp.u) throw Violation{"memory","call through a null function pointer"}; a=concretize(fp,64); }
  auto it=fnAt.find(a); if(it==fnAt.end()) throw Violation{"memory","call of a non-function"}; F=it->second;
  if(F->isDeclaration()){ std::string nm=F->getName().str(); unwound=false; if(!callModel(d,nm,F)) throw Unsupported{"external function "+nm}; if(unwound){ unwound=false; return; } finishCall(d); return; }
  callFunction(d,F); }

// A branch that only decides one-byte stores (flags) is executed without forking: the stored
// value becomes ite(condition, new, old).  Whatever does not fit this shape forks as usual.
static bool flagBlock(const DBlock*b){
  const BasicBlock*B=b->bb; if(!B->getSinglePredecessor()||B->size()>9) return false; bool st=false;
  for(auto&I:*B){ if(auto*br=dyn_cast<BranchInst>(&I)) return st&&br->isUnconditional();
    if(auto*s=dyn_cast<StoreInst>(&I)){ auto*t=s->getValueOperand()->getType(); if(!t->isIntegerTy()||t->getIntegerBitWidth()>8||s->isVolatile())return false; st=true; }
    else if(auto*l=dyn_cast<LoadInst>(&I)){ if(st||l->isVolatile()||!(l->getType()->isIntegerTy()||l->getType()->isPointerTy()))return false; }
    else if(isa<GetElementPtrInst>(&I)||(isa<ICmpInst>(&I)&&I.getOperand(0)->getType()->isIntegerTy())||isa<ZExtInst>(&I)||isa<TruncInst>(&I)){ if(I.getType()->isVectorTy())return false; }
    else if(auto*o=dyn_cast<BinaryOperator>(&I)){ auto c=o->getOpcode(); if(c!=Instruction::And&&c!=Instruction::Or&&c!=Instruction::Xor)return false; if(!o->getType()->isIntegerTy())return false; }
    else return false; }
  return false; }
bool Exec::ifConvert(DInst&d,Node*n){
  n=sub(n); if(n->op==B_CONST) return false;
  bool f1=flagBlock(d.t1),f2=flagBlock(d.t2); if(!f1&&!f2) return false;
  auto next=[](DBlock*b){ return b->insts.back().t1; };
  std::vector<std::pair<DBlock*,bool>> arms; DBlock*J=nullptr;
  if(f1&&f2&&next(d.t1)==next(d.t2)){ arms={{d.t1,true},{d.t2,false}}; J=next(d.t1); }
  else if(f1&&next(d.t1)==d.t2){ arms={{d.t1,true}}; J=d.t2; }
  else if(f2&&next(d.t2)==d.t1){ arms={{d.t2,false}}; J=d.t1; }
  else return false;
  if(J==fr->bb) return false;
  DBlock*from=fr->bb; DBlock*pt=arms[0].second?arms[0].first:from,*pf=arms.back().second?from:arms.back().first;
  struct St{uint64_t p;unsigned sz;SVal v;bool g;unsigned w;}; std::vector<St> sts; auto ip0=fr->ip;
  try{
    if(!J->phis.empty()){ auto&a=J->phis[pt],&b=J->phis[pf]; if(a.size()!=b.size())return false; for(size_t i=0;i<a.size();i++){ if(a[i].dst!=b[i].dst)return false; for(int k=0;k<a[i].n;k++){ SVal x=get(a[i].src,k),y=get(b[i].src,k); if(x.s!=y.s||(!x.s&&x.u!=y.u))return false; } } }
    for(auto&arm:arms){ fr->bb=arm.first;
      for(size_t i=0;i+1<arm.first->insts.size();i++){ DInst&e=arm.first->insts[i]; fr->ip=i;
        if(e.op==Instruction::Store){ SVal p=get(e.ops[1]); if(p.s||e.flat.size()!=1||e.flat[0].second!=1||e.fkinds[0]!=KI) throw Unsupported{"ifc"}; Obj*o=access(p.u,1,"store"); if(o->ro||!o->log.empty()) throw Unsupported{"ifc"}; sts.push_back({p.u,1,get(e.ops[0]),arm.second,e.w}); continue; }
        if(e.op==Instruction::Load){ SVal p=get(e.ops[0]); if(p.s||e.flat.size()!=1) throw Unsupported{"ifc"}; Obj*o=access(p.u,e.flat[0].second,"load"); if(!o->log.empty()) throw Unsupported{"ifc"}; }
        else for(auto&o:e.ops) if(e.op==Instruction::GetElementPtr&&get(o).s) throw Unsupported{"ifc"};
        step(); } }
    for(auto&s:sts) nd(load(SVal{s.p,nullptr},1,KI),8,KI);
  }catch(Unsupported&){ fr->bb=from; fr->ip=ip0; return false; }catch(Violation&){ fr->bb=from; fr->ip=ip0; return false; }
  fr->bb=from; fr->ip=ip0;
  for(auto&s:sts){ SVal o=load(SVal{s.p,nullptr},1,KI); Node*x=nd(s.v,8,KI),*y=nd(o,8,KI); if(x->sort==SB)x=X.ite(x,X.ci(1),X.ci(0)); if(y->sort==SB)y=X.ite(y,X.ci(1),X.ci(0)); store(SVal{s.p,nullptr},1,mkv(s.g?X.ite(n,x,y):X.ite(n,y,x),8,KI),KI); }
  for(auto&arm:arms) if(!arm.first->seen){ arm.first->seen=true; for(int c:arm.first->cov)covHit[c]=1; }
  noteHits["branches merged"]++;
  enter(J,pt); return true; }

bool Exec::step(){
  DInst&d=fr->bb->insts[fr->ip]; S->steps++;
  switch(d.op){
  case 0: throw Unsupported{std::string("instruction ")+d.I->getOpcodeName()};
  case Instruction::Br: { if(d.ops.empty()){ jump(d.t1); return true; } SVal c=get(d.ops[0]); if(!c.s){ jump((c.u&1)?d.t1:d.t2); return true; } Node*n=nd(c,1,KI); if(ifConvert(d,n)) return true; bool b=branchOn(n); jump(b?d.t1:d.t2); return true; }
  case Instruction::Switch: { SVal c=gets(d.ops[0],d.w,KI); if(!c.s){ for(auto&k:d.cases) if(k.first==c.u){ jump(k.second); return true; } jump(d.t1); return true; }
      Node*n=nd(c,d.w,KI); for(auto&k:d.cases){ int64_t kv=sx(k.first,d.w); if(branchOn(X.ieq(n,X.ci(kv)))){ jump(k.second); return true; } } jump(d.t1); return true; }
  case Instruction::Ret: { std::vector<SVal> r; if(!d.ops.empty()){ unsigned n=nslots(d.I->getOperand(0)->getType()); for(unsigned i=0;i<n;i++)r.push_back(get(d.ops[0],i)); } popFrame(r); return !S->stack.empty(); }
  case Instruction::Unreachable: throw Violation{"unreachable","unreachable code"};
  case Instruction::Alloca: { uint64_t n=concretize(get(d.ops[0]),64); uint64_t a=alloc(n*d.imm,1); fr->allocas.push_back(a>>32); setDst(d,SVal{a,nullptr}); break; }
  case Instruction::Load: { SVal p=get(d.ops[0]); if(d.flat.size()==1){ if(d.fkinds[0]==KX) throw Unsupported{"wide load"}; SVal v=load(p,d.flat[0].second,d.fkinds[0]); if(!v.s&&d.w&&d.w<64)v.u&=msk(d.w); else if(v.s&&d.w==1){ if(v.s->sort!=SB) v=mkv(X.not_(X.eq0(X.fmod_(v.s,2))),1,KI); } setDst(d,v); } else { if(p.s)p=SVal{concretize(p,64),nullptr}; std::vector<SVal> r; for(size_t i=0;i<d.flat.size();i++) r.push_back(load(SVal{p.u+d.flat[i].first,nullptr},d.flat[i].second,d.fkinds[i])); for(size_t i=0;i<r.size();i++)fr->regs[d.dst+i]=r[i]; } break; }
  case Instruction::Store: { SVal p=get(d.ops[1]); if(d.flat.size()==1){ if(d.fkinds[0]==KX) throw Unsupported{"wide store"}; store(p,d.flat[0].second,get(d.ops[0]),d.fkinds[0]); } else { if(p.s)p=SVal{concretize(p,64),nullptr}; for(size_t i=0;i<d.flat.size();i++) store(SVal{p.u+d.flat[i].first,nullptr},d.flat[i].second,get(d.ops[0],i),d.fkinds[i]); } break; }
  case Instruction::GetElementPtr: { SVal b=get(d.ops[0]); bool sym=b.s; SVal ix[8]; if(d.gep.size()>8) throw Unsupported{"gep"}; for(size_t i=0;i<d.gep.size();i++){ ix[i]=get(d.gep[i].first); if(ix[i].s)sym=true; }
      if(!sym){ uint64_t a=b.u+(uint64_t)d.imm; for(size_t i=0;i<d.gep.size();i++) a+=(uint64_t)(sx(ix[i].u,d.argSlots[i])*d.gep[i].second); setDst(d,SVal{a,nullptr}); }
      else { Node*n=b.s?sub(b.s):X.ci((int64_t)b.u); n=X.add(n,X.ci(d.imm)); for(size_t i=0;i<d.gep.size();i++){ Node*k=ix[i].s?sub(ix[i].s):X.ci(sx(ix[i].u,d.argSlots[i])); if(k->sort==SB)k=X.ite(k,X.ci(d.argSlots[i]==1?-1:1),X.ci(0)); n=X.add(n,X.mulc(k,d.gep[i].second)); } setDst(d,mkv(n,64,KP)); } break; }
  case Instruction::ExtractValue: for(int i=0;i<d.nslots;i++){ SVal v=get(d.ops[0],(int)d.imm+i); fr->regs[d.dst+i]=v; } break;
  case Instruction::InsertValue: { std::vector<SVal> t; for(int i=0;i<d.nslots;i++)t.push_back(get(d.ops[0],i)); for(unsigned i=0;i<d.size;i++)t[d.imm+i]=get(d.ops[1],i); for(int i=0;i<d.nslots;i++)fr->regs[d.dst+i]=t[i]; break; }
  case Instruction::Select: { SVal c=gets(d.ops[0],1,KI); if(!c.s){ for(int i=0;i<d.nslots;i++){ SVal v=get(d.ops[(c.u&1)?1:2],i); fr->regs[d.dst+i]=v; } break; }
      Node*n=nd(c,1,KI); if(d.nslots==1&&(d.kind==KI||d.kind==KF)){ SVal a=get(d.ops[1]),b=get(d.ops[2]); bool big=d.kind==KI&&d.w==64&&((!a.s&&a.u>=(1ULL<<32)&&a.u<(1ULL<<56))||(!b.s&&b.u>=(1ULL<<32)&&b.u<(1ULL<<56))); if(!big){ try{ setDst(d,mkv(X.ite(n,nd(a,d.w,d.kind),nd(b,d.w,d.kind)),d.w,d.kind)); break; }catch(Unsupported&){} } }
      bool b=branchOn(n); for(int i=0;i<d.nslots;i++){ SVal v=get(d.ops[b?1:2],i); fr->regs[d.dst+i]=v; } break; }
  case Instruction::Freeze: for(int i=0;i<d.nslots;i++){ SVal v=get(d.ops[0],i); fr->regs[d.dst+i]=v; } break;
  case Instruction::FNeg: { SVal v=gets(d.ops[0],64,KF); if(d.kind==KF32){ if(v.s) throw Unsupported{"float"}; setDst(d,SVal{u32f(-flt32(v.u)),nullptr}); break; } if(d.kind==KX) throw Unsupported{"long double"}; if(!v.s)setDst(d,SVal{ubl(-dbl(v.u)),nullptr}); else setDst(d,mkv(X.fneg(v.s),64,KF)); break; }
  case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: { SVal a=gets(d.ops[0],64,d.kind),b=gets(d.ops[1],64,d.kind); if(d.kind==KF32&&(a.s||b.s)){ SVal r=fbin(d.op,mkv(nd(a,32,KF32),64,KF),mkv(nd(b,32,KF32),64,KF)); setDst(d,mkv(X.uf(UF_F32,nd(r,64,KF)),32,KF32)); break; } if(d.kind==KF32){ float x=flt32(a.u),y=flt32(b.u),r; switch(d.op){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=std::fmod(x,y);} setDst(d,SVal{u32f(r),nullptr}); break; } if(d.kind==KX) throw Unsupported{"long double arithmetic"}; setDst(d,fbin(d.op,a,b)); break; }
  case Instruction::ICmp: setDst(d,icmp(d)); break;
  case Instruction::FCmp: setDst(d,fcmp(d)); break;
  case Instruction::Call: case Instruction::Invoke: doCall(d); return true;
  case Instruction::AtomicRMW: { auto*A=llvm::cast<AtomicRMWInst>(d.I); unsigned sz=DL->getTypeStoreSize(A->getType()); SVal p=get(d.ops[0]),v=get(d.ops[1]); if(p.s)p=SVal{concretize(p,64),nullptr}; SVal o=load(p,sz,KI); Node*x=nd(o,sz*8,KI),*y=nd(v,sz*8,KI),*r; switch(A->getOperation()){ case AtomicRMWInst::Add:r=X.wrap(X.add(x,y),sz*8);break; case AtomicRMWInst::Sub:r=X.wrap(X.sub(x,y),sz*8);break; case AtomicRMWInst::Xchg:r=y;break; default: throw Unsupported{"atomicrmw"}; } store(p,sz,mkv(r,sz*8,KI),KI); setDst(d,o); break; }
  case Instruction::AtomicCmpXchg: { auto*A=llvm::cast<AtomicCmpXchgInst>(d.I); unsigned sz=DL->getTypeStoreSize(A->getCompareOperand()->getType()); SVal p=get(d.ops[0]); if(p.s)p=SVal{concretize(p,64),nullptr}; SVal o=load(p,sz,KI); uint64_t ov=concretize(o,sz*8),ev=concretize(get(d.ops[1]),sz*8); bool eq=ov==ev; if(eq)store(p,sz,get(d.ops[2]),KI); fr->regs[d.dst]=SVal{ov,nullptr}; fr->regs[d.dst+1]=SVal{eq,nullptr}; break; }
  case Instruction::Fence: break;
  case Instruction::LandingPad: if(d.nslots!=2) throw Unsupported{"exception handling"}; fr->regs[d.dst]=SVal{S->exnObj,nullptr}; fr->regs[d.dst+1]=SVal{S->exnSel,nullptr}; break;
  case Instruction::Resume: dropFrame(); unwind(); return true;
  default:
    if(d.I->isBinaryOp()){ setDst(d,binop(d)); break; }
    if(d.I->isCast()){ setDst(d,castOp(d)); break; }
    throw Unsupported{std::string("instruction ")+d.I->getOpcodeName()}; }
  fr->ip++; return true; }

static void onAlarm(int){ sh->unexplored++; sh->lost++; sh->active--; _exit(0); }
static void arm(){ signal(SIGALRM,onAlarm); double left=opt.time+20-(now()-t0); alarm((unsigned)std::max(5.0,left)); }
// hand part of the pending states to a forked process; true in the child
bool Exec::split(){
  while(!work.empty()&&!sh->stop){ int a=sh->active.load(); if(a>=opt.jobs)return false; if(!sh->active.compare_exchange_strong(a,a+1))continue;
    if(sh->procs>3000){ sh->active--; return false; }
    fflush(stdout); fflush(stderr); size_t take=std::max<size_t>(1,work.size()/2); pid_t p=fork();
    if(p<0){ sh->active--; return false; }
    sh->procs++;
    if(p==0){ arm(); isMain=false; children.clear(); assertHits.clear(); assertDis.clear(); coverHits.clear(); unsupWhy.clear(); unresolvedWhy.clear(); stubHits.clear(); samples.clear(); confirmedL.clear(); noteHits.clear(); std::fill(covHit.begin(),covHit.end(),0); for(auto&kv:dfuncs)for(auto*b:kv.second->blocks)b->seen=false; tracesDone=opt.traces>1?opt.traces-1:0; myPaths=0; while(work.size()>take)work.pop_back(); rngState^=(uint64_t)getpid()*0x9e3779b97f4a7c15ULL; sh_blocks=0; return true; }
    children.push_back(p); for(size_t i=0;i<take;i++)work.pop_front(); }
  return false; }

void Exec::runState(State&st){
  S=&st; fr=S->stack.empty()?nullptr:&S->stack.back(); bool complete=false;
  try{
    size_t wn=work.size(); unsigned tick=0;
    for(;;){
      if(!fr){ if(S->phase<ctors.size()){ pushFrame(decode(ctors[S->phase++]),{}); continue; } if(S->phase==ctors.size()){ S->phase++; pushFrame(decode(entryFn),{}); continue; } complete=true; break; }
      step();
      if(S->dead) throw PathEnd{"infeasible"};
      if(work.size()>wn&&opt.jobs>1&&sh->active<opt.jobs){ if(split()) throw SplitChild{}; }
      wn=work.size();
      if((++tick&1023)==0){ if(sh->stop){ sh->unexplored++; return; } if(now()-t0>opt.time){ sh->unexplored++; noteHits["time limit"]++; return; } }
      if(S->steps>opt.maxSteps){ throw Violation{"non-termination","more than "+std::to_string(opt.maxSteps)+" steps"}; } }
  }
  catch(PathEnd&e){ if(e.why=="infeasible"||e.why=="infeasible address"){ sh->infeasible++; return; } if(e.why=="assumption"){ noteHits["assumption cut"]++; return; } if(e.why=="violated"){ return; } }
  catch(Unsupported&u){ sh->unsup++; unsupWhy[u.what+" @ "+(fr?loc():"")]++; endPath(false); return; }
  catch(Violation&v){ report(v.kind,v.msg); endPath(false); return; }
  catch(z3::exception&e){ sh->unsup++; unsupWhy[std::string("z3: ")+e.msg()]++; return; }
  endPath(complete); }

void Exec::runAll(){
  work.push_back(init);
  for(;;){
    while(!work.empty()){
      if(sh->stop||now()-t0>opt.time){ if(!sh->stop)noteHits["time limit"]++; sh->unexplored+=work.size(); work.clear(); break; }
      State st=std::move(work.back()); work.pop_back();
      try{ runState(st); }catch(SplitChild&){ S=nullptr; fr=nullptr; }
      S=nullptr; fr=nullptr;
      if(opt.jobs>1&&work.size()>1&&sh->active<opt.jobs){ split(); }
    }
    break; }
  sh->instrs+=sh_blocks; sh->active--; writeRes();
  for(pid_t p:children){ int st; while(waitpid(p,&st,0)<0&&errno==EINTR){} if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0)){ sh->crashed++; } }
  if(!isMain) _exit(0); }

void Exec::writeRes(){ std::ofstream f(opt.workdir+"/res_"+opt.entry+"."+std::to_string(getpid())); auto esc=[](std::string s){ for(auto&c:s)if(c=='\n'||c=='\t')c=' '; return s; };
  for(auto&k:assertHits)f<<"A\t"<<esc(k.first)<<"\t"<<k.second<<"\t"<<assertDis[k.first]<<"\n"; for(auto&k:coverHits)f<<"C\t"<<esc(k.first)<<"\t"<<k.second<<"\n"; for(auto&k:unsupWhy)f<<"U\t"<<esc(k.first)<<"\t"<<k.second<<"\n"; for(auto&k:unresolvedWhy)f<<"R\t"<<esc(k.first)<<"\t"<<k.second<<"\n"; for(auto&k:noteHits)f<<"N\t"<<esc(k.first)<<"\t"<<k.second<<"\n"; for(auto&k:stubHits)f<<"T\t"<<esc(k.first)<<"\t"<<k.second<<"\n";
  for(size_t i=0;i<covFuncs.size();i++)if(covHit[i])f<<"F\t"<<esc(covFuncs[i])<<"\n"; for(auto&s:samples)f<<"S\t"<<esc(s)<<"\n"; for(auto&s:confirmedL)f<<"V\t"<<esc(s)<<"\n"; for(auto&s:confirmedKnown)f<<"K\t"<<esc(s)<<"\n"; }

#include <dirent.h>
int Exec::aggregate(){
  std::map<std::string,std::pair<long,long>> A; std::map<std::string,long> C,U,R,N,T; std::set<std::string> Fs,K; std::vector<std::string> Ss,Vs;
  std::string pre="res_"+opt.entry+"."; DIR*dp=opendir(opt.workdir.c_str()); std::vector<std::string> files; if(dp){ while(auto*e=readdir(dp)){ std::string n=e->d_name; if(n.compare(0,pre.size(),pre)==0)files.push_back(opt.workdir+"/"+n);} closedir(dp);} 
  for(auto&fn:files){ std::ifstream f(fn); std::string l; while(std::getline(f,l)){ std::vector<std::string> p; std::stringstream ss(l); std::string t; while(std::getline(ss,t,'\t'))p.push_back(t); if(p.size()<2)continue; char k=p[0][0]; long n=p.size()>2?atol(p[2].c_str()):0; if(k=='A'){A[p[1]].first+=n;A[p[1]].second+=atol(p[3].c_str());} else if(k=='C')C[p[1]]+=n; else if(k=='U')U[p[1]]+=n; else if(k=='R')R[p[1]]+=n; else if(k=='N')N[p[1]]+=n; else if(k=='T')T[p[1]]+=n; else if(k=='F')Fs.insert(p[1]); else if(k=='S'){ if(Ss.size()<3)Ss.push_back(p[1]); } else if(k=='V')Vs.push_back(p[1]); else if(k=='K')K.insert(p[1]); } unlink(fn.c_str()); }
  std::ostringstream o; auto mp=[&](const char*k,std::map<std::string,long>&m){ o<<"\""<<k<<"\":{"; bool f=true; for(auto&x:m){ o<<(f?"":",")<<"\""<<jesc(x.first)<<"\":"<<x.second; f=false;} o<<"},\n"; };
  o<<"{\"entry\":\""<<opt.entry<<"\",\n\"asserts\":{"; bool f=true; for(auto&x:A){o<<(f?"":",")<<"\""<<jesc(x.first)<<"\":["<<x.second.first<<","<<x.second.second<<"]";f=false;} o<<"},\n"; mp("covers",C); mp("unsupported",U); mp("unresolved",R); mp("notes",N); mp("stubs",T);
  o<<"\"functions\":["; f=true; for(auto&x:Fs){o<<(f?"":",")<<"\""<<jesc(x)<<"\"";f=false;} o<<"],\n\"samples\":["; f=true; for(auto&x:Ss){o<<(f?"":",")<<x;f=false;} o<<"],\n\"confirmed\":["; f=true; for(auto&x:Vs){o<<(f?"":",")<<x;f=false;} o<<"],\n\"known\":["; f=true; for(auto&x:K){o<<(f?"":",")<<"\""<<jesc(x)<<"\"";f=false;} o<<"],\n";
  auto n=[&](const char*k,long v){o<<"\""<<k<<"\":"<<v<<",\n";};
  n("paths",sh->paths); n("paths_with_witness",sh->witPaths); n("unsupported_paths",sh->unsup); n("unexplored",sh->unexplored); n("infeasible",sh->infeasible); n("queries",sh->queries); n("q_sat",sh->qsat); n("q_unsat",sh->qunsat); n("q_unknown",sh->qunk); n("q_cached",sh->qcache); n("asserts_by_solver",sh->aSolver); n("asserts_concrete",sh->aConcrete); n("confirmed_count",sh->confirmed); n("unresolved_count",sh->unresolved); n("forks",sh->forks); n("blocks",sh->instrs); n("traces",sh->traces); n("trace_mismatch",sh->traceBad); n("cex_tried",sh->cexTried); n("processes",sh->procs); n("crashed",sh->crashed); n("lost_processes",sh->lost);
  o<<"\"solver_s\":"<<sh->solverUs/1e6<<",\n\"wall_s\":"<<now()-t0<<"}\n"; if(opt.out.empty())std::cout<<o.str(); else { std::ofstream of(opt.out); of<<o.str(); }
  return sh->confirmed>0?1:0; }

static bool modelled(const std::string&n){ // bodies dropped before optimisation so that the model above is used
  static const char*pre[]={"_ZNSolsE","_ZStlsI","_ZNSo9_M_insert","_ZSt16__ostream_insert","_ZSt4endl","_ZSt5flush","_ZNSo5flush","_ZNSo3put","_ZNSo5write","_ZSt4ends",nullptr};
  for(int i=0;pre[i];i++) if(n.compare(0,strlen(pre[i]),pre[i])==0)return true; 
  static const std::set<std::string> ex={"sin","cos","tan","sqrt","pow","exp","log","atan2","fabs","floor","ceil","round"}; return ex.count(n)>0; }

int main(int argc,char**argv){
  if(argc>=4&&std::string(argv[1])=="--prep"){ LLVMContext C; SMDiagnostic e; auto m=parseIRFile(argv[2],e,C); if(!m){e.print("symex",errs());return 2;} for(auto&F:*m) if(!F.isDeclaration()&&modelled(F.getName().str())) { F.deleteBody(); F.setComdat(nullptr); } std::error_code ec; raw_fd_ostream os(argv[3],ec); WriteBitcodeToFile(*m,os); return 0; }
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&](){ return std::string(argv[++i]); };
    if(a=="--entry")opt.entry=nx(); else if(a=="--native")opt.native=nx(); else if(a=="--out")opt.out=nx(); else if(a=="--workdir")opt.workdir=nx(); else if(a=="--src")opt.srcRoot=nx(); else if(a=="--jobs")opt.jobs=stoi(nx()); else if(a=="--time")opt.time=stod(nx()); else if(a=="--rlimit")opt.rlimit=stoul(nx()); else if(a=="--max-steps")opt.maxSteps=stoull(nx()); else if(a=="--replays")opt.maxReplays=stoi(nx()); else if(a=="--traces")opt.traces=stoi(nx()); else if(a=="--conc-floor")opt.concFloor=stol(nx()); else if(a=="--qtime")opt.qtime=stod(nx()); else if(a=="--fpvar")opt.fpvar=true; else if(a=="--ieee")opt.ieee=true; else if(a=="--sym-store-fork")opt.symStoreFork=stoi(nx()); else if(a=="--seed")opt.seed=stoull(nx()); else if(a=="--verbose")opt.verbose=true; else opt.bc=a; }
  t0=now(); sh=(Shared*)mmap(nullptr,sizeof(Shared),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(sh)Shared;
  struct rlimit rl; getrlimit(RLIMIT_STACK,&rl); rl.rlim_cur=rl.rlim_max==RLIM_INFINITY?(1UL<<30):rl.rlim_max; if(getenv("SYMEX_STACK")==nullptr){ setrlimit(RLIMIT_STACK,&rl); setenv("SYMEX_STACK","1",1); execv("/proc/self/exe",argv); }
  Exec&E=*new Exec; SMDiagnostic e; E.Mo=parseIRFile(opt.bc,e,E.C); if(!E.Mo){e.print("symex",errs());return 2;} E.M=E.Mo.get(); E.DL=&E.M->getDataLayout();
  E.X.fpVarMode=opt.fpvar; E.X.fpIEEE=opt.ieee; E.rngState^=opt.seed*0x9e3779b97f4a7c15ULL;
  E.entryFn=E.M->getFunction(opt.entry); if(!E.entryFn||E.entryFn->isDeclaration()){ fprintf(stderr,"no entry %s\n",opt.entry.c_str()); return 2; }
  try{ E.setup(); }catch(Unsupported&u){ fprintf(stderr,"setup: %s\n",u.what.c_str()); return 2; }
  if(auto*g=E.M->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())){ std::vector<std::pair<int64_t,const Function*>> v; for(auto&op:ca->operands()){ auto*cs=llvm::cast<ConstantStruct>(op); if(auto*f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) v.push_back({llvm::cast<ConstantInt>(cs->getOperand(0))->getSExtValue(),f}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&x:v)E.ctors.push_back(x.second); }
  prctl(PR_SET_CHILD_SUBREAPER,1,0,0,0); fflush(stdout); fflush(stderr); pid_t w=fork();
  if(w==0){ prctl(PR_SET_PDEATHSIG,SIGKILL); arm(); E.isMain=false; E.runAll(); _exit(0); }
  for(;;){ int st; pid_t p=waitpid(-1,&st,0); if(p<0){ if(errno==EINTR)continue; break; } if(p==w||true){ if(WIFSIGNALED(st)||(WIFEXITED(st)&&WEXITSTATUS(st)!=0)) sh->crashed++; } }
  int rc=E.aggregate(); fflush(stdout); _exit(rc); }
