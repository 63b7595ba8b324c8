#include "expr.h"
#include <algorithm>
#include <limits>

static uint64_t mix(uint64_t h,uint64_t v){h^=v+0x9e3779b97f4a7c15ULL+(h<<6)+(h>>2);return h*0xff51afd7ed558ccdULL;}
std::string i128str(I128 v){ if(v==0)return "0"; bool n=v<0; std::string s; unsigned __int128 u=n?-(unsigned __int128)v:v; while(u){s+=char('0'+(int)(u%10));u/=10;} if(n)s+='-'; std::reverse(s.begin(),s.end()); return s;}
int lowbit_exp(double d){ if(d==0)return 4000; int e; double m=std::frexp(d,&e); int64_t mi=(int64_t)std::ldexp(m,53); e-=53; int tz=__builtin_ctzll((uint64_t)mi); return e+tz; }
static double up(double e){ return e==0?0:std::nextafter(e*(1+1e-12),1e308); }
static double hulp(double m){ m=std::fabs(m); if(m<2.3e-308) return 4.95e-324; int e; std::frexp(m,&e); return std::ldexp(1.0,e-54); } // half ulp bound for |v|<=m
static double mag(Node*n){ return std::max(std::fabs(n->flo),std::fabs(n->fhi)); }
static I128 fl(I128 a,I128 b){ I128 q=a/b; if((a%b!=0)&&((a<0)!=(b<0)))q--; return q; }
static I128 p2(int k){ return ((I128)1)<<k; }

Expr::Expr(){ }

Node* Expr::mk(Node&&p){
  uint64_t h=mix(p.op,(uint64_t)p.k); h=mix(h,(uint64_t)(p.k>>64)); h=mix(h,p.k2);
  for(auto x:p.a) h=mix(h,x?x->id+1:0);
  uint64_t db; memcpy(&db,&p.d,8); h=mix(h,db);
  for(auto&t:p.terms){h=mix(h,t.first->id);h=mix(h,(uint64_t)t.second);}
  auto r=table.equal_range(h);
  for(auto it=r.first;it!=r.second;++it){Node*n=it->second;
    if(n->op==p.op&&n->k==p.k&&n->k2==p.k2&&n->a[0]==p.a[0]&&n->a[1]==p.a[1]&&n->a[2]==p.a[2]&&memcmp(&n->d,&p.d,8)==0&&n->terms==p.terms) return n;}
  Node*n=new Node(std::move(p)); n->id=nodes.size(); nodes.push_back(n);
  attrs(n); table.emplace(h,n); return n;
}

void Expr::attrs(Node*n){
  if(n->op!=I_VAR&&n->op!=B_VAR&&n->op!=F_VAR){
    for(auto x:n->a)if(x){n->deps.add(x->deps);n->bloom|=x->bloom;n->nl|=x->nl;n->hasInt|=x->hasInt;}
    for(auto&t:n->terms){n->deps.add(t.first->deps);n->bloom|=t.first->bloom;n->nl|=t.first->nl;n->hasInt|=t.first->hasInt;}
  } else { if(n->k>=512) throw Unsupported{"more than 512 symbolic inputs"}; n->deps.w[(int)n->k/64]|=1ULL<<((int)n->k%64); }
  if(!n->isConst()) n->bloom|=1ULL<<((n->id*0x9e3779b97f4a7c15ULL)>>58);
  Node*a=n->a[0],*b=n->a[1],*c=n->a[2];
  auto er=[&](Node*x){ return fpVarMode?0.0:x->E; };
  auto bnd=[&](double lo,double hi){ n->flo=lo;n->fhi=hi; if(!(std::fabs(lo)<1e300&&std::fabs(hi)<1e300)) throw Unsupported{"floating-point bound overflow"}; };
  switch(n->op){
  case I_CONST: n->lo=n->hi=n->k; break;
  case I_VAR: n->lo=vars[(int)n->k].lo; n->hi=vars[(int)n->k].hi; n->hasInt=true; break;
  case I_LIN: { I128 lo=n->k,hi=n->k; for(auto&t:n->terms){ if(t.second>0){lo+=t.second*t.first->lo;hi+=t.second*t.first->hi;}else{lo+=t.second*t.first->hi;hi+=t.second*t.first->lo;} } n->lo=lo;n->hi=hi; break; }
  case I_MUL: { I128 v[4]={a->lo*b->lo,a->lo*b->hi,a->hi*b->lo,a->hi*b->hi}; n->lo=*std::min_element(v,v+4); n->hi=*std::max_element(v,v+4); if(a==b&&n->lo<0)n->lo=0; n->nl=true; break; }
  case I_FDIV: n->lo=fl(a->lo,n->k); n->hi=fl(a->hi,n->k); n->hasInt=true; break;
  case I_FMOD: n->lo=0; n->hi=n->k-1; n->hasInt=true; break;
  case I_DIVN: { I128 m=std::max(a->lo<0?-a->lo:a->lo,a->hi<0?-a->hi:a->hi); n->lo=-m;n->hi=m; if(a->lo>=0&&b->lo>=0)n->lo=0; n->nl=true; n->hasInt=true; break; }
  case I_ITE: n->lo=std::min(b->lo,c->lo); n->hi=std::max(b->hi,c->hi); break;
  case I_ZEXT: n->lo=0; n->hi=p2((int)n->k)-1; if(a->hi<0){n->lo=a->lo+p2((int)n->k);n->hi=a->hi+p2((int)n->k);} break;
  case I_WRAP: n->lo=-p2((int)n->k-1); n->hi=p2((int)n->k-1)-1; n->hasInt=true; break;
  case I_FLOOR: n->lo=(I128)std::floor(a->flo); n->hi=(I128)std::floor(a->fhi); n->hasInt=true; break;
  case I_TRUNC: n->lo=(I128)std::trunc(a->flo); n->hi=(I128)std::trunc(a->fhi); n->hasInt=true; break;
  case I_ROUND: n->lo=(I128)std::round(a->flo); n->hi=(I128)std::round(a->fhi); n->hasInt=true; break;
  case I_RINT: n->lo=(I128)std::nearbyint(a->flo); n->hi=(I128)std::nearbyint(a->fhi); n->hasInt=true; break;
  case I_BITS: n->lo=-p2(63); n->hi=p2(63)-1; break;
  case I_BYTES: n->lo=-p2(8*(int)n->k2-1); n->hi=p2(8*(int)n->k2-1)-1; break;
  case F_CONST: n->flo=n->fhi=n->d; n->q=lowbit_exp(n->d); break;
  case F_VAR: { auto&v=vars[(int)n->k]; bnd(v.flo,v.fhi); n->q=v.quantum>0?lowbit_exp(v.quantum):-1074; break; }
  case F_ADD: case F_SUB: {
    bool s=n->op==F_SUB; double blo=s?-b->fhi:b->flo,bhi=s?-b->flo:b->fhi;
    bnd(a->flo+blo,a->fhi+bhi); n->q=std::min(a->q,b->q); double m=mag(n);
    bool exact=(m==0)||(n->q>-1000&&m<std::ldexp(1.0,53+n->q));
    n->E=up(er(a)+er(b))+(exact?0:hulp(m)*1.0000001); if(exact&&er(a)==0&&er(b)==0)n->E=0; break; }
  case F_MUL: {
    double v[4]={a->flo*b->flo,a->flo*b->fhi,a->fhi*b->flo,a->fhi*b->fhi}; bnd(*std::min_element(v,v+4),*std::max_element(v,v+4));
    if(a==b&&n->flo<0)n->flo=0;
    if(!a->isConst()&&!b->isConst())n->nl=true;
    int qq=(a->q<=-1000||b->q<=-1000)?-1074:a->q+b->q; double m=mag(n);
    bool pow2=(a->isConst()&&a->d!=0&&std::fabs(a->d)==std::ldexp(1.0,lowbit_exp(a->d)))||(b->isConst()&&b->d!=0&&std::fabs(b->d)==std::ldexp(1.0,lowbit_exp(b->d)));
    bool exact=(m==0)||pow2||(qq>-1000&&m<std::ldexp(1.0,53+qq)); n->q=exact?qq:-1074;
    n->E=up(mag(a)*er(b)+mag(b)*er(a)+er(a)*er(b))+(exact?0:hulp(m)*1.0000001+5e-324); if(exact&&er(a)==0&&er(b)==0)n->E=0; 
    if(!exact) n->q=-1074;
    break; }
  case F_DIV: {
    if(!b->isConst())n->nl=true;
    double bl=b->flo,bh=b->fhi,bm;
    if(b->isConst()) bm=std::fabs(b->d); else if(bl>0)bm=std::max(bl,n->d); else if(bh<0)bm=std::max(-bh,n->d); else bm=n->d;
    if(!(bm>0)) throw Unsupported{"division by a divisor without lower magnitude bound"};
    if(bl>0||bh<0||b->isConst()){ if(bl>0&&bl<bm)bl=bm; if(bh<0&&bh>-bm)bh=-bm; double v[4]={a->flo/bl,a->flo/bh,a->fhi/bl,a->fhi/bh}; bnd(*std::min_element(v,v+4),*std::max_element(v,v+4)); }
    else { double m=mag(a)/bm; bnd(-m,m); }
    double m=mag(n);
    if(b->isConst()&&std::fabs(b->d)==std::ldexp(1.0,lowbit_exp(b->d))){ n->q=a->q<=-1000?-1074:a->q-lowbit_exp(b->d); n->E=up(er(a)/std::fabs(b->d)); }
    else { n->q=-1074; n->E=(b->isConst()?up(er(a)/bm):0)+hulp(m)*1.0000001+5e-324; }
    break; }
  case F_NEG: bnd(-a->fhi,-a->flo); n->q=a->q; n->E=a->E; break;
  case F_ABS: { double lo=std::fabs(a->flo),hi=std::fabs(a->fhi); double mn=(a->flo<=0&&a->fhi>=0)?0:std::min(lo,hi); bnd(mn,std::max(lo,hi)); n->q=a->q;n->E=a->E; break; }
  case F_SQRT: { bnd(std::sqrt(std::max(0.0,a->flo)),std::sqrt(std::max(0.0,a->fhi))); n->E=hulp(mag(n))*1.0000001; Node*p; double K,t; n->nl=!onLine(a,p,K,t)||p->nl; break; }
  case F_ITE: n->flo=std::min(b->flo,c->flo); n->fhi=std::max(b->fhi,c->fhi); n->q=std::min(b->q,c->q); n->E=std::max(b->E,c->E); break;
  case F_ITOF: { double lo=(double)a->lo,hi=(double)a->hi; bnd(lo,hi); n->q=0; if(mag(n)>9007199254740992.0){ n->E=hulp(mag(n)); } break; }
  case F_POW: { int e=(int)n->k; double lo=std::pow(a->flo,e),hi=std::pow(a->fhi,e); if(e%2==0){ double m=std::max(lo,hi); double mn=(a->flo<=0&&a->fhi>=0)?0:std::min(lo,hi); bnd(mn*(1-1e-15),m*(1+1e-15)); } else bnd(lo-std::fabs(lo)*1e-15,hi+std::fabs(hi)*1e-15);
    double m=mag(n); bool exact=a->q>-500&&m<std::ldexp(1.0,53+e*a->q)&&e==2; n->q=exact?e*a->q:-1074; double ea=er(a); double me=mag(a)+ea; n->E=(ea>0?up(e*std::pow(me,e-1)*ea)+hulp(m)*4:0)+(exact?0:2*hulp(m)*1.0000001); if(exact&&ea==0)n->E=0; n->nl=true; break; }
  case F_UF: {
    n->nl=true; const double P=3.14159265358979323846;
    double al=a->flo,ah=a->fhi;
    switch((int)n->k){
    case UF_SIN: case UF_COS: bnd(-1,1); break;
    case UF_EXP: { double h=std::exp(ah); bnd(std::exp(al)*(1-1e-14),h*(1+1e-14)); break; }
    case UF_LOG: if(al<=0) throw Unsupported{"log of possibly non-positive value"}; bnd(std::log(al)-1e-14,std::log(ah)+1e-14); break;
    case UF_ATAN2: bnd(-P,P); break;
    case UF_ATAN: bnd(std::atan(al)-1e-15,std::atan(ah)+1e-15); break;
    case UF_ACOS: bnd(0,P); break;
    case UF_ASIN: bnd(-P/2,P/2); break;
    case UF_HYPOT: { bnd(0,std::hypot(mag(a),mag(b))*(1+1e-15)); break; }
    case UF_FMOD: { double m=mag(b); bnd(-m,m); break; }
    case UF_F32: { double m=mag(a)*6e-8+2e-45+er(a)*1.01; if(mag(a)>3e38) throw Unsupported{"float overflow"}; bnd(al-m,ah+m); break; }
    case UF_POW: { if(al<0) throw Unsupported{"pow with negative base"}; double v[4]={std::pow(al,b->flo),std::pow(al,b->fhi),std::pow(ah,b->flo),std::pow(ah,b->fhi)}; bnd(*std::min_element(v,v+4)*(1-1e-14),*std::max_element(v,v+4)*(1+1e-14)); break; }
    default: throw Unsupported{"uninterpreted function"};
    }
    break; }
  default: break;
  }
}

// ---------------- ints
Node* Expr::ci(I128 v){Node n;n.op=I_CONST;n.sort=SI;n.k=v;return mk(std::move(n));}
Node* Expr::varI(const std::string&name,I128 lo,I128 hi){ vars.push_back({name,SI,lo,hi,0,0,0,nullptr}); Node n;n.op=I_VAR;n.sort=SI;n.k=vars.size()-1; Node*r=mk(std::move(n)); vars.back().node=r; return r;}
Node* Expr::varB(const std::string&name){ vars.push_back({name,SB,0,1,0,0,0,nullptr}); Node n;n.op=B_VAR;n.sort=SB;n.k=vars.size()-1; Node*r=mk(std::move(n)); vars.back().node=r; return r;}
Node* Expr::varF(const std::string&name,double lo,double hi,double qn){ vars.push_back({name,SF,0,0,lo,hi,qn,nullptr}); Node n;n.op=F_VAR;n.sort=SF;n.k=vars.size()-1; Node*r=mk(std::move(n)); vars.back().node=r; return r;}
Node* Expr::lin(std::vector<std::pair<Node*,I128>>&&t,I128 c){
  std::sort(t.begin(),t.end(),[](auto&x,auto&y){return x.first->id<y.first->id;});
  std::vector<std::pair<Node*,I128>> r;
  for(auto&x:t){ if(!r.empty()&&r.back().first==x.first) r.back().second+=x.second; else { if(!r.empty()&&r.back().second==0)r.pop_back(); r.push_back(x);} }
  if(!r.empty()&&r.back().second==0)r.pop_back();
  if(r.empty())return ci(c);
  if(r.size()==1&&r[0].second==1&&c==0)return r[0].first;
  if(r.size()==1&&r[0].first->op==I_ITE){ Node*i=r[0].first; if(i->a[1]->op==I_CONST&&i->a[2]->op==I_CONST) return ite(i->a[0],ci(i->a[1]->k*r[0].second+c),ci(i->a[2]->k*r[0].second+c)); }
  Node n;n.op=I_LIN;n.sort=SI;n.k=c;n.terms=std::move(r);return mk(std::move(n));
}
static void addTerms(std::vector<std::pair<Node*,I128>>&t,I128&c,Node*n,I128 m){
  if(n->op==I_CONST)c+=n->k*m; else if(n->op==I_LIN){c+=n->k*m;for(auto&x:n->terms)t.push_back({x.first,x.second*m});} else t.push_back({n,m}); }
Node* Expr::add(Node*a,Node*b){ if(a->op==I_CONST&&b->op==I_CONST)return ci(a->k+b->k); if(a->op==I_CONST&&a->k==0)return b; if(b->op==I_CONST&&b->k==0)return a; std::vector<std::pair<Node*,I128>> t;I128 c=0;addTerms(t,c,a,1);addTerms(t,c,b,1);return lin(std::move(t),c);}
Node* Expr::sub(Node*a,Node*b){ if(a==b)return ci(0); if(a->op==I_CONST&&b->op==I_CONST)return ci(a->k-b->k); std::vector<std::pair<Node*,I128>> t;I128 c=0;addTerms(t,c,a,1);addTerms(t,c,b,-1);return lin(std::move(t),c);}
Node* Expr::mulc(Node*a,I128 m){ if(m==0)return ci(0); if(m==1)return a; std::vector<std::pair<Node*,I128>> t;I128 c=0;addTerms(t,c,a,m);return lin(std::move(t),c);}
Node* Expr::mul(Node*a,Node*b){ if(a->op==I_CONST)return mulc(b,a->k); if(b->op==I_CONST)return mulc(a,b->k);
  if(a->op==I_ITE&&a->a[1]->op==I_CONST&&a->a[2]->op==I_CONST) return ite(a->a[0],mulc(b,a->a[1]->k),mulc(b,a->a[2]->k));
  if(b->op==I_ITE&&b->a[1]->op==I_CONST&&b->a[2]->op==I_CONST) return ite(b->a[0],mulc(a,b->a[1]->k),mulc(a,b->a[2]->k));
  if(a->id>b->id)std::swap(a,b); Node n;n.op=I_MUL;n.sort=SI;n.a[0]=a;n.a[1]=b;return mk(std::move(n));}
Node* Expr::fdiv(Node*a,I128 c){ assert(c>0); if(c==1)return a; if(a->op==I_CONST)return ci(fl(a->k,c));
  if(fl(a->lo,c)==fl(a->hi,c)) return ci(fl(a->lo,c));
  if(a->op==I_LIN){ std::vector<std::pair<Node*,I128>> q,r; I128 qc=fl(a->k,c),rc=a->k-qc*c; for(auto&t:a->terms){ I128 x=fl(t.second,c); if(x!=0&&t.second%c==0) q.push_back({t.first,x}); else r.push_back(t);} 
    if(!q.empty()||qc!=0){ Node*rest=fdiv(lin(std::move(r),rc),c); return add(lin(std::move(q),qc),rest);} }
  if(a->op==I_ZEXT){ int w=(int)a->k; for(int k=1;k<w;k++) if(c==p2(k)) return zext(fdiv(a->a[0],c),w-k); }
  if(a->op==I_ITE&&(a->a[1]->op==I_CONST||a->a[2]->op==I_CONST)) return ite(a->a[0],fdiv(a->a[1],c),fdiv(a->a[2],c));
  if(a->op==I_FDIV) return fdiv(a->a[0],a->k*c);
  Node n;n.op=I_FDIV;n.sort=SI;n.a[0]=a;n.k=c;return mk(std::move(n)); }
Node* Expr::fmod_(Node*a,I128 c){ assert(c>0); if(c==1)return ci(0); if(a->op==I_CONST)return ci(a->k-fl(a->k,c)*c);
  if(fl(a->lo,c)==fl(a->hi,c)) return sub(a,ci(fl(a->lo,c)*c));
  if(a->op==I_LIN){ bool ch=false; std::vector<std::pair<Node*,I128>> r; I128 rc=a->k-fl(a->k,c)*c; if(rc!=a->k)ch=true; for(auto&t:a->terms){ I128 m=t.second-fl(t.second,c)*c; if(m!=t.second)ch=true; if(m!=0)r.push_back({t.first,m}); } if(ch) return fmod_(lin(std::move(r),rc),c); }
  if((a->op==I_ZEXT||a->op==I_WRAP)&&p2((int)a->k)%c==0) return fmod_(a->a[0],c);
  if(a->op==I_ITE&&(a->a[1]->op==I_CONST||a->a[2]->op==I_CONST)) return ite(a->a[0],fmod_(a->a[1],c),fmod_(a->a[2],c));
  if(a->op==I_FMOD&&a->k%c==0) return fmod_(a->a[0],c);
  Node n;n.op=I_FMOD;n.sort=SI;n.a[0]=a;n.k=c;return mk(std::move(n)); }
Node* Expr::sdivc(Node*a,I128 c){ if(c<0) return mulc(sdivc(a,-c),-1); if(a->lo>=0)return fdiv(a,c); if(a->hi<=0) return mulc(fdiv(mulc(a,-1),c),-1);
  return ite(le0(a),mulc(fdiv(mulc(a,-1),c),-1),fdiv(a,c)); }
Node* Expr::divn(Node*a,Node*b){ if(b->op==I_CONST)return sdivc(a,b->k); Node n;n.op=I_DIVN;n.sort=SI;n.a[0]=a;n.a[1]=b;return mk(std::move(n)); }
Node* Expr::zext(Node*a,int w){ if(a->op==I_CONST) return ci(a->k<0?a->k+p2(w):a->k); if(a->lo>=0)return a; if(a->hi<0) return add(a,ci(p2(w)));
  if(a->op==I_WRAP&&a->a[0]->op==I_ZEXT&&a->a[0]->k==a->k&&a->k==w) return a->a[0];
  if(a->op==I_ITE&&a->a[1]->op==I_CONST&&a->a[2]->op==I_CONST) return ite(a->a[0],zext(a->a[1],w),zext(a->a[2],w));
  Node n;n.op=I_ZEXT;n.sort=SI;n.a[0]=a;n.k=w;return mk(std::move(n)); }
Node* Expr::wrap(Node*a,int w){ I128 H=p2(w-1); if(a->lo>=-H&&a->hi<H)return a;
  if(a->op==I_CONST){ I128 m=a->k+H; m-=fl(m,2*H)*2*H; return ci(m-H);} 
  if(a->op==I_ZEXT&&a->k==w) return a->a[0]; 
  if((a->op==I_ZEXT||a->op==I_WRAP)&&a->k>w) return wrap(a->a[0],w);
  if(a->op==I_LIN){ bool ch=false; std::vector<std::pair<Node*,I128>> r; I128 c=a->k; auto red=[&](I128 v){ I128 m=v+H; m-=fl(m,2*H)*2*H; m-=H; if(m!=v)ch=true; return m;}; c=red(c); 
    for(auto&t:a->terms){ I128 m=red(t.second); Node*at=t.first; if((at->op==I_ZEXT||at->op==I_WRAP)&&(at->k>=w||m%p2(w-(int)at->k)==0)){at=at->a[0];ch=true;} if(m!=0){ std::vector<std::pair<Node*,I128>> tt; I128 cc=0; addTerms(tt,cc,at,m); c+=cc; for(auto&x:tt)r.push_back(x);} }
    if(ch) return wrap(lin(std::move(r),c),w); }
  if(a->op==I_ITE&&(a->a[1]->op==I_CONST||a->a[2]->op==I_CONST)) return ite(a->a[0],wrap(a->a[1],w),wrap(a->a[2],w));
  // single overflow possible: use ite instead of mod
  Node n;n.op=I_WRAP;n.sort=SI;n.a[0]=a;n.k=w;return mk(std::move(n)); }
Node* Expr::andc(Node*a,I128 mask,int w){ // mask: unsigned value in [0,2^w)
  if(mask==0)return ci(0); if(mask==p2(w)-1)return a;
  if(a->op==I_CONST){ I128 u=a->k<0?a->k+p2(w):a->k; return wrap(ci(u&mask),w);} 
  if(a->sort==SI&&a->op==I_ITE&&a->a[1]->op==I_CONST&&a->a[2]->op==I_CONST) return ite(a->a[0],andc(a->a[1],mask,w),andc(a->a[2],mask,w));
  Node*r=ci(0); int i=0; while(i<w){ if(!((mask>>i)&1)){i++;continue;} int j=i; while(j<w&&((mask>>j)&1))j++; 
    Node*p; if(j==w) p=sub(zext(a,w),fmod_(a,p2(i))); else p=sub(fmod_(a,p2(j)),fmod_(a,p2(i))); r=add(r,p); i=j; }
  return wrap(r,w); }
Node* Expr::orI(Node*a,Node*b,int w){
  if(a->op==I_CONST)std::swap(a,b);
  if(b->op==I_CONST){ I128 m=b->k<0?b->k+p2(w):b->k; return wrap(sub(add(a,ci(m)),andc(a,m,w)),w);} 
  for(int s=0;s<2;s++){ // disjoint by alignment: b multiple of 2^k, 0<=a<2^k
    if(a->lo>=0){ int k=0; while(k<w&&p2(k)<=a->hi)k++; Node*m=fmod_(b,p2(k)); if(m->op==I_CONST&&m->k==0) return wrap(add(a,b),w); }
    std::swap(a,b); }
  if(a==b) return a;
  throw Unsupported{"bitwise or of two symbolic values"};
}
Node* Expr::bytes(Node*n,int off,int len){
  if(n->op==I_CONST){ unsigned __int128 u=(unsigned __int128)n->k; u>>=8*off; I128 m=(I128)(u&(p2(8*len)-1)); return wrap(ci(m),8*len);} 
  if(n->op==I_BYTES) return bytes(n->a[0],(int)n->k+off,len);
  if(n->op==I_BITS) n=n->a[0];
  Node x;x.op=I_BYTES;x.sort=SI;x.a[0]=n;x.k=off;x.k2=len;return mk(std::move(x)); }
// ---------------- bools
Node* Expr::cb(bool b){Node n;n.op=B_CONST;n.sort=SB;n.k=b;return mk(std::move(n));}
Node* Expr::not_(Node*a){ if(a->op==B_CONST)return cb(!a->k); if(a->op==B_NOT)return a->a[0];
  if(a->op==B_LE0) return le0(sub(ci(1),a->a[0]));
  Node n;n.op=B_NOT;n.sort=SB;n.a[0]=a;return mk(std::move(n)); }
Node* Expr::and_(Node*a,Node*b){ if(a->op==B_CONST)return a->k?b:a; if(b->op==B_CONST)return b->k?a:b; if(a==b)return a; if(not_(a)==b)return cb(false); if(a->id>b->id)std::swap(a,b); 
  if(a->op==B_AND&&(a->a[0]==b||a->a[1]==b))return a; if(b->op==B_AND&&(b->a[0]==a||b->a[1]==a))return b;
  Node n;n.op=B_AND;n.sort=SB;n.a[0]=a;n.a[1]=b;return mk(std::move(n)); }
Node* Expr::or_(Node*a,Node*b){ if(a->op==B_CONST)return a->k?a:b; if(b->op==B_CONST)return b->k?b:a; if(a==b)return a; if(not_(a)==b)return cb(true); if(a->id>b->id)std::swap(a,b);
  Node n;n.op=B_OR;n.sort=SB;n.a[0]=a;n.a[1]=b;return mk(std::move(n)); }
Node* Expr::xor_(Node*a,Node*b){ if(a->op==B_CONST)return a->k?not_(b):b; if(b->op==B_CONST)return b->k?not_(a):a; if(a==b)return cb(false); return ite(a,not_(b),b); }
static I128 gcd(I128 a,I128 b){ if(a<0)a=-a; if(b<0)b=-b; while(b){I128 t=a%b;a=b;b=t;} return a; }
Node* Expr::le0(Node*a){ if(a->hi<=0)return cb(true); if(a->lo>0)return cb(false);
  if(a->op==I_ITE&&(a->a[1]->isConst()||a->a[2]->isConst())) return ite(a->a[0],le0(a->a[1]),le0(a->a[2]));
  if(a->op==I_LIN){ I128 g=0; for(auto&t:a->terms)g=gcd(g,t.second); if(g>1){ // sum g*x + c <= 0  <=>  sum x <= floor(-c/g)
      std::vector<std::pair<Node*,I128>> r; for(auto&t:a->terms)r.push_back({t.first,t.second/g}); return le0(lin(std::move(r),-fl(-a->k,g))); }
    if(a->terms.size()==1&&a->terms[0].first->op==I_ITE){ Node*i=a->terms[0].first; Node*x=add(mulc(i->a[1],a->terms[0].second),ci(a->k)),*y=add(mulc(i->a[2],a->terms[0].second),ci(a->k)); Node*p=le0(x),*q=le0(y); if(p->isConst()||q->isConst()) return ite(i->a[0],p,q);} 
  }
  Node n;n.op=B_LE0;n.sort=SB;n.a[0]=a;return mk(std::move(n)); }
Node* Expr::eq0(Node*a){ if(a->op==I_CONST)return cb(a->k==0); if(a->lo>0||a->hi<0)return cb(false);
  if(a->op==I_ITE&&(a->a[1]->isConst()||a->a[2]->isConst())) return ite(a->a[0],eq0(a->a[1]),eq0(a->a[2]));
  if(a->op==I_LIN){ I128 g=0; for(auto&t:a->terms)g=gcd(g,t.second); if(a->k%g!=0)return cb(false); if(a->terms[0].second<0)g=-g; if(g!=1){ std::vector<std::pair<Node*,I128>> r; for(auto&t:a->terms)r.push_back({t.first,t.second/g}); return eq0(lin(std::move(r),a->k/g)); }
    if(a->terms.size()==1&&a->terms[0].first->op==I_ITE){ Node*i=a->terms[0].first; Node*x=add(mulc(i->a[1],a->terms[0].second),ci(a->k)),*y=add(mulc(i->a[2],a->terms[0].second),ci(a->k)); Node*p=eq0(x),*q=eq0(y); if(p->isConst()||q->isConst()) return ite(i->a[0],p,q);} 
    if(a->terms.size()==1&&a->terms[0].first->op==I_ZEXT&&a->terms[0].second==1&&a->k<=0){ Node*z=a->terms[0].first; I128 c=-a->k; if(c>=p2((int)z->k))return cb(false); I128 s=c>=p2((int)z->k-1)?c-p2((int)z->k):c; return eq0(sub(z->a[0],ci(s))); }
  } else if(a->op==I_ZEXT) return eq0(a->a[0]);
  Node n;n.op=B_EQ0;n.sort=SB;n.a[0]=a;return mk(std::move(n)); }
Node* Expr::ite(Node*c,Node*a,Node*b){ if(c->op==B_CONST)return c->k?a:b; if(a==b)return a; if(c->op==B_NOT){return ite(c->a[0],b,a);} 
  if(a->sort==SF&&c->op==B_LT&&a->id<b->id&&((c->a[0]==a&&c->a[1]==b)||(c->a[0]==b&&c->a[1]==a))){ if(c->a[1]==a) return ite(flt(a,b),b,a); return ite(flt(b,a),b,a); }
  Node n;n.a[0]=c;n.a[1]=a;n.a[2]=b;
  if(a->sort==SB){ if(a->isConst()&&b->isConst()) return a->k?c:not_(c); if(a->isConst()) return a->k?or_(c,b):and_(not_(c),b); if(b->isConst()) return b->k?or_(not_(c),a):and_(c,a); if(a==c)return or_(c,b); if(b==c) return and_(c,a); n.op=B_ITE;n.sort=SB; }
  else if(a->sort==SF){ if(a->isConst()&&b->isConst()&&a->d==b->d) return a; 
    if(a->isConst()&&(std::isnan(a->d)||std::isinf(a->d)))throw Unsupported{"ite with non-finite"}; if(b->isConst()&&(std::isnan(b->d)||std::isinf(b->d)))throw Unsupported{"ite with non-finite"}; n.op=F_ITE;n.sort=SF; }
  else { if(a->op==I_ITE&&a->a[0]==c)a=a->a[1]; if(b->op==I_ITE&&b->a[0]==c)b=b->a[2]; n.a[1]=a;n.a[2]=b; if(a==b)return a; n.op=I_ITE;n.sort=SI; }
  return mk(std::move(n)); }
// ---------------- doubles
Node* Expr::cf(double d){ Node n;n.op=F_CONST;n.sort=SF;n.d=d==0?0.0:d; return mk(std::move(n)); }
static bool fin(Node*a){return !(a->op==F_CONST&&!std::isfinite(a->d));}
// Sums that are computed without rounding are identified by their linear form.
bool Expr::linForm(Node*n,std::vector<std::pair<Node*,double>>&t,double&c){
  if(n->op==F_CONST){ c=n->d; return true; }
  if(n->hasLf){ t=n->lf; c=n->lc; return true; }
  t={{n,1.0}}; c=0; return true; }
Node* Expr::exactSum(Node*n){
  if(n->rep) return n->rep;
  n->rep=n;
  if(n->E!=0) return n;
  std::vector<std::pair<Node*,double>> x,y,t; double cx=0,cy=0,c=0; bool ok=true;
  auto plus=[&](double p,double q){ double s=p+q,z=s-p; if((p-(s-z))+(q-z)!=0) ok=false; return s; };
  auto times=[&](double p,double q){ double s=p*q; if(std::fma(p,q,-s)!=0||(s==0&&p!=0&&q!=0)) ok=false; return s; };
  switch(n->op){
  case F_ADD: case F_SUB: { linForm(n->a[0],x,cx); linForm(n->a[1],y,cy); double sg=n->op==F_SUB?-1:1; c=plus(cx,sg*cy);
    size_t i=0,j=0; while(i<x.size()||j<y.size()){
      if(j==y.size()||(i<x.size()&&x[i].first->id<y[j].first->id)) t.push_back(x[i++]);
      else if(i==x.size()||y[j].first->id<x[i].first->id){ t.push_back({y[j].first,sg*y[j].second}); ++j; }
      else { double k=plus(x[i].second,sg*y[j].second); if(k!=0)t.push_back({x[i].first,k}); ++i;++j; } }
    break; }
  case F_MUL: { Node*k=n->a[0]->isConst()?n->a[0]:n->a[1],*o=k==n->a[0]?n->a[1]:n->a[0]; if(!k->isConst())return n; linForm(o,x,cx); c=times(cx,k->d); for(auto&e:x)t.push_back({e.first,times(e.second,k->d)}); break; }
  case F_NEG: linForm(n->a[0],x,cx); c=-cx; for(auto&e:x)t.push_back({e.first,-e.second}); break;
  default: return n; }
  if(!ok||t.size()>12) return n;
  if(t.empty()) return n->rep=cf(c);
  if(t.size()==1&&t[0].second==1&&c==0) return n->rep=t[0].first;
  n->lf=t; n->lc=c; n->hasLf=true;
  uint64_t h=77; uint64_t u; for(auto&e:t){ memcpy(&u,&e.second,8); h=mix(mix(h,e.first->id),u); } memcpy(&u,&c,8); h=mix(h,u);
  auto r=sums.equal_range(h);
  for(auto it=r.first;it!=r.second;++it) if(it->second->lf==t&&it->second->lc==c) return n->rep=it->second;
  { // bounds of the form
    double lo=c,hi=c; for(auto&e:t){ double p=times(e.second,e.second>0?e.first->flo:e.first->fhi),q=times(e.second,e.second>0?e.first->fhi:e.first->flo); lo=plus(lo,p); hi=plus(hi,q); }
    if(ok){ n->flo=std::max(n->flo,lo); n->fhi=std::min(n->fhi,hi); } }
  Node*best=n;
  if(t.size()==1&&c!=0&&t[0].second==1){ Node p;p.op=F_ADD;p.sort=SF; Node*k=cf(c); p.a[0]=t[0].first;p.a[1]=k; if(p.a[0]->id>p.a[1]->id)std::swap(p.a[0],p.a[1]); Node*m=mk(std::move(p)); if(m->E==0) best=m; }
  else if(t.size()==1&&c==0){ if(t[0].second==-1){ Node p;p.op=F_NEG;p.sort=SF;p.a[0]=t[0].first; Node*m=mk(std::move(p)); if(m->E==0)best=m; } else { Node p;p.op=F_MUL;p.sort=SF;p.a[0]=t[0].first;p.a[1]=cf(t[0].second); if(p.a[0]->id>p.a[1]->id)std::swap(p.a[0],p.a[1]); Node*m=mk(std::move(p)); if(m->E==0)best=m; } }
  if(best!=n){ best->lf=t; best->lc=c; best->hasLf=true; best->rep=best; best->flo=std::max(best->flo,n->flo); best->fhi=std::min(best->fhi,n->fhi); n->rep=best; }
  sums.emplace(h,best); return best; }
Node* Expr::fadd(Node*a,Node*b){ if(a->isConst()&&b->isConst())return cf(a->d+b->d); if(!fin(a))return a; if(!fin(b))return b; if(a->isConst()&&a->d==0)return b; if(b->isConst()&&b->d==0)return a; if(b->op==F_NEG)return fsub(a,b->a[0]); if(a->op==F_NEG)return fsub(b,a->a[0]); if(a->op==F_SUB&&a->E==0&&b->E==0&&a->a[1]==b)return a->a[0]; if(b->op==F_SUB&&b->E==0&&a->E==0&&b->a[1]==a)return b->a[0]; if(a->id>b->id)std::swap(a,b); Node n;n.op=F_ADD;n.sort=SF;n.a[0]=a;n.a[1]=b;return exactSum(mk(std::move(n))); }
Node* Expr::fsub(Node*a,Node*b){ if(a->isConst()&&b->isConst())return cf(a->d-b->d); if(!fin(a))return a; if(!fin(b))return cf(-b->d); if(b->isConst()&&b->d==0)return a; if(a==b)return cf(0); if(a->op==F_ADD&&a->E==0&&b->E==0){ if(a->a[0]==b)return a->a[1]; if(a->a[1]==b)return a->a[0]; } if(a->op==F_SUB&&a->E==0&&a->a[0]==b&&b->E==0) return fneg(a->a[1]); if(b->op==F_ADD&&b->E==0&&a->E==0){ if(b->a[0]==a)return fneg(b->a[1]); if(b->a[1]==a)return fneg(b->a[0]); } if(b->op==F_NEG)return fadd(a,b->a[0]); if(a->isConst()&&a->d==0)return fneg(b); Node n;n.op=F_SUB;n.sort=SF;n.a[0]=a;n.a[1]=b;return exactSum(mk(std::move(n))); }
Node* Expr::fmul(Node*a,Node*b){ if(a->isConst()&&b->isConst())return cf(a->d*b->d); if(!fin(a)||!fin(b)) throw Unsupported{"mul with non-finite"}; if(a->isConst()&&a->d==1)return b; if(b->isConst()&&b->d==1)return a; if((a->isConst()&&a->d==0)||(b->isConst()&&b->d==0))return cf(0); if(a->isConst()&&a->d==-1)return fneg(b); if(b->isConst()&&b->d==-1)return fneg(a);
  if(a->op==F_NEG&&b->op==F_NEG) return fmul(a->a[0],b->a[0]); if(a->op==F_NEG) return fneg(fmul(a->a[0],b)); if(b->op==F_NEG) return fneg(fmul(a,b->a[0]));
  if(a->id>b->id)std::swap(a,b); Node n;n.op=F_MUL;n.sort=SF;n.a[0]=a;n.a[1]=b;return exactSum(mk(std::move(n))); }
Node* Expr::fdivf(Node*a,Node*b,double bmin){ if(a->isConst()&&b->isConst())return cf(a->d/b->d); if(b->isConst()&&std::isinf(b->d))return cf(0); if(b->isConst()&&std::isnan(b->d))return b; if(!fin(a)) throw Unsupported{"division of non-finite"}; if(b->isConst()&&b->d==1)return a; if(a->isConst()&&a->d==0)return cf(0); if(a==b) return cf(1);
  if(b->isConst()&&std::fabs(b->d)==std::ldexp(1.0,lowbit_exp(b->d))&&std::fabs(b->d)>1e-100&&std::fabs(b->d)<1e100) return fmul(a,cf(1.0/b->d));
  if(a->op==F_NEG) return fneg(fdivf(a->a[0],b,bmin));
  if(b->isConst())bmin=0; Node n;n.op=F_DIV;n.sort=SF;n.a[0]=a;n.a[1]=b;n.d=bmin;return mk(std::move(n)); }
Node* Expr::fneg(Node*a){ if(a->isConst())return cf(-a->d); if(a->op==F_NEG)return a->a[0]; if(a->op==F_SUB) return fsub(a->a[1],a->a[0]); Node n;n.op=F_NEG;n.sort=SF;n.a[0]=a;return exactSum(mk(std::move(n))); }
Node* Expr::fabs_(Node*a){ if(a->isConst())return cf(std::fabs(a->d)); if(a->flo>=0)return a; if(a->fhi<=0)return fneg(a); if(a->op==F_NEG)return fabs_(a->a[0]); if(a->op==F_SUB&&a->a[0]->id>a->a[1]->id) a=fsub(a->a[1],a->a[0]); if(a->op==F_ABS)return a; Node n;n.op=F_ABS;n.sort=SF;n.a[0]=a;return mk(std::move(n)); }
// p*p+q*q with q = k*p up to rounding (a point on a line through the origin): its root is |p|*sqrt(1+k*k) within t
static bool realLin(Node*n,long double m,std::map<Node*,long double>&t,long double&c,int depth){
  if(depth>40)return false;
  switch(n->op){
  case F_CONST: c+=m*n->d; return true;
  case F_ADD: return realLin(n->a[0],m,t,c,depth+1)&&realLin(n->a[1],m,t,c,depth+1);
  case F_SUB: return realLin(n->a[0],m,t,c,depth+1)&&realLin(n->a[1],-m,t,c,depth+1);
  case F_NEG: return realLin(n->a[0],-m,t,c,depth+1);
  case F_MUL: if(n->a[0]->isConst())return realLin(n->a[1],m*n->a[0]->d,t,c,depth+1); if(n->a[1]->isConst())return realLin(n->a[0],m*n->a[1]->d,t,c,depth+1); break;
  case F_DIV: if(n->a[1]->isConst())return realLin(n->a[0],m/n->a[1]->d,t,c,depth+1); break;
  default: break; }
  t[n]+=m; return t.size()<=12; }
bool Expr::onLine(Node*X,Node*&p,double&K,double&tol){
  if(fpVarMode||X->op!=F_ADD)return false;
  auto root=[](Node*q)->Node*{ return q->op==F_POW&&q->k==2?q->a[0]:q->op==F_MUL&&q->a[0]==q->a[1]?q->a[0]:nullptr; };
  Node*a=root(X->a[0]),*b=root(X->a[1]); if(!a||!b)return false;
  std::map<Node*,long double> ta,tb; long double ca=0,cb=0; if(!realLin(a,1,ta,ca,0)||!realLin(b,1,tb,cb,0))return false;
  auto big=[](std::map<Node*,long double>&t,Node*&v){ long double m=0; v=nullptr; for(auto&e:t)if(fabsl(e.second)>m){m=fabsl(e.second);v=e.first;} return m; };
  Node*va,*vb; long double ma=big(ta,va),mb=big(tb,vb); if(ma==0&&mb==0)return false;
  if(mb>ma){ std::swap(a,b); std::swap(ta,tb); std::swap(ca,cb); std::swap(va,vb); }
  long double k=(tb.count(va)?tb[va]:0)/ta[va], rho=0, sc=0;
  auto rm=[&](Node*v){ return (long double)mag(v)+v->E; };
  for(auto&e:ta){ long double o=tb.count(e.first)?tb[e.first]:0; rho+=fabsl(o-k*e.second)*rm(e.first); sc+=(fabsl(o)+fabsl(k*e.second))*rm(e.first); }
  for(auto&e:tb)if(!ta.count(e.first)){ rho+=fabsl(e.second)*rm(e.first); sc+=fabsl(e.second)*rm(e.first); }
  rho+=fabsl(cb-k*ca); sc+=fabsl(cb)+fabsl(k*ca);
  double d=(double)(rho+sc*1e-15L)+b->E+(double)fabsl(k)*a->E, M=mag(a)+mag(b);
  tol=(d+M*1e-14+1e-150)*1.01; if(!(tol<=1e-9*(1+M)))return false;
  p=a; K=(double)sqrtl(1+k*k); return true; }
Node* Expr::fsqrt(Node*a){ if(a->isConst())return cf(std::sqrt(a->d)); Node n;n.op=F_SQRT;n.sort=SF;n.a[0]=a;return mk(std::move(n)); }
Node* Expr::itof(Node*a){ if(a->isConst())return cf((double)a->k); if(a->op==I_ITE&&(a->a[1]->isConst()&&a->a[2]->isConst())) return ite(a->a[0],itof(a->a[1]),itof(a->a[2])); Node n;n.op=F_ITOF;n.sort=SF;n.a[0]=a;return mk(std::move(n)); }
Node* Expr::fpow(Node*a,int e){ if(a->isConst())return cf(std::pow(a->d,e)); if(e==0)return cf(1); if(e==1)return a; Node n;n.op=F_POW;n.sort=SF;n.a[0]=a;n.k=e;return mk(std::move(n)); }
static double ufeval(int k,double a,double b){ switch(k){case UF_SIN:return std::sin(a);case UF_COS:return std::cos(a);case UF_TAN:return std::tan(a);case UF_EXP:return std::exp(a);case UF_LOG:return std::log(a);case UF_ATAN2:return std::atan2(a,b);case UF_ATAN:return std::atan(a);case UF_ACOS:return std::acos(a);case UF_ASIN:return std::asin(a);case UF_POW:return std::pow(a,b);case UF_HYPOT:return std::hypot(a,b);case UF_FMOD:return std::fmod(a,b);case UF_F32:return (double)(float)a;} return 0; }
Node* Expr::uf(UFK k,Node*a,Node*b){ if(a->isConst()&&(!b||b->isConst())) return cf(ufeval(k,a->d,b?b->d:0)); if(!fin(a)||(b&&!fin(b))) throw Unsupported{"libm call mixing symbolic and non-finite"};
  if(k==UF_F32){ double m=std::max(std::fabs(a->flo),std::fabs(a->fhi)); if((a->op==F_UF&&a->k==UF_F32)||(a->q>-120&&a->q<120&&m<=std::ldexp(1.0,24+a->q))) return a; }
  if(k==UF_SIN&&a->op==F_NEG) return fneg(uf(UF_SIN,a->a[0])); if(k==UF_COS&&a->op==F_NEG) return uf(UF_COS,a->a[0]);
  Node n;n.op=F_UF;n.sort=SF;n.k=k;n.a[0]=a;n.a[1]=b;return mk(std::move(n)); }
Node* Expr::flt(Node*a,Node*b){ // a < b, both finite or concrete
  if(a->isConst()&&b->isConst())return cb(a->d<b->d);
  if(a->isConst()&&std::isnan(a->d))return cb(false); if(b->isConst()&&std::isnan(b->d))return cb(false);
  if(a->isConst()&&std::isinf(a->d))return cb(a->d<0); if(b->isConst()&&std::isinf(b->d))return cb(b->d>0);
  if(a==b)return cb(false); if(a->fhi<b->flo)return cb(true); if(a->flo>=b->fhi)return cb(false);
  if(b->isConst()&&b->d==0&&a->op==F_SUB) return flt(a->a[0],a->a[1]); if(a->isConst()&&a->d==0&&b->op==F_SUB) return flt(b->a[1],b->a[0]);
  if(a->isConst()&&a->d==0&&b->op==F_ABS) return not_(feq(b->a[0],cf(0)));
  if(a->op==F_NEG&&b->op==F_NEG) return flt(b->a[0],a->a[0]); if(a->op==F_NEG&&b->isConst()) return flt(cf(-b->d),a->a[0]); if(b->op==F_NEG&&a->isConst()) return flt(b->a[0],cf(-a->d));
  if(a->op==F_ITE&&a->a[1]->isConst()&&a->a[2]->isConst()) return ite(a->a[0],flt(a->a[1],b),flt(a->a[2],b)); if(b->op==F_ITE&&b->a[1]->isConst()&&b->a[2]->isConst()) return ite(b->a[0],flt(a,b->a[1]),flt(a,b->a[2]));
  if(a->op==F_ITE&&(a->a[1]==b||a->a[2]==b)) return ite(a->a[0],flt(a->a[1],b),flt(a->a[2],b)); if(b->op==F_ITE&&(b->a[1]==a||b->a[2]==a)) return ite(b->a[0],flt(a,b->a[1]),flt(a,b->a[2]));
  if(a->op==F_ITOF&&b->op==F_ITOF&&mag(a)<9e15&&mag(b)<9e15) return ilt(a->a[0],b->a[0]);
  if(a->op==F_ITOF&&b->isConst()&&mag(a)<9e15) return ilt(a->a[0],ci((I128)std::ceil(b->d)));
  if(b->op==F_ITOF&&a->isConst()&&mag(b)<9e15) return ilt(ci((I128)std::floor(a->d)),b->a[0]);
  Node n;n.op=B_LT;n.sort=SB;n.a[0]=a;n.a[1]=b;return mk(std::move(n)); }
Node* Expr::feq(Node*a,Node*b){ if(a->isConst()&&b->isConst())return cb(a->d==b->d); if(!fin(a)||!fin(b))return cb(false); if(a==b)return cb(true); if(a->fhi<b->flo||a->flo>b->fhi)return cb(false);
  if(a->isConst())std::swap(a,b); if(b->isConst()&&b->d==0){ if(a->op==F_SUB)return feq(a->a[0],a->a[1]); if(a->op==F_ABS||a->op==F_NEG||a->op==F_SQRT)return feq(a->a[0],b); }
  if(b->isConst()&&b->d==a->flo) return not_(flt(b,a)); if(b->isConst()&&b->d==a->fhi) return not_(flt(a,b));
  if(a->op==F_ITE&&a->a[1]->isConst()&&a->a[2]->isConst()) return ite(a->a[0],feq(a->a[1],b),feq(a->a[2],b)); if(b->op==F_ITE&&b->a[1]->isConst()&&b->a[2]->isConst()) return ite(b->a[0],feq(a,b->a[1]),feq(a,b->a[2]));
  if(a->op==F_ITOF&&b->op==F_ITOF&&mag(a)<9e15&&mag(b)<9e15) return ieq(a->a[0],b->a[0]);
  if(a->op==F_ITOF&&b->isConst()){ if(b->d!=std::floor(b->d))return cb(false); if(mag(a)<9e15) return ieq(a->a[0],ci((I128)b->d)); }
  if(a->id>b->id)std::swap(a,b); Node n;n.op=B_FEQ;n.sort=SB;n.a[0]=a;n.a[1]=b;return mk(std::move(n)); }
Node* Expr::toint(Op kind,Node*f){ if(f->isConst()){ double d=f->d; double r=kind==I_FLOOR?std::floor(d):kind==I_TRUNC?std::trunc(d):kind==I_ROUND?std::round(d):std::nearbyint(d); if(!(std::fabs(r)<1e30))throw Unsupported{"float to int of huge value"}; return ci((I128)r);} 
  if(f->op==F_ITOF&&mag(f)<9e15)return f->a[0]; if(kind==I_TRUNC&&f->flo>=0)kind=I_FLOOR;
  if(f->op==F_ITE&&(f->a[1]->isConst()||f->a[2]->isConst()||f->a[1]->op==F_ITOF||f->a[2]->op==F_ITOF)) return ite(f->a[0],toint(kind,f->a[1]),toint(kind,f->a[2]));
  if(f->op==F_ITE&&f->a[1]->isConst()) return ite(f->a[0],toint(kind,f->a[1]),toint(kind,f->a[2]));
  if(f->op==F_NEG&&kind!=I_FLOOR) return mulc(toint(kind,f->a[0]),-1);
  // f = itof(k) + c with integral c
  if((f->op==F_ADD||f->op==F_SUB)&&f->E==0&&f->q>=0&&f->a[0]->op==F_ITOF&&f->a[1]->op==F_ITOF) return f->op==F_ADD?add(f->a[0]->a[0],f->a[1]->a[0]):sub(f->a[0]->a[0],f->a[1]->a[0]);
  if(f->E==0&&f->q>=0) { kind=I_FLOOR; }
  Node n;n.op=kind;n.sort=SI;n.a[0]=f; 
  {double l=std::floor(f->flo),h=std::floor(f->fhi); if(kind==I_FLOOR&&l==h) return ci((I128)l);} 
  return mk(std::move(n)); }
Node* Expr::bits(Node*f){ if(f->isConst()){int64_t v;memcpy(&v,&f->d,8);return ci(v);} Node n;n.op=I_BITS;n.sort=SI;n.a[0]=f;return mk(std::move(n)); }

// ---------------- evaluation
static int64_t dbits(double d){int64_t v;memcpy(&v,&d,8);return v;}
Val Expr::eval(Node*n,Assign&A){
  Val r;
  switch(n->op){
  case I_CONST: r.i=n->k; return r; case B_CONST: r.b=n->k!=0; return r; case F_CONST: r.d=n->d; return r;
  case I_VAR: case B_VAR: case F_VAR: return (size_t)n->k<A.v.size()?A.v[(int)n->k]:r;
  default: break; }
  auto it=A.memo.find(n->id); if(it!=A.memo.end())return it->second;
  Val x,y,z; 
  if(n->op==I_ITE||n->op==B_ITE||n->op==F_ITE){ x=eval(n->a[0],A); r=x.b?eval(n->a[1],A):eval(n->a[2],A); A.memo[n->id]=r; return r; }
  if(n->a[0])x=eval(n->a[0],A); if(n->a[1])y=eval(n->a[1],A);
  switch(n->op){
  case I_LIN: r.i=n->k; for(auto&t:n->terms) r.i+=t.second*eval(t.first,A).i; break;
  case I_MUL: r.i=x.i*y.i; break;
  case I_FDIV: r.i=fl(x.i,n->k); break;
  case I_FMOD: r.i=x.i-fl(x.i,n->k)*n->k; break;
  case I_DIVN: r.i=y.i?x.i/y.i:0; break;
  case I_ZEXT: r.i=x.i<0?x.i+p2((int)n->k):x.i; break;
  case I_WRAP: { I128 H=p2((int)n->k-1); I128 m=x.i+H; m-=fl(m,2*H)*2*H; r.i=m-H; break; }
  case I_FLOOR: case I_TRUNC: case I_ROUND: case I_RINT: { double d=n->op==I_FLOOR?std::floor(x.d):n->op==I_TRUNC?std::trunc(x.d):n->op==I_ROUND?std::round(x.d):std::nearbyint(x.d); r.i=std::fabs(d)<1e36?(I128)d:0; break; }
  case I_BITS: r.i=dbits(x.d); break;
  case I_BYTES: { unsigned __int128 u; if(n->a[0]->sort==SF)u=(uint64_t)dbits(x.d); else u=(unsigned __int128)x.i; u>>=8*(int)n->k; I128 W=p2(8*(int)n->k2); I128 m=(I128)(u&(unsigned __int128)(W-1)); if(m>=W/2)m-=W; r.i=m; break; }
  case B_NOT: r.b=!x.b; break; case B_AND: r.b=x.b&&y.b; break; case B_OR: r.b=x.b||y.b; break;
  case B_LE0: r.b=x.i<=0; break; case B_EQ0: r.b=x.i==0; break; case B_LT: r.b=x.d<y.d; break; case B_FEQ: r.b=x.d==y.d; break;
  case F_ADD: r.d=x.d+y.d; break; case F_SUB: r.d=x.d-y.d; break; case F_MUL: r.d=x.d*y.d; break; case F_DIV: r.d=x.d/y.d; break; case F_NEG: r.d=-x.d; break; case F_ABS: r.d=std::fabs(x.d); break; case F_SQRT: r.d=std::sqrt(x.d); break;
  case F_ITOF: r.d=(double)x.i; break; case F_POW: r.d=std::pow(x.d,(double)(int)n->k); break; case F_UF: r.d=ufeval((int)n->k,x.d,y.d); break;
  default: throw Unsupported{"eval"};
  }
  A.memo[n->id]=r; return r;
}

// ---------------- substitution helper: rebuild n with mapped children
Node* Expr::rebuild(Node*n,const std::function<Node*(Node*)>&f){
  Node*a=n->a[0]?f(n->a[0]):0,*b=n->a[1]?f(n->a[1]):0,*c=n->a[2]?f(n->a[2]):0;
  if(n->op==I_LIN){ bool ch=false; std::vector<std::pair<Node*,I128>> t; I128 k=n->k; for(auto&x:n->terms){Node*y=f(x.first); if(y!=x.first)ch=true; addTerms(t,k,y,x.second);} return ch?lin(std::move(t),k):n; }
  if(a==n->a[0]&&b==n->a[1]&&c==n->a[2])return n;
  switch(n->op){
  case I_MUL:return mul(a,b); case I_FDIV:return fdiv(a,n->k); case I_FMOD:return fmod_(a,n->k); case I_DIVN:return divn(a,b); case I_ITE:case B_ITE:case F_ITE:return ite(a,b,c); case I_ZEXT:return zext(a,(int)n->k); case I_WRAP:return wrap(a,(int)n->k);
  case I_FLOOR:case I_TRUNC:case I_ROUND:case I_RINT:return toint(n->op,a); case I_BITS:return bits(a);
  case I_BYTES: if(a->op==F_CONST) return bytes(ci(dbits(a->d)),(int)n->k,(int)n->k2); return bytes(a,(int)n->k,(int)n->k2);
  case B_NOT:return not_(a); case B_AND:return and_(a,b); case B_OR:return or_(a,b); case B_LE0:return le0(a); case B_EQ0:return eq0(a); case B_LT:return flt(a,b); case B_FEQ:return feq(a,b);
  case F_ADD:return fadd(a,b); case F_SUB:return fsub(a,b); case F_MUL:return fmul(a,b); case F_DIV:return fdivf(a,b,n->d); case F_NEG:return fneg(a); case F_ABS:return fabs_(a); case F_SQRT:return fsqrt(a); case F_ITOF:return itof(a); case F_POW:return fpow(a,(int)n->k); case F_UF:return uf((UFK)(int)n->k,a,b);
  default:return n; }
}

// ---------------- z3
z3::expr Expr::zi(I128 v){return ctx.int_val(i128str(v).c_str());}
z3::expr Expr::zc(double d){ if(d==0)return ctx.real_val(0); int e=lowbit_exp(d); double m=std::ldexp(d,-e); std::string s=i128str((I128)m); if(e>=0&&e<60){ return ctx.real_val(i128str((I128)d).c_str()); }
  if(e>=60){ z3::expr p=ctx.real_val(1); I128 ee=e; std::string t="1"; z3::expr r=ctx.real_val(s.c_str()); while(ee>0){int st=ee>60?60:(int)ee; r=r*ctx.real_val(i128str(p2(st)).c_str()); ee-=st;} return r.simplify(); }
  int ne=-e; if(ne<=120){ return ctx.real_val((s+"/"+i128str(p2(ne))).c_str()); }
  z3::expr r=ctx.real_val(s.c_str()); while(ne>0){int st=ne>100?100:ne; r=r*ctx.real_val(("1/"+i128str(p2(st))).c_str()); ne-=st;} return r.simplify(); }
z3::expr Expr::freshReal(Node*n,const char*p){return ctx.real_const((std::string(p)+std::to_string(n->id)).c_str());}
z3::expr Expr::freshInt(Node*n,const char*p){return ctx.int_const((std::string(p)+std::to_string(n->id)).c_str());}
z3::expr Expr::zint(Node*n){
  if(n->zR)return z3::expr(ctx,n->zR);
  z3::expr r(ctx);
  switch(n->op){
  case I_CONST:r=zi(n->k);break;
  case I_VAR:{auto&v=vars[(int)n->k]; r=ctx.int_const(("i"+std::to_string((int)n->k)).c_str()); n->defs.push_back(keep(zi(v.lo)<=r&&r<=zi(v.hi)));break;}
  case I_LIN:{ r=zi(n->k); for(auto&t:n->terms) r=r+(t.second==1?zint(t.first):zi(t.second)*zint(t.first)); break; }
  case I_MUL:r=zint(n->a[0])*zint(n->a[1]);break;
  case I_FDIV:{ r=freshInt(n,"q"); z3::expr x=zint(n->a[0]); n->defs.push_back(keep(zi(n->k)*r<=x&&x<zi(n->k)*r+zi(n->k))); break; }
  case I_FMOD:{ z3::expr q=freshInt(n,"m"); z3::expr x=zint(n->a[0]); r=x-zi(n->k)*q; n->defs.push_back(keep(r>=0&&r<zi(n->k))); break; }
  case I_DIVN:{ z3::expr x=zint(n->a[0]),y=zint(n->a[1]); z3::expr ax=z3::ite(x<0,-x,x),ay=z3::ite(y<0,-y,y); z3::expr q=ax/ay; r=z3::ite((x<0)!=(y<0),-q,q); break; }
  case I_ITE:r=z3::ite(zbool(n->a[0]),zint(n->a[1]),zint(n->a[2]));break;
  case I_ZEXT:{z3::expr x=zint(n->a[0]); r=z3::ite(x<0,x+zi(p2((int)n->k)),x);break;}
  case I_WRAP:{ z3::expr q=freshInt(n,"w"); z3::expr x=zint(n->a[0]); I128 W=p2((int)n->k); r=x-zi(W)*q; n->defs.push_back(keep(r>=zi(-(W/2))&&r<zi(W/2))); break; }
  case I_FLOOR:case I_TRUNC:case I_ROUND:case I_RINT:{ r=freshInt(n,"k"); z3::expr x=zval(n->a[0]); z3::expr k=z3::to_real(r); z3::expr h=ctx.real_val("1/2");
    z3::expr d(ctx); if(n->op==I_FLOOR) d=(k<=x&&x<k+1); else if(n->op==I_TRUNC) d=z3::ite(x>=0,k<=x&&x<k+1,k-1<x&&x<=k); else if(n->op==I_ROUND) d=z3::ite(x>=0,k-h<=x&&x<k+h,k-h<x&&x<=k+h); else d=(k-h<=x&&x<=k+h);
    n->defs.push_back(keep(d)); n->defs.push_back(keep(zi(n->lo)<=r&&r<=zi(n->hi))); break; }
  case I_BITS: case I_BYTES: { // arithmetic view of a piece of an integer; otherwise opaque
    if(n->op==I_BYTES&&n->a[0]->sort==SI){ z3::expr x=zint(n->a[0]); z3::expr q=freshInt(n,"bq"); I128 W=p2(8*(int)n->k2); r=freshInt(n,"by"); z3::expr lowx=freshInt(n,"bl"); I128 L=p2(8*(int)n->k); 
      n->defs.push_back(keep(x==(q*zi(W)+r)*zi(L)+lowx&&lowx>=0&&lowx<zi(L)&&r>=zi(-(W/2))&&r<zi(W/2))); }
    else { r=freshInt(n,"ob"); n->defs.push_back(keep(r>=zi(n->lo)&&r<=zi(n->hi))); }
    break; }
  default: throw Unsupported{"zint"}; }
  n->zR=keep(r); return r; }
z3::expr Expr::zbool(Node*n){
  if(n->zR)return z3::expr(ctx,n->zR);
  z3::expr r(ctx);
  switch(n->op){
  case B_CONST:r=ctx.bool_val(n->k!=0);break; case B_VAR:r=ctx.bool_const(("b"+std::to_string((int)n->k)).c_str());break;
  case B_NOT:r=!zbool(n->a[0]);break; case B_AND:r=zbool(n->a[0])&&zbool(n->a[1]);break; case B_OR:r=zbool(n->a[0])||zbool(n->a[1]);break; case B_ITE:r=z3::ite(zbool(n->a[0]),zbool(n->a[1]),zbool(n->a[2]));break;
  case B_LE0:r=zint(n->a[0])<=0;break; case B_EQ0:r=zint(n->a[0])==0;break;
  case B_LT: r=fpIEEE? z3::expr(zfp(n->a[0])<zfp(n->a[1])) : z3::expr(zval(n->a[0])<zval(n->a[1]));break;
  case B_FEQ:r=fpIEEE? z3::expr(z3::fp_eq(zfp(n->a[0]),zfp(n->a[1]))) : z3::expr(zval(n->a[0])==zval(n->a[1]));break;
  default: throw Unsupported{"zbool"}; }
  n->zR=keep(r); return r; }
z3::expr Expr::zval(Node*n){
  if(n->zV)return z3::expr(ctx,n->zV);
  z3::expr r(ctx);
  if(n->op==F_ITE) r=z3::ite(zbool(n->a[0]),zval(n->a[1]),zval(n->a[2]));
  else if(n->op==F_NEG) r=-zval(n->a[0]);
  else if(n->op==F_ABS){ z3::expr x=zval(n->a[0]); r=z3::ite(x<0,-x,x); }
  else if(n->op==F_MUL&&n->E>0&&((n->a[0]->isConst()&&std::fabs(n->a[0]->d)==std::ldexp(1.0,lowbit_exp(n->a[0]->d)))||(n->a[1]->isConst()&&std::fabs(n->a[1]->d)==std::ldexp(1.0,lowbit_exp(n->a[1]->d))))) r=zval(n->a[0])*zval(n->a[1]);
  else if(n->E==0) r=zreal(n);
  else { z3::expr R=zreal(n); r=freshReal(n,"v"); z3::expr e=zc(n->E); n->defs.push_back(keep(r<=R+e&&r>=R-e&&r>=zc(n->flo)&&r<=zc(n->fhi))); }
  n->zV=keep(r); return r; }
z3::expr Expr::zreal(Node*n){
  if(n->zR)return z3::expr(ctx,n->zR);
  z3::expr r(ctx);
  auto sub1=[&](Node*x){ return fpVarMode?zval(x):zreal(x); };
  switch(n->op){
  case F_CONST:r=zc(n->d);break;
  case F_VAR:{ auto&v=vars[(int)n->k]; r=ctx.real_const(("f"+std::to_string((int)n->k)).c_str()); n->defs.push_back(keep(zc(v.flo)<=r&&r<=zc(v.fhi))); break; }
  case F_ADD:r=sub1(n->a[0])+sub1(n->a[1]);break; case F_SUB:r=sub1(n->a[0])-sub1(n->a[1]);break; case F_MUL:{ // the length of (x,y) times the cosine or sine of its direction, possibly rotated by a constant
    bool done=false;
    for(int i=0;i<2&&!done&&!fpVarMode;i++){ Node*S=n->a[i],*U=n->a[1-i]; if(S->op!=F_SQRT||U->op!=F_UF||(U->k!=UF_SIN&&U->k!=UF_COS))continue;
      Node*A=U->a[0]; double k=0,er=0; if((A->op==F_ADD||A->op==F_SUB)&&A->a[0]->isConst()!=A->a[1]->isConst()){ er=A->E; if(A->a[1]->isConst()){ k=A->op==F_SUB?-A->a[1]->d:A->a[1]->d; A=A->a[0]; } else if(A->op==F_ADD){ k=A->a[0]->d; A=A->a[1]; } }
      if(A->op!=F_UF||A->k!=UF_ATAN2)continue; Node*y=A->a[0],*x=A->a[1],*X=S->a[0];
      auto sq=[&](Node*q,Node*v){ return (q->op==F_POW&&q->k==2&&q->a[0]==v)||(q->op==F_MUL&&q->a[0]==v&&q->a[1]==v)||(q->isConst()&&v->isConst()&&q->d==v->d*v->d); };
      bool m=X->op==F_ADD&&((sq(X->a[0],x)&&sq(X->a[1],y))||(sq(X->a[0],y)&&sq(X->a[1],x))); if(x->isConst()&&x->d==0)m=m||sq(X,y); if(y->isConst()&&y->d==0)m=m||sq(X,x);
      if(!m)continue; done=true;
      double mag=std::max(std::fabs(y->flo),std::fabs(y->fhi))+std::max(std::fabs(x->flo),std::fabs(x->fhi)); z3::expr xx=zval(x),yy=zval(y),t=zc(mag*(2e-14+er*1.01)+1e-150);
      z3::expr v=k==0?(U->k==UF_COS?xx:yy):U->k==UF_COS?zc(std::cos(k))*xx-zc(std::sin(k))*yy:zc(std::cos(k))*yy+zc(std::sin(k))*xx;
      r=freshReal(n,"p"); n->defs.push_back(keep(r-v<=t&&v-r<=t)); n->extra={x,y}; }
    if(!done) r=sub1(n->a[0])*sub1(n->a[1]); break; }
  case F_DIV: if(n->a[1]->isConst()){ r=sub1(n->a[0])/zc(n->a[1]->d); } else { r=freshReal(n,"d"); z3::expr b=zval(n->a[1]); n->defs.push_back(keep(z3::implies(b!=0,r*b==zval(n->a[0])))); } break;
  case F_NEG:r=-sub1(n->a[0]);break; case F_ABS:{z3::expr x=sub1(n->a[0]);r=z3::ite(x<0,-x,x);break;}
  case F_SQRT:{ r=freshReal(n,"s"); Node*p; double K,t; if(onLine(n->a[0],p,K,t)){ z3::expr x=zval(p),y=zc(K)*z3::ite(x<0,-x,x),tt=zc(t); n->extra={p}; n->defs.push_back(keep(r>=0&&r-y<=tt&&y-r<=tt)); break; } n->defs.push_back(keep(r>=0&&r*r==zval(n->a[0]))); break; }
  case F_ITE:r=z3::ite(zbool(n->a[0]),sub1(n->a[1]),sub1(n->a[2]));break;
  case F_ITOF:r=z3::to_real(zint(n->a[0]));break;
  case F_POW:{ z3::expr x=sub1(n->a[0]); r=x; int e=(int)n->k; bool neg=e<0; if(neg)throw Unsupported{"negative power"}; for(int i=1;i<e;i++)r=r*x; break; }
  case F_UF:{ r=freshReal(n,"u"); n->defs.push_back(keep(r>=zc(n->flo)&&r<=zc(n->fhi)));
    if(n->k==UF_SIN||n->k==UF_COS){ Node*o=uf(n->k==UF_SIN?UF_COS:UF_SIN,n->a[0]); z3::expr rr=freshReal(o,"u"); z3::expr e=ctx.real_val("1/500000000000000"); z3::expr s=r*r+rr*rr-1; n->defs.push_back(keep(s<=e&&s>=-e&&rr>=-1&&rr<=1));
      Node*A=n->a[0]; double er=A->E;
      if((A->op==F_ADD||A->op==F_SUB)&&(A->a[0]->isConst()!=A->a[1]->isConst())){ // the angle sum of a constant: cos(sg*Y+k)
        bool c1=A->a[1]->isConst(); Node*Y=c1?A->a[0]:A->a[1]; double k=c1?A->a[1]->d:A->a[0]->d; double sg=1; if(A->op==F_SUB){ if(c1)k=-k; else sg=-1; }
        Node*nc=uf(UF_COS,Y),*ns=uf(UF_SIN,Y); z3::expr cy=zval(nc),sy=zval(ns); n->extra={nc,ns}; double t=1e-15+er*1.01+Y->E*0; if(sg<0) sy=-sy;
        z3::expr v=n->k==UF_COS?zc(std::cos(k))*cy-zc(std::sin(k))*sy:zc(std::cos(k))*sy+zc(std::sin(k))*cy; z3::expr tt=zc(t*4); n->defs.push_back(keep(r-v<=tt&&v-r<=tt)); }
      if(A->op==F_UF&&A->k==UF_ATAN2){ // the direction of (x,y)
        z3::expr y=zval(A->a[0]),x=zval(A->a[1]); double m=std::max(std::fabs(A->a[0]->flo),std::fabs(A->a[0]->fhi))+std::max(std::fabs(A->a[1]->flo),std::fabs(A->a[1]->fhi)); z3::expr R=ctx.real_const(("R"+std::to_string(A->id)).c_str()); z3::expr t=zc(m*4e-15);
        z3::expr v=n->k==UF_COS?x:y; n->defs.push_back(keep(R>=0&&R*R==x*x+y*y&&r*R-v<=t&&v-r*R<=t)); }
    }
    if(n->k==UF_ACOS){ // decreasing: enclosed between breakpoints next to every 3 degrees
      z3::expr x=zval(n->a[0]); for(int i=1;i<60;i++){ double t=i*3.14159265358979323846/60; z3::expr tl=zc(t-1e-9),th=zc(t+1e-9); n->defs.push_back(keep(z3::implies(x>=zc(std::cos(t-1e-9)+1e-15),r<=tl))); n->defs.push_back(keep(z3::implies(x<=zc(std::cos(t+1e-9)-1e-15),r>=th))); }
      for(double e:{1e-6,1e-4,1e-2}) for(double t:{e,3.14159265358979323846-e}){ n->defs.push_back(keep(z3::implies(x>=zc(std::cos(t)+1e-15),r<=zc(t+1e-12)))); n->defs.push_back(keep(z3::implies(x<=zc(std::cos(t)-1e-15),r>=zc(t-1e-12)))); } }
    if(n->k==UF_ATAN2){ // the half planes next to every 15 degrees; a[0]=y, a[1]=x
      z3::expr y=zval(n->a[0]),x=zval(n->a[1]); const double P=3.14159265358979323846; double sl=1e-14*(std::max(std::fabs(n->a[0]->flo),std::fabs(n->a[0]->fhi))+std::max(std::fabs(n->a[1]->flo),std::fabs(n->a[1]->fhi))); z3::expr S=zc(sl);
      n->defs.push_back(keep(z3::implies(y>0,r>0))); n->defs.push_back(keep(z3::implies(y<0,r<0))); n->defs.push_back(keep(z3::implies(y==0&&x>0,r==0))); n->defs.push_back(keep(z3::implies(y==0&&x<0,r>=zc(3.14159265358979)||r<=zc(-3.14159265358979))));
      for(int i=1;i<12;i++) for(int k=0;k<2;k++){ double t=i*P/12+(k?1e-9:-1e-9); z3::expr s=zc(std::sin(t)),c=zc(std::cos(t)),cr=x*s-y*c,cn=x*s+y*c; // cr>=0: below direction t
        if(!k){ n->defs.push_back(keep(z3::implies(y>0&&cr>=S,r<=zc(t)))); n->defs.push_back(keep(z3::implies(y<0&&cn>=S,r>=zc(-t)))); }
        else { n->defs.push_back(keep(z3::implies(y>0&&cr<=-S,r>=zc(t)))); n->defs.push_back(keep(z3::implies(y<0&&cn<=-S,r<=zc(-t)))); } } }
    if(n->k==UF_F32){ z3::expr x=sub1(n->a[0]); double m=std::max(std::fabs(n->a[0]->flo),std::fabs(n->a[0]->fhi)); (void)m; z3::expr t=zc(6e-8)*z3::ite(x>=0,x,-x)+zc(2e-45+n->a[0]->E*1.01); n->defs.push_back(keep(r<=x+t&&r>=x-t)); }
    break; }
  default: throw Unsupported{"zreal"}; }
  n->zR=keep(r); return r; }
z3::expr Expr::zfp(Node*n){
  if(n->zFP)return z3::expr(ctx,n->zFP);
  z3::sort S=ctx.fpa_sort<64>(); z3::expr rm(ctx,Z3_mk_fpa_rne(ctx)); z3::expr r(ctx);
  auto bin=[&](Z3_ast(*f)(Z3_context,Z3_ast,Z3_ast,Z3_ast)){ return z3::expr(ctx,f(ctx,rm,zfp(n->a[0]),zfp(n->a[1]))); };
  switch(n->op){
  case F_CONST: r=ctx.fpa_val(n->d); break;
  case F_VAR: { auto&v=vars[(int)n->k]; r=ctx.constant(("f"+std::to_string((int)n->k)).c_str(),S); n->defs.push_back(keep(r>=ctx.fpa_val(v.flo)&&r<=ctx.fpa_val(v.fhi))); break; }
  case F_ADD:r=bin(Z3_mk_fpa_add);break; case F_SUB:r=bin(Z3_mk_fpa_sub);break; case F_MUL:r=bin(Z3_mk_fpa_mul);break; case F_DIV:r=bin(Z3_mk_fpa_div);break;
  case F_NEG:r=-zfp(n->a[0]);break; case F_ABS:r=z3::expr(ctx,Z3_mk_fpa_abs(ctx,zfp(n->a[0])));break; case F_SQRT:r=z3::expr(ctx,Z3_mk_fpa_sqrt(ctx,rm,zfp(n->a[0])));break;
  case F_ITE:r=z3::ite(zbool(n->a[0]),zfp(n->a[1]),zfp(n->a[2]));break;
  case F_POW: if(n->k==2) r=z3::expr(ctx,Z3_mk_fpa_mul(ctx,rm,zfp(n->a[0]),zfp(n->a[0]))); else throw Unsupported{"pow in IEEE mode"}; break;
  default: throw Unsupported{"operation in IEEE mode"}; }
  n->zFP=keep(r); return r; }
void Expr::collectDefs(const std::vector<Node*>&roots,std::vector<z3::expr>&out,bool gridInt){
  stampCtr++; std::vector<Node*> st(roots.begin(),roots.end());
  while(!st.empty()){ Node*n=st.back(); st.pop_back(); if(n->stamp==stampCtr)continue; n->stamp=stampCtr;
    for(auto d:n->defs) out.push_back(z3::expr(ctx,d));
    if(gridInt&&n->op==F_VAR&&n->zR&&!fpIEEE){ auto&v=vars[(int)n->k]; if(v.quantum>0){ z3::expr k=ctx.int_const(("g"+std::to_string((int)n->k)).c_str()); out.push_back(z3::expr(ctx,n->zR)==z3::to_real(k)*zc(v.quantum)); } }
    for(auto x:n->a)if(x)st.push_back(x); for(auto&t:n->terms)st.push_back(t.first); for(auto x:n->extra)st.push_back(x);
  }
}
std::string Expr::str(Node*n,int d){
  static const char*nm[]={"c","i","lin","mul","fdiv","fmod","divn","ite","zext","wrap","floor","trunc","round","rint","bits","bytes","B","b","not","and","or","bite","le0","eq0","lt","feq","F","f","fadd","fsub","fmul","fdiv","fneg","fabs","fsqrt","fite","itof","pow","uf"};
  if(n->op==I_CONST||n->op==B_CONST)return i128str(n->k); if(n->op==F_CONST)return std::to_string(n->d); if(n->op==I_VAR||n->op==B_VAR||n->op==F_VAR)return vars[(int)n->k].name;
  if(d==0)return "#"+std::to_string(n->id);
  if(n->op==I_LIN){ std::string s="("+i128str(n->k); for(auto&t:n->terms)s+=" + "+i128str(t.second)+"*"+str(t.first,d-1); return s+")"; }
  std::string s=nm[n->op]; if(n->k&&n->op!=B_CONST) s+=":"+i128str(n->k); s+="("; for(int i=0;i<3;i++)if(n->a[i])s+=(i?", ":"")+str(n->a[i],d-1); return s+")"; }
