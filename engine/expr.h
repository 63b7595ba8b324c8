// Expression layer of symex: hash-consed DAG over mathematical integers, booleans and
// IEEE doubles.  A double node stands for the *IEEE-754 value*; its translation to Z3 is an
// exact real term R plus a rigorous bound E on |IEEE value - R| (E = 0 when exactness is proved).
#pragma once
#include <z3++.h>
#include <cstdint>
#include <vector>
#include <string>
#include <map>
#include <unordered_map>
#include <memory>
#include <cmath>
#include <cstring>
#include <cassert>
#include <functional>

typedef __int128 I128;

enum Op : uint8_t {
  // integers (mathematical; a w-bit register holds the signed interpretation)
  I_CONST, I_VAR, I_LIN, I_MUL, I_FDIV, I_FMOD, I_DIVN, I_ITE, I_ZEXT, I_WRAP, I_FLOOR, I_TRUNC, I_ROUND, I_RINT,
  I_BITS,   // bit pattern of a double (opaque)
  I_BYTES,  // bytes [k, k+k2) of a node (opaque piece)
  // booleans
  B_CONST, B_VAR, B_NOT, B_AND, B_OR, B_ITE, B_LE0, B_EQ0, B_LT, B_FEQ,
  // doubles
  F_CONST, F_VAR, F_ADD, F_SUB, F_MUL, F_DIV, F_NEG, F_ABS, F_SQRT, F_ITE, F_ITOF, F_POW, F_UF
};
enum Sort : uint8_t { SI, SB, SF };
enum UFK : int { UF_SIN=1, UF_COS, UF_TAN, UF_EXP, UF_LOG, UF_ATAN2, UF_ATAN, UF_ACOS, UF_ASIN, UF_POW, UF_HYPOT, UF_FMOD, UF_F32 };

struct Deps { uint64_t w[8]={0,0,0,0,0,0,0,0};
  void add(const Deps&o){for(int i=0;i<8;i++)w[i]|=o.w[i];}
  bool meets(const Deps&o)const{for(int i=0;i<8;i++)if(w[i]&o.w[i])return true;return false;}
  bool operator==(const Deps&o)const{for(int i=0;i<8;i++)if(w[i]!=o.w[i])return false;return true;}
};

struct Node {
  Op op; Sort sort; uint32_t id;
  Node* a[3]={0,0,0};
  I128 k=0;           // constant / divisor / var index / byte offset / width
  int64_t k2=0;
  double d=0;         // F_CONST value, F_DIV: lower bound on |divisor|
  std::vector<std::pair<Node*,I128>> terms; // I_LIN
  // attributes
  I128 lo=0, hi=0;    // ints
  double flo=0, fhi=0, E=0; int q=-1074;
  bool nl=false, hasInt=false;
  Deps deps; uint64_t bloom=0;
  // z3 caches
  Z3_ast zR=nullptr, zV=nullptr, zFP=nullptr;
  std::vector<Z3_ast> defs;   // side conditions of this node
  std::vector<Node*> extra;   // nodes its side conditions mention
  uint32_t stamp=0;
  // exact sums: linear form over other nodes; rep is the node that stands for that form
  std::vector<std::pair<Node*,double>> lf; double lc=0; bool hasLf=false; Node*rep=nullptr;
  bool isConst() const {return op==I_CONST||op==B_CONST||op==F_CONST;}
};

struct VarInfo { std::string name; Sort sort; I128 lo,hi; double flo,fhi; double quantum; Node* node; };

struct Val { I128 i=0; double d=0; bool b=false; };
struct Assign {            // witness: value per input variable
  std::vector<Val> v; std::vector<char> has;
  std::unordered_map<uint32_t,Val> memo;
};

struct Unsupported { std::string what; };

class Expr {
public:
  z3::context ctx;
  std::vector<VarInfo> vars;
  bool fpVarMode=false;      // materialise every inexact operation
  bool fpIEEE=false;         // translate doubles to the SMT floating-point theory
  Expr();
  // ---- ints
  Node* ci(I128 v);
  Node* varI(const std::string&name,I128 lo,I128 hi);
  Node* add(Node*a,Node*b); Node* sub(Node*a,Node*b); Node* mulc(Node*a,I128 c); Node* mul(Node*a,Node*b);
  Node* fdiv(Node*a,I128 c); Node* fmod_(Node*a,I128 c);
  Node* sdivc(Node*a,I128 c);
  Node* divn(Node*a,Node*b); // truncating division, nonconstant
  Node* ite(Node*c,Node*a,Node*b); // any sort
  Node* zext(Node*a,int w);  // unsigned interpretation of w-bit signed value
  Node* wrap(Node*a,int w);
  Node* andc(Node*a,I128 mask,int w);
  Node* orI(Node*a,Node*b,int w);
  Node* bytes(Node*n,int off,int len);
  // ---- bools
  Node* cb(bool b); Node* varB(const std::string&name);
  Node* not_(Node*a); Node* and_(Node*a,Node*b); Node* or_(Node*a,Node*b); Node* xor_(Node*a,Node*b);
  Node* le0(Node*a); Node* eq0(Node*a);
  Node* ieq(Node*a,Node*b){return eq0(sub(a,b));}
  Node* ile(Node*a,Node*b){return le0(sub(a,b));}
  Node* ilt(Node*a,Node*b){return le0(add(sub(a,b),ci(1)));}
  // ---- doubles
  Node* cf(double d);
  Node* varF(const std::string&name,double lo,double hi,double quantum);
  Node* fadd(Node*a,Node*b); Node* fsub(Node*a,Node*b); Node* fmul(Node*a,Node*b); Node* fdivf(Node*a,Node*b,double bmin);
  bool onLine(Node*X,Node*&p,double&K,double&tol);
  Node* fneg(Node*a); Node* fabs_(Node*a); Node* fsqrt(Node*a); Node* itof(Node*a);
  Node* fpow(Node*a,int n); Node* uf(UFK k,Node*a,Node*b=nullptr);
  Node* flt(Node*a,Node*b); Node* feq(Node*a,Node*b);
  Node* fle(Node*a,Node*b){return not_(flt(b,a));}
  Node* toint(Op kind,Node*f); // I_FLOOR, I_TRUNC, I_ROUND, I_RINT
  Node* bits(Node*f);
  // ---- evaluation under a witness
  Val eval(Node*n,Assign&a);
  // ---- z3
  z3::expr zint(Node*n); z3::expr zbool(Node*n); z3::expr zreal(Node*n); z3::expr zval(Node*n);
  z3::expr zfp(Node*n);
  void collectDefs(const std::vector<Node*>&roots,std::vector<z3::expr>&out,bool gridInt);
  Node* rebuild(Node*n,const std::function<Node*(Node*)>&f);
  std::string str(Node*n,int depth=6);
  size_t numNodes() const {return nodes.size();}
private:
  std::vector<Node*> nodes;
  std::unordered_multimap<uint64_t,Node*> table;
  uint32_t stampCtr=0;
  Node* mk(Node&&proto);
  Node* exactSum(Node*n);  // canonical node of equal value
  bool linForm(Node*n,std::vector<std::pair<Node*,double>>&t,double&c);
  std::unordered_multimap<uint64_t,Node*> sums;
  void attrs(Node*n);
  Node* lin(std::vector<std::pair<Node*,I128>>&&t,I128 c);
  Z3_ast keep(z3::expr e){Z3_inc_ref(ctx,e);return e;}
  z3::expr freshReal(Node*n,const char*p); z3::expr freshInt(Node*n,const char*p);
  z3::expr zc(double d); z3::expr zi(I128 v);
  void tr(Node*n);   // ensure children translated iteratively
};
std::string i128str(I128 v);
int lowbit_exp(double d);
