#pragma once
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <set>
#include <deque>
#include <array>
#include <atomic>
#include <unordered_set>

struct SVal { uint64_t u=0; Node*s=nullptr; };
enum Kind : uint8_t { KI, KF, KP, KF32, KX };

struct Page { uint8_t b[256]; };
struct Cell { Node*n; uint32_t size; };
struct LogEnt { Node*off; uint32_t size; SVal v; Kind kind; };
struct Obj {
  uint64_t size=0; bool freed=false, ro=false; uint8_t kind=0; // 0 global 1 stack 2 heap 3 function
  std::vector<std::shared_ptr<Page>> pages; std::map<uint64_t,Cell> cells; std::vector<LogEnt> log;
};
struct Chunk { std::shared_ptr<Obj> o[64]; };

struct Operand { int32_t slot; }; // >=0 register slot; <0: constant pool index ~slot
struct DBlock; struct DFunc;
struct DInst {
  unsigned op; const llvm::Instruction*I; int dst=-1; int nslots=0; unsigned w=0; Kind kind=KI; unsigned size=0;
  std::vector<Operand> ops; std::vector<std::pair<Operand,int64_t>> gep; int64_t imm=0; unsigned pred=0; unsigned w2=0;
  DBlock*t1=nullptr,*t2=nullptr; DFunc*callee=nullptr; std::vector<std::pair<uint64_t,DBlock*>> cases; int model=-1; uint64_t calleeAddr=0;
  std::vector<std::pair<unsigned,unsigned>> flat; std::vector<Kind> fkinds; std::vector<unsigned> argSlots; llvm::Intrinsic::ID iid=0;
};
struct PhiCopy { int dst; Operand src; int n; };
struct DBlock { DFunc*f; const llvm::BasicBlock*bb; std::vector<DInst> insts; std::map<DBlock*,std::vector<PhiCopy>> phis; bool seen=false; std::vector<int> cov; int id; };
struct DFunc { const llvm::Function*F; std::vector<SVal> consts; std::vector<DBlock*> blocks; int nregs=0; std::vector<int> argSlot; std::string name; };

struct Frame { DFunc*f; DBlock*bb; int ip; DBlock*prev; std::vector<SVal> regs; std::vector<uint32_t> allocas; };
struct Known { std::unordered_map<Node*,Node*> val; uint64_t bloom=0; std::unordered_map<Node*,Node*> memo; };
struct Lit { Node*orig; bool raw; Node*sub; const Known*ver; };
struct State {
  std::vector<Frame> stack; std::vector<std::shared_ptr<Chunk>> mem; uint32_t nextObj=1;
  std::vector<Lit> pc; std::shared_ptr<Known> known; std::shared_ptr<Assign> wit;
  std::map<std::string,int> names; std::vector<std::tuple<std::string,int,Node*>> inputs; // name,kind,node
  std::vector<std::pair<std::string,SVal>> obs; std::vector<std::pair<std::string,Kind>> obsKind; std::vector<std::string> covers;
  uint64_t steps=0; size_t phase=0; bool dead=false; int forks=0; bool allowThrow=false; uint64_t exnObj=0,exnType=0,exnSel=0; std::vector<std::pair<uint64_t,uint64_t>> caught; std::vector<std::string> assumptionsHit;
};
