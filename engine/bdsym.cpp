#include <cerrno>
// bdsym: symbolic executor for LLVM bitcode, deciding branch feasibility and assertions with Z3 (QF_BV).
// See /verif/DESIGN.md for semantics and limits.
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <z3.h>
#include <chrono>
#include <map>
#include <set>
#include <deque>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <cmath>
#include <cxxabi.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/Support/raw_ostream.h>
#include <array>
using namespace llvm;
typedef std::vector<u64> Model;
static double now(){ using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }

static ExprPool X;

// ------------------------------------------------------------------ options / stats
struct Opts { std::string bc, entry, outdir, tokfile; u64 maxSteps=3000000, maxPaths=50000000; double maxTime=800; int maxViol=12; u64 maxAlloc=1<<20; int maxConc=4096; int maxPreempt=0; bool trace=false; int maxProcs=1; u64 rlimit=400000000ull; int allocFail=0; } opt;
struct Stats { u64 paths=0, pruned=0, steps=0, forks=0, queries=0, qsat=0, qunsat=0, qunk=0, cacheHits=0, modelHits=0, asserts=0, assertRewritten=0, assertSolver=0, asserted_sites=0, infeasible=0, maxCons=0, knownHits=0; double solver=0; } st;
static std::map<std::string,std::string> aliasMap; static std::set<std::string> incomplete; // reasons exploration is incomplete
static std::set<std::string> fnsSeen;
static std::map<std::string,u64> reachTags;
static std::map<std::string,u64> boundNotes;
static std::vector<std::string> sampleInputs;

// ------------------------------------------------------------------ memory
struct Acc { u32 th, clk; u32 off, len; bool wr, atom; }; // accesses by running threads, for race detection
typedef std::vector<u32> VC;
struct Obj { u32 rc=1; u64 addr=0, size=0; u8 kind=0; /*0 global 1 stack 2 heap(malloc) 3 new 4 new[] 5 ext*/ bool freed=false, ro=false, leakExempt=false; u32 seq=0; std::string name; std::vector<E> b; std::vector<Acc> acc; };
struct ObjP { Obj*p=nullptr; ObjP(){} ObjP(Obj*q):p(q){} ObjP(const ObjP&o):p(o.p){ if(p) p->rc++; } ObjP(ObjP&&o):p(o.p){ o.p=nullptr; } ~ObjP(){ rel(); } void rel(){ if(p&&--p->rc==0) delete p; p=nullptr; }
  ObjP&operator=(const ObjP&o){ if(o.p) o.p->rc++; rel(); p=o.p; return *this; } ObjP&operator=(ObjP&&o){ if(this!=&o){ rel(); p=o.p; o.p=nullptr; } return *this; } };
static const u64 SLOT=1ull<<22, ABASE=0x100000000000ull, AOFF=0x10000;
static const u64 FNBASE=0x400000, FNSTEP=16;
struct Chunk { u32 rc=1; ObjP o[32]; };
struct ChunkP { Chunk*p=nullptr; ChunkP(){} ChunkP(const ChunkP&o):p(o.p){ if(p)p->rc++; } ChunkP(ChunkP&&o):p(o.p){o.p=nullptr;} ~ChunkP(){ if(p&&--p->rc==0) delete p; } ChunkP&operator=(ChunkP o){ std::swap(p,o.p); return *this; } };
struct Mem {
  std::vector<ChunkP> ch; u32 n=0; std::vector<u32> freeStack;
  Obj* get(u32 i) const { if(i>=n) return nullptr; return ch[i>>5].p->o[i&31].p; }
  ObjP& ref(u32 i){ Chunk*&c=ch[i>>5].p; if(c->rc>1){ Chunk*d=new Chunk(); for(int k=0;k<32;k++) d->o[k]=c->o[k]; c->rc--; c=d; } return c->o[i&31]; }
  Obj* wr(u32 i){ ObjP&r=ref(i); if(r.p->rc>1){ Obj*d=new Obj(*r.p); d->rc=1; r.p->rc--; r.p=d; } return r.p; }
  u32 add(Obj*o,bool stack){ u32 i; if(stack&&!freeStack.empty()){ i=freeStack.back(); freeStack.pop_back(); } else { i=n++; if((i>>5)>=ch.size()){ ch.emplace_back(); ch.back().p=new Chunk(); } }
    o->addr=ABASE+i*SLOT+AOFF; ref(i)=ObjP(o); return i; }
  static bool slotOf(u64 a,u32&i){ if(a<ABASE) return false; u64 s=(a-ABASE)/SLOT; if(s>0xfffffff) return false; i=s; return true; }
};

// ------------------------------------------------------------------ decoded code
struct Opnd { int reg=-1; E c=nullptr; u8 undefw=0; };
struct Edge { u32 target=0; std::vector<std::pair<int,Opnd>> moves; };
struct Fn;
enum IK : u8 { IBin, ICmp, IFCmp, IFBin, ICastZ, ICastS, ICastT, ICastCopy, IFCast, ISelect, IGep, ILoad, IStore, IAlloca, IBr, ICondBr, ISwitch, IRet, ICall, IInvoke, ILandingpad, IResume, IExtractV, IInsertV, IAtomicRMW, ICmpXchg, IUnreachable, INop, IUnsupported, IFNeg, IFence };
struct Inst { IK k=INop; int dst=-1; unsigned w=0, w2=0, sub=0; std::vector<Opnd> ops; std::vector<Edge> edges; std::vector<u64> cases; Fn*callee=nullptr; i64 coff=0; std::vector<u64> scales; std::vector<unsigned> idx; Type*ty=nullptr; const Instruction*raw=nullptr; };
struct Engine; struct State;
typedef bool (*Handler)(Engine&,State&,const Inst&,std::vector<E>&,E&); // returns true when 'ret' valid/done; false when a frame was pushed
struct Fn { Function*f=nullptr; bool decoded=false; std::vector<Inst> code; int nregs=0; int nargs=0; u64 addr=0; Handler h=nullptr; bool model=false; std::string name; std::vector<unsigned> byval; };
struct Frame { Fn*fn; u32 pc=0; std::vector<E> r; std::vector<u32> allocas; int retReg=-1; const Inst*callsite=nullptr; std::vector<E> varargs; };
struct Thread { std::vector<Frame> fr; int waitJoin=-1; bool done=false; E pendExc=nullptr; u64 visible=0; VC vc, relF, acqP; };
struct InVal { E e; u32 bytes; };
struct Cons { E e; };
struct State {
  u64 id=0; Mem m; std::vector<Thread> th; u32 cur=0; std::vector<E> cons; std::shared_ptr<Model> model;
  std::vector<InVal> inputs; u64 steps=0; u32 allocSeq=0; i64 liveHeap=0; u32 preempts=0; std::vector<std::array<u64,3>> sched; // (thread, visible operations it had executed, thread switched to)
  std::map<u64,VC> rel; // clock released at each atomic location
  std::vector<std::pair<u32,std::string>> uninits; // symbol idx,desc
  bool skipSP=false; int allocFailLeft=0; std::vector<std::string> notes; std::vector<std::string> tags; u64 allocCtr=0; std::vector<E> tls;
  std::vector<Frame>& fr(){ return th[cur].fr; } Frame& top(){ return th[cur].fr.back(); }
};
struct PathEnd { const char*why; };

// ------------------------------------------------------------------ solver
struct Solver {
  Z3_context ctx; Z3_solver s; std::vector<Z3_ast> memo; Z3_sort bvs[65]; Z3_sort bs; 
  struct QR { int r; std::shared_ptr<std::vector<std::pair<u32,u64>>> m; };
  std::unordered_map<std::string,QR> cache;
  void init(){ Z3_config c=Z3_mk_config(); ctx=Z3_mk_context(c); Z3_set_error_handler(ctx,[](Z3_context c,Z3_error_code e){ fprintf(stderr,"z3 error %s\n",Z3_get_error_msg(c,e)); abort(); });
    bs=Z3_mk_bool_sort(ctx); for(int i=1;i<=64;i++) bvs[i]=Z3_mk_bv_sort(ctx,i);
    s=Z3_mk_solver_for_logic(ctx,Z3_mk_string_symbol(ctx,"QF_BV")); Z3_solver_inc_ref(ctx,s);
    Z3_params p=Z3_mk_params(ctx); Z3_params_inc_ref(ctx,p); Z3_params_set_uint(ctx,p,Z3_mk_string_symbol(ctx,"rlimit"),(unsigned)std::min<u64>(opt.rlimit,4000000000ull)); Z3_solver_set_params(ctx,s,p); }
  Z3_ast bv(E e){ Z3_ast z=conv(e); if(e->w==1) return Z3_mk_ite(ctx,z,Z3_mk_unsigned_int64(ctx,1,bvs[1]),Z3_mk_unsigned_int64(ctx,0,bvs[1])); return z; }
  Z3_ast conv(E e){ if(memo.size()<X.nid) memo.resize(X.nid*2+1024,nullptr); if(memo[e->id]) return memo[e->id];
    Z3_ast r=nullptr; bool B=e->w==1;
    switch(e->op){
      case OConst: r=B?(e->v?Z3_mk_true(ctx):Z3_mk_false(ctx)):Z3_mk_unsigned_int64(ctx,e->v,bvs[e->w]); break;
      case OSym: { char n[32]; snprintf(n,32,"v%llu",(unsigned long long)e->v); r=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n),B?bs:bvs[e->w]); break; }
      case OAdd: r=Z3_mk_bvadd(ctx,conv(e->a),conv(e->b)); break; case OSub: r=Z3_mk_bvsub(ctx,conv(e->a),conv(e->b)); break; case OMul: r=Z3_mk_bvmul(ctx,conv(e->a),conv(e->b)); break;
      case OUDiv: r=Z3_mk_bvudiv(ctx,conv(e->a),conv(e->b)); break; case OSDiv: r=Z3_mk_bvsdiv(ctx,conv(e->a),conv(e->b)); break; case OURem: r=Z3_mk_bvurem(ctx,conv(e->a),conv(e->b)); break; case OSRem: r=Z3_mk_bvsrem(ctx,conv(e->a),conv(e->b)); break;
      case OAnd: if(B){ Z3_ast x[2]={conv(e->a),conv(e->b)}; r=Z3_mk_and(ctx,2,x); } else r=Z3_mk_bvand(ctx,conv(e->a),conv(e->b)); break;
      case OOr: if(B){ Z3_ast x[2]={conv(e->a),conv(e->b)}; r=Z3_mk_or(ctx,2,x); } else r=Z3_mk_bvor(ctx,conv(e->a),conv(e->b)); break;
      case OXor: r=B?Z3_mk_xor(ctx,conv(e->a),conv(e->b)):Z3_mk_bvxor(ctx,conv(e->a),conv(e->b)); break;
      case OShl: r=Z3_mk_bvshl(ctx,conv(e->a),conv(e->b)); break; case OLShr: r=Z3_mk_bvlshr(ctx,conv(e->a),conv(e->b)); break; case OAShr: r=Z3_mk_bvashr(ctx,conv(e->a),conv(e->b)); break;
      case OEq: if(e->b==X.F) r=Z3_mk_not(ctx,conv(e->a)); else r=Z3_mk_eq(ctx,conv(e->a),conv(e->b)); break;
      case OUlt: r=Z3_mk_bvult(ctx,bv(e->a),bv(e->b)); break; case OUle: r=Z3_mk_bvule(ctx,bv(e->a),bv(e->b)); break; case OSlt: r=Z3_mk_bvslt(ctx,bv(e->a),bv(e->b)); break; case OSle: r=Z3_mk_bvsle(ctx,bv(e->a),bv(e->b)); break;
      case OIte: r=Z3_mk_ite(ctx,conv(e->a),conv(e->b),conv(e->c)); break;
      case OZExt: r=Z3_mk_zero_ext(ctx,e->w-e->a->w,bv(e->a)); break; case OSExt: r=Z3_mk_sign_ext(ctx,e->w-e->a->w,bv(e->a)); break;
      case OExtract: r=Z3_mk_extract(ctx,e->lo+e->w-1,e->lo,bv(e->a)); if(B) r=Z3_mk_eq(ctx,r,Z3_mk_unsigned_int64(ctx,1,bvs[1])); break;
      case OConcat: r=Z3_mk_concat(ctx,bv(e->a),bv(e->b)); break;
      default: abort(); }
    Z3_inc_ref(ctx,r); memo[e->id]=r; return r; }
  // constraints relevant to q (transitively sharing symbols)
  std::vector<u32> mark; u32 mep=0;
  void slice(const std::vector<E>&cons,E q,std::vector<E>&out,std::vector<u32>&syms){
    if(mark.size()<X.syms.size()) mark.resize(X.syms.size()*2+64,0); ++mep; syms.clear();
    auto addS=[&](E e){ for(u32 s:*X.support(e)) if(mark[s]!=mep){ mark[s]=mep; syms.push_back(s); } };
    addS(q); std::vector<char> used(cons.size(),0); bool ch=true; 
    while(ch){ ch=false; for(size_t i=0;i<cons.size();i++) if(!used[i]){ auto sp=X.support(cons[i]); bool hit=false; for(u32 s:*sp) if(mark[s]==mep){ hit=true; break; } if(hit){ used[i]=1; addS(cons[i]); ch=true; } } }
    for(size_t i=0;i<cons.size();i++) if(used[i]) out.push_back(cons[i]); }
  // 1 sat, 0 unsat, -1 unknown.  On sat, newModel = base overlaid.
  int check(const std::vector<E>&cons,E q,const Model*base,std::shared_ptr<Model>*nm){
    if(q->isC()) { if(q->v&&nm) *nm=std::make_shared<Model>(*base); return q->v; }
    std::vector<E> sl; std::vector<u32> syms; slice(cons,q,sl,syms);
    std::vector<u32> key; for(E e:sl) key.push_back(e->id); key.push_back(q->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
    std::string ks((char*)key.data(),key.size()*4);
    auto it=cache.find(ks); QR res;
    if(it!=cache.end()){ st.cacheHits++; res=it->second; }
    else { double t=now(); st.queries++; 
      for(E e:sl) Z3_solver_assert(ctx,s,conv(e)); Z3_solver_assert(ctx,s,conv(q));
      Z3_lbool r=Z3_solver_check(ctx,s); res.r= r==Z3_L_TRUE?1: r==Z3_L_FALSE?0:-1;
      if(res.r==1){ st.qsat++; res.m=std::make_shared<std::vector<std::pair<u32,u64>>>(); Z3_model m=Z3_solver_get_model(ctx,s); Z3_model_inc_ref(ctx,m);
        for(u32 sy:syms){ E se=nullptr; unsigned w=X.syms[sy].w; (void)se; char n[32]; snprintf(n,32,"v%u",sy); Z3_ast c=Z3_mk_const(ctx,Z3_mk_string_symbol(ctx,n),w==1?bs:bvs[w]); Z3_inc_ref(ctx,c); Z3_ast v=nullptr; u64 val=0;
          if(Z3_model_eval(ctx,m,c,true,&v)){ Z3_inc_ref(ctx,v); if(w==1) val=Z3_get_bool_value(ctx,v)==Z3_L_TRUE; else { uint64_t q64=0; Z3_get_numeral_uint64(ctx,v,&q64); val=q64; } Z3_dec_ref(ctx,v);} Z3_dec_ref(ctx,c); res.m->push_back({sy,val}); }
        Z3_model_dec_ref(ctx,m); }
      else if(res.r==0) st.qunsat++; else st.qunk++;
      Z3_solver_reset(ctx,s); st.solver+=now()-t; if(res.r>=0) cache[ks]=res; }
    if(res.r==1&&nm){ auto m=std::make_shared<Model>(*base); for(auto&p:*res.m){ if(m->size()<=p.first) m->resize(p.first+1,0); (*m)[p.first]=p.second; } *nm=m; }
    return res.r; }
} sol;

struct Violation { std::string kind,msg,loc,stack; std::vector<u8> input; std::vector<std::array<u64,3>> sched; std::vector<u8> fills; std::vector<std::string> notes; };
static std::vector<Violation> viols; static std::map<std::string,int> violCount;

// shared token counter for multi-process exploration
struct Shared { volatile int tokens; volatile int stop; };
static Shared*shared=nullptr; /* token file */ static Shared*loc=nullptr; /* per-run stop flag */ static bool holdTok=false; static int depthProc=0; static std::vector<pid_t> kids; static int procSeq=0; static std::string procTag="p";

// ------------------------------------------------------------------ engine
struct Engine {
  LLVMContext ctx; std::unique_ptr<Module> M; const DataLayout*DL; std::unordered_map<const Function*,Fn*> fns; std::unordered_map<u64,Fn*> fnByAddr; std::vector<Fn*> fnList;
  std::unordered_map<const GlobalVariable*,u64> gaddr; std::vector<State*> work; std::unordered_map<std::string,Handler> handlers; double t0; State*initS=nullptr; u64 stateId=0;
  std::unordered_map<u64,std::string> gnameByAddr; std::unordered_map<std::string,std::vector<std::string>> tbases;

  unsigned width(Type*t){ if(t->isIntegerTy()) return t->getIntegerBitWidth(); if(t->isPointerTy()) return 64; if(t->isFloatTy()) return 32; if(t->isDoubleTy()) return 64; return 0; }
  Fn* getFn(Function*f){ if(!aliasMap.empty()&&f->isDeclaration()){ auto al=aliasMap.find(f->getName().str()); if(al!=aliasMap.end()) if(Function*g=M->getFunction(al->second)) if(g!=f) return getFn(g); } auto it=fns.find(f); if(it!=fns.end()) return it->second; Fn*n=new Fn(); n->f=f; n->name=f->getName().str(); n->nargs=f->arg_size(); n->addr=FNBASE+fnList.size()*FNSTEP; fns[f]=n; fnList.push_back(n); fnByAddr[n->addr]=n;
    auto h=handlers.find(n->name); if(h!=handlers.end()) n->h=h->second; else if(f->isIntrinsic()){ } return n; }

  // ---- constants
  E constExpr(const Constant*c){
    if(auto ci=dyn_cast<ConstantInt>(c)){ if(ci->getBitWidth()>64) throw std::string("int constant wider than 64"); return X.C(ci->getZExtValue(),ci->getBitWidth()); }
    if(isa<ConstantPointerNull>(c)) return X.C(0,64);
    if(auto cf=dyn_cast<ConstantFP>(c)){ APInt b=cf->getValueAPF().bitcastToAPInt(); if(b.getBitWidth()>64) return X.C(0,64); return X.C(b.getZExtValue(),b.getBitWidth()); }
    if(auto f=dyn_cast<Function>(c)) return X.C(getFn(const_cast<Function*>(f))->addr,64);
    if(auto g=dyn_cast<GlobalVariable>(c)) return X.C(gaddr.at(g),64);
    if(auto ga=dyn_cast<GlobalAlias>(c)) return constExpr(ga->getAliasee());
    if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)){ Type*t=c->getType(); if(t->isStructTy()||t->isArrayTy()){ std::vector<E> k; unsigned n=t->isStructTy()?t->getStructNumElements():t->getArrayNumElements(); for(unsigned i=0;i<n;i++){ Type*et=t->isStructTy()?t->getStructElementType(i):t->getArrayElementType(); k.push_back(isa<UndefValue>(c)?constExpr(UndefValue::get(et)):constExpr(Constant::getNullValue(et))); } return X.agg(k); } unsigned w=width(t); if(!w) throw std::string("const type"); return X.C(0,w); }
    if(isa<ConstantStruct>(c)||isa<ConstantArray>(c)||isa<ConstantDataSequential>(c)){ std::vector<E> k; if(auto ds=dyn_cast<ConstantDataSequential>(c)){ for(unsigned i=0;i<ds->getNumElements();i++) k.push_back(constExpr(ds->getElementAsConstant(i))); } else for(auto&o:c->operands()) k.push_back(constExpr(cast<Constant>(o))); return X.agg(k); }
    if(auto ce=dyn_cast<ConstantExpr>(c)){
      switch(ce->getOpcode()){
        case Instruction::GetElementPtr: { APInt off(64,0); if(!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) throw std::string("gep const"); return X.Add(constExpr(ce->getOperand(0)),X.C(off.getZExtValue(),64)); }
        case Instruction::BitCast: case Instruction::AddrSpaceCast: return constExpr(ce->getOperand(0));
        case Instruction::PtrToInt: { E e=constExpr(ce->getOperand(0)); return X.Extract(e,0,width(ce->getType())); }
        case Instruction::IntToPtr: return X.ZExt(constExpr(ce->getOperand(0)),64);
        case Instruction::Trunc: return X.Extract(constExpr(ce->getOperand(0)),0,width(ce->getType()));
        case Instruction::Add: return X.Add(constExpr(ce->getOperand(0)),constExpr(ce->getOperand(1)));
        case Instruction::Sub: return X.Sub(constExpr(ce->getOperand(0)),constExpr(ce->getOperand(1)));
        case Instruction::Xor: return X.Xor(constExpr(ce->getOperand(0)),constExpr(ce->getOperand(1)));
        case Instruction::ICmp: { auto p=(CmpInst::Predicate)ce->getPredicate(); E a=constExpr(ce->getOperand(0)),b=constExpr(ce->getOperand(1)); return icmp(p,a,b); }
        default: throw std::string("constexpr ")+ce->getOpcodeName(); } }
    throw std::string("constant kind");
  }
  void writeConst(std::vector<E>&b,u64 off,const Constant*c){ Type*t=c->getType();
    if(isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||c->isNullValue()){ u64 n=DL->getTypeAllocSize(t); for(u64 i=0;i<n;i++) b[off+i]=X.cache8[0]; return; }
    if(auto s=dyn_cast<ConstantStruct>(c)){ auto sl=DL->getStructLayout(s->getType()); for(unsigned i=0;i<s->getNumOperands();i++) writeConst(b,off+sl->getElementOffset(i),s->getOperand(i)); return; }
    if(auto a=dyn_cast<ConstantArray>(c)){ u64 es=DL->getTypeAllocSize(a->getType()->getElementType()); for(unsigned i=0;i<a->getNumOperands();i++) writeConst(b,off+i*es,a->getOperand(i)); return; }
    if(auto d=dyn_cast<ConstantDataSequential>(c)){ u64 es=d->getElementByteSize(); StringRef r=d->getRawDataValues(); for(u64 i=0;i<r.size();i++) b[off+i]=X.cache8[(u8)r[i]]; (void)es; return; }
    E e=constExpr(c); unsigned n=(DL->getTypeStoreSize(t)); for(unsigned i=0;i<n;i++) b[off+i]= i*8<e->w? X.Extract(e->w<8?X.ZExt(e,8):e,i*8,8):X.cache8[0]; }

  // ---- decoding
  Opnd opnd(const Value*v,std::unordered_map<const Value*,int>&regs){ Opnd o; if(auto c=dyn_cast<Constant>(v)){ if(isa<UndefValue>(c)&&!isa<PoisonValue>(c)&&width(c->getType())){ o.undefw=width(c->getType()); return o; } o.c=constExpr(c); return o; }
    auto it=regs.find(v); if(it==regs.end()){ if(isa<MetadataAsValue>(v)||isa<BasicBlock>(v)||isa<InlineAsm>(v)){ o.c=X.C(0,64); return o; } throw std::string("operand"); } o.reg=it->second; return o; }
  void decode(Fn*fn){ if(fn->decoded) return; fn->decoded=true; Function*f=fn->f; fnsSeen.insert(fn->name);
    std::unordered_map<const Value*,int> R; int n=0; for(auto&a:f->args()) R[&a]=n++; 
    for(auto&bb:*f) for(auto&i:bb) if(!i.getType()->isVoidTy()) R[&i]=n++; fn->nregs=n;
    for(auto&a:f->args()) fn->byval.push_back(a.hasByValAttr()?DL->getTypeAllocSize(a.getParamByValType()):0);
    std::unordered_map<const BasicBlock*,u32> start; 
    for(auto&bb:*f){ start[&bb]=fn->code.size(); for(auto&i:bb){ if(isa<PHINode>(i)||i.isDebugOrPseudoInst()) continue; Inst d; d.raw=&i; if(!i.getType()->isVoidTy()) d.dst=R[&i];
        try{ dec(d,i,R); }catch(std::string&e){ d.k=INop; d.k=IUnsupported; d.ops.clear(); (void)e; }
        fn->code.push_back(std::move(d)); } }
    // edges
    for(auto&d:fn->code){ const Instruction*i=d.raw; if(!i->isTerminator()) continue; for(unsigned k=0;k<i->getNumSuccessors();k++){ Edge e; const BasicBlock*s=i->getSuccessor(k); e.target=start[s]; for(auto&p:s->phis()){ e.moves.push_back({R[&p],opnd(p.getIncomingValueForBlock(i->getParent()),R)}); } d.edges.push_back(std::move(e)); } } }
  void dec(Inst&d,const Instruction&i,std::unordered_map<const Value*,int>&R){
    auto O=[&](unsigned k){ d.ops.push_back(opnd(i.getOperand(k),R)); };
    d.ty=i.getType(); d.w=width(i.getType());
    if(auto b=dyn_cast<BinaryOperator>(&i)){ d.k=i.getType()->isFloatingPointTy()?IFBin:IBin; d.sub=b->getOpcode(); O(0);O(1); if(!d.w||(!i.getType()->isFloatingPointTy()&&d.w>64)) throw std::string("binop type"); return; }
    if(auto u=dyn_cast<UnaryOperator>(&i)){ (void)u; d.k=IFNeg; O(0); return; }
    if(auto c=dyn_cast<ICmpInst>(&i)){ d.k=ICmp; d.sub=c->getPredicate(); O(0);O(1); if(!width(c->getOperand(0)->getType())||width(c->getOperand(0)->getType())>64) throw std::string("icmp"); return; }
    if(auto c=dyn_cast<FCmpInst>(&i)){ d.k=IFCmp; d.sub=c->getPredicate(); d.w2=width(c->getOperand(0)->getType()); O(0);O(1); return; }
    if(auto c=dyn_cast<CastInst>(&i)){ O(0); d.w2=width(c->getOperand(0)->getType()); d.sub=c->getOpcode(); if(!d.w||!d.w2||d.w>64||d.w2>64) throw std::string("cast");
      switch(c->getOpcode()){ case Instruction::ZExt: d.k=ICastZ; return; case Instruction::SExt: d.k=ICastS; return; case Instruction::Trunc: d.k=ICastT; return; case Instruction::PtrToInt: case Instruction::IntToPtr: d.k= d.w>d.w2?ICastZ:d.w<d.w2?ICastT:ICastCopy; return; case Instruction::BitCast: d.k=ICastCopy; return; default: d.k=IFCast; return; } }
    if(isa<FreezeInst>(&i)){ d.k=ICastCopy; O(0); return; }
    if(isa<SelectInst>(&i)){ d.k=ISelect; O(0);O(1);O(2); return; }
    if(auto g=dyn_cast<GetElementPtrInst>(&i)){ d.k=IGep; d.ops.push_back(opnd(g->getPointerOperand(),R)); i64 off=0;
      for(auto it=gep_type_begin(g);it!=gep_type_end(g);++it){ Value*ix=it.getOperand(); if(StructType*stt=it.getStructTypeOrNull()){ off+=DL->getStructLayout(stt)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); } else { u64 sc=DL->getTypeAllocSize(it.getIndexedType()); if(auto ci=dyn_cast<ConstantInt>(ix)) off+=ci->getSExtValue()*(i64)sc; else { d.ops.push_back(opnd(ix,R)); d.scales.push_back(sc); } } } d.coff=off; return; }
    if(isa<LoadInst>(&i)){ d.k=ILoad; O(0); return; }
    if(auto s=dyn_cast<StoreInst>(&i)){ d.k=IStore; O(0);O(1); d.ty=s->getValueOperand()->getType(); return; }
    if(auto a=dyn_cast<AllocaInst>(&i)){ d.k=IAlloca; d.coff=DL->getTypeAllocSize(a->getAllocatedType()); O(0); return; }
    if(auto b=dyn_cast<BranchInst>(&i)){ if(b->isConditional()){ d.k=ICondBr; O(0); } else d.k=IBr; return; }
    if(auto s=dyn_cast<SwitchInst>(&i)){ d.k=ISwitch; O(0); for(auto&c:s->cases()){ d.cases.push_back(c.getCaseValue()->getZExtValue()); d.idx.push_back(c.getSuccessorIndex()); } return; }
    if(auto r=dyn_cast<ReturnInst>(&i)){ d.k=IRet; if(r->getReturnValue()) O(0); return; }
    if(auto cb=dyn_cast<CallBase>(&i)){ d.k=isa<InvokeInst>(i)?IInvoke:ICall; if(cb->isInlineAsm()){ d.k=INop; if(!i.getType()->isVoidTy()) throw std::string("asm"); return; }
      Value*cv=cb->getCalledOperand()->stripPointerCasts(); if(auto ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliasee()->stripPointerCasts();
      if(auto fn=dyn_cast<Function>(cv)){ StringRef nm=fn->getName();
        if(fn->isIntrinsic()){ auto id=fn->getIntrinsicID(); if(id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::invariant_start||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::assume||id==Intrinsic::dbg_declare||id==Intrinsic::dbg_value||id==Intrinsic::prefetch){ d.k=INop; return; } }
        (void)nm; d.callee=getFn(fn); d.ops.push_back(Opnd()); d.ops.back().c=X.C(0,64); } else d.ops.push_back(opnd(cb->getCalledOperand(),R));
      for(auto&a:cb->args()) d.ops.push_back(opnd(a.get(),R)); return; }
    if(isa<LandingPadInst>(&i)){ d.k=ILandingpad; return; }
    if(isa<ResumeInst>(&i)){ d.k=IResume; O(0); return; }
    if(auto e=dyn_cast<ExtractValueInst>(&i)){ d.k=IExtractV; O(0); for(unsigned x:e->indices()) d.idx.push_back(x); return; }
    if(auto e=dyn_cast<InsertValueInst>(&i)){ d.k=IInsertV; O(0);O(1); for(unsigned x:e->indices()) d.idx.push_back(x); return; }
    if(auto a=dyn_cast<AtomicRMWInst>(&i)){ d.k=IAtomicRMW; d.sub=a->getOperation(); O(0);O(1); return; }
    if(isa<AtomicCmpXchgInst>(&i)){ d.k=ICmpXchg; O(0);O(1);O(2); return; }
    if(isa<FenceInst>(&i)){ d.k=IFence; return; }
    if(isa<UnreachableInst>(&i)){ d.k=IUnreachable; return; }
    throw std::string("inst ")+i.getOpcodeName(); }

  E icmp(CmpInst::Predicate p,E a,E b){ switch(p){ case CmpInst::ICMP_EQ:return X.Eq(a,b); case CmpInst::ICMP_NE:return X.Not(X.Eq(a,b)); case CmpInst::ICMP_ULT:return X.Ult(a,b); case CmpInst::ICMP_ULE:return X.Ule(a,b); case CmpInst::ICMP_UGT:return X.Ult(b,a); case CmpInst::ICMP_UGE:return X.Ule(b,a); case CmpInst::ICMP_SLT:return X.Slt(a,b); case CmpInst::ICMP_SLE:return X.Sle(a,b); case CmpInst::ICMP_SGT:return X.Slt(b,a); default:return X.Sle(b,a); } }

  // ---- reporting
  std::string dem(const std::string&n){ char*d=itaniumDemangle(n); if(!d) return n; std::string s(d); free(d); return s; }
  std::string locOf(const Inst*in){ if(!in||!in->raw) return "?"; const DILocation*l=in->raw->getDebugLoc().get(); if(!l) return "?"; std::string f=l->getFilename().str(); auto p=f.find_last_of('/'); if(p!=std::string::npos) f=f.substr(p+1); return f+":"+std::to_string(l->getLine()); }
  std::string stackOf(State&s){ std::string r; auto&fr=s.fr(); for(int i=(int)fr.size()-1;i>=0&&i>(int)fr.size()-14;i--){ Frame&f=fr[i]; const Inst*in=f.pc<f.fn->code.size()?&f.fn->code[f.pc]:nullptr; if(i<(int)fr.size()-1&&f.pc>0){ in=fr[i+1].callsite?fr[i+1].callsite:in; } r+="    "+dem(f.fn->name).substr(0,160)+" @ "+locOf(in)+"\n"; } return r; }
  std::string repoLoc(State&s){ auto&fr=s.fr(); for(int i=(int)fr.size()-1;i>=0;i--){ Frame&f=fr[i]; const Inst*in=(i<(int)fr.size()-1&&fr[i+1].callsite)?fr[i+1].callsite:(f.pc<f.fn->code.size()?&f.fn->code[f.pc]:nullptr); if(!in||!in->raw) continue; const DILocation*l=in->raw->getDebugLoc().get(); for(;l;l=l->getInlinedAt()){ std::string p=(l->getDirectory()+"/"+l->getFilename()).str(); if(l->getFilename().starts_with("/")) p=l->getFilename().str(); if(p.find("/repo/src")!=std::string::npos) return p.substr(p.find_last_of('/')+1)+":"+std::to_string(l->getLine()); } } return "?"; }
  void inputsFrom(State&s,const Model&m,std::vector<u8>&out){ for(auto&iv:s.inputs){ u64 v=X.eval(iv.e,m); for(u32 k=0;k<iv.bytes;k++) out.push_back((v>>(8*k))&0xff); } }
  void report(State&s,const std::string&kind,const std::string&msg,const Model&m){
    Violation v; v.kind=kind; v.msg=msg; v.loc=repoLoc(s); std::string key=kind+"|"+msg+"|"+v.loc; int c=violCount[key]++; if(c>=3||viols.size()>=200) return;
    v.stack=stackOf(s); inputsFrom(s,m,v.input); v.sched=s.sched; v.notes=s.notes;
    std::set<u8> fl; for(auto&u:s.uninits){ u64 x=u.first<m.size()?m[u.first]:0; fl.insert(x&0xff); } for(u8 b:fl) v.fills.push_back(b);
    if(opt.trace) fprintf(stderr,"VIOL %s: %s @ %s\n%s",kind.c_str(),msg.c_str(),v.loc.c_str(),v.stack.c_str());
    viols.push_back(v); if((int)violCount.size()>=opt.maxViol) loc->stop=1; }
  [[noreturn]] void fail(State&s,const std::string&kind,const std::string&msg){ report(s,kind,msg,*s.model); throw PathEnd{"violation"}; }
  [[noreturn]] void give(State&s,const std::string&why){ incomplete.insert(why+" at "+repoLoc(s)); if(opt.trace) fprintf(stderr,"INCOMPLETE %s\n%s",why.c_str(),stackOf(s).c_str()); throw PathEnd{"incomplete"}; }

  // ---- path conditions
  State* clone(State&s){ State*n=new State(s); n->id=++stateId; return n; }
  void addCons(State&s,E c){ if(c->isC()) return; if(c->op==OAnd&&c->w==1){ addCons(s,c->a); addCons(s,c->b); return; } for(E e:s.cons) if(e==c) return; s.cons.push_back(c); if(s.cons.size()>st.maxCons) st.maxCons=s.cons.size(); }
  int known(State&s,E c){ if(c->isC()) return c->v; E n=X.Not(c); for(E e:s.cons){ if(e==c){ st.knownHits++; return 1; } if(e==n){ st.knownHits++; return 0; } } return -1; }
  // can c be true?  returns model
  int feasible(State&s,E c,std::shared_ptr<Model>*nm){ if(c->isC()){ if(c->v&&nm) *nm=s.model; return c->v; } int k=known(s,c); if(k==0) return 0; if(X.eval(c,*s.model)){ st.modelHits++; if(nm) *nm=s.model; return 1; } if(k==1) return 1; return sol.check(s.cons,c,s.model.get(),nm); }
  // branch on c: returns the side this state takes; pushes the other if feasible
  bool branch(State&s,E c){ if(c->isC()) return c->v; int k=known(s,c); if(k>=0) return k; 
    bool v=X.eval(c,*s.model); st.modelHits++; E other=v?X.Not(c):c; std::shared_ptr<Model> nm; int r=sol.check(s.cons,other,s.model.get(),&nm);
    if(r<0){ incomplete.insert("solver unknown at branch "+repoLoc(s)); }
    if(r==1){ State*n=clone(s); n->model=nm; addCons(*n,other); st.forks++; pushWork(n); addCons(s,X.Not(other)); }
    return v; }
  void pushWork(State*n){ n->steps=n->steps; work.push_back(n); }
  // fork helper for re-executing instruction: other state stays at same pc (callers must call before side effects)
  u64 concretize(State&s,E e,const char*what){ if(e->isC()) return e->v; for(E c:s.cons) if(c->op==OEq&&c->a==e&&c->b->isC()) return c->b->v;
    u64 v=X.eval(e,*s.model); E eq=X.Eq(e,X.C(v,e->w)); E ne=X.Not(eq); if(known(s,eq)==1) return v; std::shared_ptr<Model> nm; int r=sol.check(s.cons,ne,s.model.get(),&nm); if(r<0) incomplete.insert(std::string("solver unknown concretizing ")+what);
    if(r==1){ State*n=clone(s); n->model=nm; addCons(*n,ne); st.forks++; int cnt=0; for(E c:n->cons) if(c->op==OEq&&c->b==X.F&&c->a->op==OEq&&c->a->a==e) cnt++; if(cnt>opt.maxConc){ incomplete.insert(std::string("too many values concretizing ")+what+" at "+repoLoc(s)); delete n; } else pushWork(n); addCons(s,eq); }
    return v; }

  // ---- memory access
  u32 newObj(State&s,u64 size,u8 kind,bool zero,const char*name,bool ro=false){ Obj*o=new Obj(); o->size=size; o->kind=kind; o->ro=ro; o->b.assign(size,zero?X.cache8[0]:nullptr); if(name) o->name=name; if(kind>=2&&kind<=4){ o->seq=++s.allocSeq; s.liveHeap++; } return s.m.add(o,kind==1); }
  std::string objDesc(Obj*o){ static const char*kn[]={"global","stack","malloc","new","new[]","ext"}; return std::string(kn[o->kind])+" object"+(o->name.empty()?"":" "+o->name)+" of size "+std::to_string(o->size); }
  int atomNow=0; // 0 plain access, otherwise 1 + memory ordering of the atomic access under way
  static void vjoin(VC&a,const VC&b){ if(a.size()<b.size()) a.resize(b.size(),0); for(size_t i=0;i<b.size();i++) if(b[i]>a[i]) a[i]=b[i]; }
  void race(State&s,u32 sl,u64 off,u64 n,bool wr){ Thread&t=s.th[s.cur]; Obj*o=s.m.get(sl); bool at=atomNow!=0; bool have=false; if(o->kind==0&&s.top().fn->f->getName().starts_with("vf_")) return;
    for(auto&c:o->acc){ if(c.off>=off+n||off>=c.off+c.len) continue; if(c.th==s.cur){ if(c.clk==t.vc[s.cur]&&c.wr>=wr&&c.atom==at&&c.off<=off&&c.off+c.len>=off+n) have=true; continue; } if(!(c.wr||wr)||(c.atom&&at)) continue; if(c.th<t.vc.size()&&c.clk<=t.vc[c.th]) continue; fail(s,"race",std::string("unsynchronised ")+(wr?"write":"read")+" of a "+(o->kind>=2?"heap":o->kind==1?"stack":"global")+" object that another thread "+(c.wr?"writes":"reads")); }
    if(!have) s.m.wr(sl)->acc.push_back({s.cur,t.vc[s.cur],(u32)off,(u32)n,wr,at}); }
  // happens-before effect of an atomic access
  void sync(State&s,u64 addr,AtomicOrdering od,bool ld,bool stv){ Thread&t=s.th[s.cur]; if(s.th.size()<2) return; auto it=s.rel.find(addr);
    if(ld&&it!=s.rel.end()){ if(isAcquireOrStronger(od)) vjoin(t.vc,it->second); else vjoin(t.acqP,it->second); }
    if(stv){ VC c; if(isReleaseOrStronger(od)) c=t.vc; else c=t.relF; if(ld&&it!=s.rel.end()) vjoin(c,it->second); s.rel[addr]=c; if(isReleaseOrStronger(od)) t.vc[s.cur]++; } }
  void fence(State&s,AtomicOrdering od){ Thread&t=s.th[s.cur]; if(s.th.size()<2) return; if(isAcquireOrStronger(od)) vjoin(t.vc,t.acqP); if(isReleaseOrStronger(od)){ t.relF=t.vc; t.vc[s.cur]++; } }
  // resolve address for n bytes; forks for symbolic; returns slot & offset expr
  u32 resolve(State&s,E addr,u64 n,bool wr,E&off){
    u64 a; bool symb=!addr->isC(); a=symb?X.eval(addr,*s.model):addr->v; u32 sl; Obj*o=nullptr; if(Mem::slotOf(a,sl)) o=s.m.get(sl);
    auto bad=[&](const std::string&k)->void{ 
      if(symb){ // other values of the address may be fine: explore them too
        if(o&&!o->freed&&o->size>=n){ E in=X.And(X.Ule(X.C(o->addr,64),addr),X.Ule(addr,X.C(o->addr+o->size-n,64))); std::shared_ptr<Model> nm; if(feasible(s,in,&nm)==1){ State*q=clone(s); q->model=nm; addCons(*q,in); pushWork(q); } } }
      fail(s,"memory",k); };
    std::string op=wr?"write":"read";
    if(!o){ if(a<4096) bad("null pointer "+op); if(a>=FNBASE&&a<FNBASE+fnList.size()*FNSTEP) bad(op+" through function pointer"); bad("wild pointer "+op); }
    if(o->freed) bad((o->kind==1?std::string("stack-use-after-return "):std::string("use-after-free "))+op);
    if(a<o->addr||n>o->size||a-o->addr>o->size-n) bad("out-of-bounds "+op+" on "+ (o->kind>=2?"heap":o->kind==1?"stack":"global")+" object");
    if(wr&&o->ro) bad("write to constant");
    if(s.th.size()>1&&!o->ro) race(s,sl,a-o->addr,n,wr);
    if(!symb){ off=X.C(a-o->addr,64); return sl; }
    E in=X.And(X.Ule(X.C(o->addr,64),addr),X.Ule(addr,X.C(o->addr+o->size-n,64))); E out=X.Not(in); std::shared_ptr<Model> nm;
    if(known(s,in)!=1&&!out->isC()){ int r=sol.check(s.cons,out,s.model.get(),&nm); if(r<0) incomplete.insert("solver unknown resolving pointer"); if(r==1){ State*q=clone(s); q->model=nm; addCons(*q,out); st.forks++; pushWork(q); addCons(s,in); } else if(r==0) addCons(s,in); }
    off=X.Sub(addr,X.C(o->addr,64)); 
    // if only one value is possible use it
    return sl; }
  E rdByte(State&s,u32 sl,u64 i){ Obj*o=s.m.get(sl); E e=o->b[i]; if(e) return e; Obj*w=s.m.wr(sl); e=X.sym("uninit_"+std::to_string(w->seq)+"_"+std::to_string(i),8); w->b[i]=e; s.uninits.push_back({(u32)e->v,""}); return e; }
  E mux(State&s,u32 sl,E off,u64 n,u64 lo,u64 hi){ // value at byte position off in [lo,hi] : balanced on bits of off
    std::function<E(u64,int)> rec; 
    unsigned nb=1; while((1ull<<nb)<=hi) nb++;
    rec=[&](u64 base,int bit)->E{ if(base>hi) return nullptr; if(base+((1ull<<(bit+1))-1)<lo) return nullptr; if(bit<0) return rdN(s,sl,base,n);
      E z=rec(base,bit-1), o=rec(base|(1ull<<bit),bit-1); if(!z) return o; if(!o) return z; return X.Ite(X.Extract(off,bit,1),o,z); };
    return rec(0,(int)nb-1); }
  E rdN(State&s,u32 sl,u64 off,u64 n){ Obj*o=s.m.get(sl); if(n==1) return rdByte(s,sl,off);
    bool allc=true; u64 v=0; for(u64 i=0;i<n;i++){ E b=o->b[off+i]; if(!b||!b->isC()){ allc=false; break; } v|=b->v<<(8*i); } if(allc) return X.C(v,n*8);
    E b0=o->b[off]; if(b0&&b0->op==OExtract&&b0->lo==0&&b0->a->w==n*8){ bool ok=true; for(u64 i=1;i<n&&ok;i++){ E b=o->b[off+i]; ok=b&&b->op==OExtract&&b->a==b0->a&&b->lo==8*i; } if(ok) return b0->a; }
    E r=nullptr; for(u64 i=0;i<n;i++){ E b=rdByte(s,sl,off+i); r=r?X.Concat(b,r):b; } return r; }
  E load(State&s,E addr,u64 n){ E off; u32 sl=resolve(s,addr,n,false,off); if(off->isC()) return rdN(s,sl,off->v,n);
    Obj*o=s.m.get(sl); u64 lo=off->umin, hi=std::min<u64>(off->umax,o->size-n); if(lo>hi) lo=0; if(hi-lo>1024){ u64 c=concretize(s,off,"large symbolic offset"); return rdN(s,sl,c,n); } return mux(s,sl,off,n,lo,hi); }
  void wrN(State&s,u32 sl,u64 off,E v,u64 n){ Obj*o=s.m.wr(sl); if(v->w<8*n) v=X.ZExt(v,8*n); if(n==1){ o->b[off]=v; return; } for(u64 i=0;i<n;i++) o->b[off+i]=X.Extract(v,8*i,8); }
  void store(State&s,E addr,E v,u64 n){ E off; u32 sl=resolve(s,addr,n,true,off); if(off->isC()){ wrN(s,sl,off->v,v,n); return; }
    Obj*o=s.m.get(sl); u64 lo=off->umin, hi=std::min<u64>(off->umax,o->size-n); if(lo>hi) lo=0; if(hi-lo>512||n>1){ u64 c=concretize(s,off,"symbolic write offset"); wrN(s,sl,c,v,n); return; }
    for(u64 p=lo;p<=hi;p++){ E old=rdByte(s,sl,p); E c=X.Eq(off,X.C(p,64)); s.m.wr(sl)->b[p]=X.Ite(c,v,old); } }
  E loadT(State&s,E addr,Type*t){ if(t->isStructTy()){ auto sl=DL->getStructLayout(cast<StructType>(t)); std::vector<E> k; for(unsigned i=0;i<t->getStructNumElements();i++) k.push_back(loadT(s,X.Add(addr,X.C(sl->getElementOffset(i),64)),t->getStructElementType(i))); return X.agg(k); }
    if(t->isArrayTy()){ u64 es=DL->getTypeAllocSize(t->getArrayElementType()); std::vector<E> k; for(unsigned i=0;i<t->getArrayNumElements();i++) k.push_back(loadT(s,X.Add(addr,X.C(i*es,64)),t->getArrayElementType())); return X.agg(k); }
    unsigned w=width(t); if(!w||w>64) give(s,"load of unsupported type"); u64 n=DL->getTypeStoreSize(t); E e=load(s,addr,n); if(e->w>w) e=X.Extract(e,0,w); return e; }
  void storeT(State&s,E addr,E v,Type*t){ if(t->isStructTy()){ auto sl=DL->getStructLayout(cast<StructType>(t)); for(unsigned i=0;i<t->getStructNumElements();i++) storeT(s,X.Add(addr,X.C(sl->getElementOffset(i),64)),v->kids[i],t->getStructElementType(i)); return; }
    if(t->isArrayTy()){ u64 es=DL->getTypeAllocSize(t->getArrayElementType()); for(unsigned i=0;i<t->getArrayNumElements();i++) storeT(s,X.Add(addr,X.C(i*es,64)),v->kids[i],t->getArrayElementType()); return; }
    unsigned w=width(t); if(!w||w>64) give(s,"store of unsupported type"); store(s,addr,v,DL->getTypeStoreSize(t)); }
  // concrete range access helper: returns slot+offset for [addr, addr+n)
  bool span(State&s,E addr,u64 n,bool wr,u32&sl,u64&off){ if(n==0) return false; u64 a=concretize(s,addr,"block address"); E o; sl=resolve(s,X.C(a,64),n,wr,o); off=o->v; return true; }
  void memcpy_(State&s,E d,E sr,u64 n,bool move){ if(!n) return; u32 ds,ss; u64 dof,sof; span(s,sr,n,false,ss,sof); span(s,d,n,true,ds,dof);
    if(!move&&ds==ss&&dof!=sof&&((dof<sof&&dof+n>sof)||(sof<dof&&sof+n>dof))) fail(s,"memory","memcpy with overlapping ranges");
    std::vector<E> t(n); Obj*o=s.m.get(ss); for(u64 i=0;i<n;i++) t[i]=o->b[sof+i];
    bool un=false; for(auto e:t) if(!e){ un=true; break; } if(un&&false){} 
    Obj*w=s.m.wr(ds); for(u64 i=0;i<n;i++) w->b[dof+i]=t[i]; 
    if(un&&ds!=ss){ // keep source and destination equal: materialise fresh symbols on both sides
      for(u64 i=0;i<n;i++) if(!t[i]){ E e=rdByte(s,ss,sof+i); s.m.wr(ds)->b[dof+i]=e; } } }
  void memset_(State&s,E d,E v,u64 n){ if(!n) return; u32 ds; u64 dof; span(s,d,n,true,ds,dof); Obj*w=s.m.wr(ds); E b=X.Extract(v,0,8); for(u64 i=0;i<n;i++) w->b[dof+i]=b; }
  std::string cstr(State&s,E p){ u64 a=concretize(s,p,"string"); std::string r; u32 sl; if(!Mem::slotOf(a,sl)) return "?"; Obj*o=s.m.get(sl); if(!o) return "?"; for(u64 i=a-o->addr;i<o->size;i++){ E e=o->b[i]; if(!e||!e->isC()) return r+"?"; if(!e->v) break; r+=(char)e->v; } return r; }
  void freePtr(State&s,E p,int kind){ u64 a=concretize(s,p,"free"); if(a==0) return; u32 sl; Obj*o=nullptr; if(Mem::slotOf(a,sl)) o=s.m.get(sl); if(!o||o->kind<2||o->kind>4) fail(s,"memory","free of non-heap pointer"); if(o->freed) fail(s,"memory","double free"); if(a!=o->addr) fail(s,"memory","free of interior pointer"); if(o->kind!=kind) fail(s,"memory","mismatched deallocation"); if(s.th.size()>1&&o->size) race(s,sl,0,o->size,true); Obj*w=s.m.wr(sl); w->freed=true; w->b.clear(); w->b.shrink_to_fit(); s.liveHeap--; }

  // ---- calls
  bool pushFrame(State&s,Fn*fn,const std::vector<E>&args,int retReg,const Inst*cs){ decode(fn); Frame f; f.fn=fn; f.r.assign(fn->nregs,nullptr); f.retReg=retReg; f.callsite=cs; if(s.fr().size()>400) fail(s,"recursion","stack overflow (recursion deeper than 400 frames)");
    for(int i=0;i<fn->nargs;i++){ E a=i<(int)args.size()?args[i]:X.C(0,64); if(fn->byval[i]){ u32 o=newObj(s,fn->byval[i],1,false,"byval"); f.allocas.push_back(o); memcpy_(s,X.C(s.m.get(o)->addr,64),a,fn->byval[i],true); a=X.C(s.m.get(o)->addr,64); } f.r[i]=a; }
    for(size_t i=fn->nargs;i<args.size();i++) f.varargs.push_back(args[i]); s.fr().push_back(std::move(f)); return true; }
  void popFrame(State&s){ Frame&f=s.top(); for(u32 a:f.allocas){ s.m.ref(a)=ObjP(); s.m.freeStack.push_back(a); } s.fr().pop_back(); }
  void gotoEdge(State&s,Frame&f,const Edge&e){ if(!e.moves.empty()){ std::vector<E> t; t.reserve(e.moves.size()); for(auto&m:e.moves) t.push_back(ev(s,f,m.second)); for(size_t i=0;i<t.size();i++) f.r[e.moves[i].first]=t[i]; } f.pc=e.target; }
  E ev(State&s,Frame&f,const Opnd&o){ if(o.reg>=0){ E e=f.r[o.reg]; return e; } if(o.c) return o.c; return X.sym("undef",o.undefw); }
  void finishCall(State&s,const Inst*cs,int retReg,E ret){ Frame&f=s.top(); if(retReg>=0) f.r[retReg]=ret?ret:X.C(0,64); if(cs&&cs->k==IInvoke) gotoEdge(s,f,cs->edges[0]); else f.pc++; }

  // ---- exceptions
  u64 exTypeOf(State&,const Value*){ return 0; }
  std::string tiName(const Constant*c){ c=cast<Constant>(c->stripPointerCasts()); if(auto g=dyn_cast<GlobalVariable>(c)) return g->getName().str(); return ""; }
  void basesOf(const std::string&ti,std::set<std::string>&out){ if(!out.insert(ti).second) return; GlobalVariable*g=M->getNamedGlobal(ti); if(!g||!g->hasInitializer()) return; if(auto cs=dyn_cast<ConstantStruct>(g->getInitializer())) for(unsigned i=2;i<cs->getNumOperands();i++){ Constant*o=cs->getOperand(i); if(o->getType()->isPointerTy()){ if(auto gv=dyn_cast<GlobalVariable>(o->stripPointerCasts())) if(gv->getName().starts_with("_ZTI")) basesOf(gv->getName().str(),out); } } }
  int typeId(const std::string&n){ static std::map<std::string,int> ids; auto it=ids.find(n); if(it!=ids.end()) return it->second; int k=ids.size()+1; ids[n]=k; return k; }
  // obj, typeinfo address.  Unwinds the current thread.
  void unwind(State&s,E obj,u64 tiAddr,bool resume){
    std::string ti=gnameByAddr.count(tiAddr)?gnameByAddr[tiAddr]:"?"; std::set<std::string> types; basesOf(ti,types);
    auto&fr=s.fr(); 
    // search phase
    auto match=[&](const LandingPadInst*lp,int&sel)->int{ // 0 none,1 handler,2 cleanup
      for(unsigned i=0;i<lp->getNumClauses();i++){ Constant*c=lp->getClause(i); if(lp->isCatch(i)){ if(c->isNullValue()){ sel=typeId("null"); return 1; } std::string n=tiName(c); if(types.count(n)){ sel=typeId(n); return 1; } } else { // filter
          bool listed=false; if(auto ca=dyn_cast<ConstantArray>(c)) for(auto&o:ca->operands()) if(types.count(tiName(cast<Constant>(o)))) listed=true; if(!listed){ sel=-1; return 1; } } }
      return lp->isCleanup()?2:0; };
    auto siteOf=[&](int i)->const InvokeInst*{ // call site in frame i that is active
      const Inst*in= &fr[i].fn->code[fr[i].pc]; return in->raw?dyn_cast<InvokeInst>(in->raw):nullptr; };
    if(!resume){ bool found=false; for(int i=(int)fr.size()-1;i>=0&&!found;i--){ const InvokeInst*iv=siteOf(i); if(iv){ int sel; if(match(iv->getLandingPadInst(),sel)==1) found=true; } } if(!found) fail(s,"exception","uncaught exception of type "+dem("_ZTS"+ti.substr(std::min<size_t>(4,ti.size())))); }
    while(!fr.empty()){ const InvokeInst*iv=siteOf((int)fr.size()-1); if(iv){ int sel=0; int m=match(iv->getLandingPadInst(),sel); if(m){ Frame&f=fr.back(); const Inst*in=&f.fn->code[f.pc]; gotoEdge(s,f,in->edges[1]); // find landingpad at target
            Inst&lp=f.fn->code[f.pc]; if(lp.k!=ILandingpad) give(s,"no landingpad"); f.r[lp.dst]=X.agg({obj,X.C((u64)(m==2?0:sel),32)}); f.pc++; return; } }
      popFrame(s); }
    fail(s,"exception","uncaught exception (unwound past entry) of type "+ti); }

  // ---- execution of one instruction. 
  void step(State&s){
    Frame&f=s.top(); Inst&in=f.fn->code[f.pc]; st.steps++; s.steps++;
    auto A=[&](int k)->E{ return ev(s,f,in.ops[k]); };
    switch(in.k){
      case INop: if(in.dst>=0&&in.w) f.r[in.dst]=X.C(0,in.w); if(in.raw->isTerminator()&&!in.edges.empty()) gotoEdge(s,f,in.edges[0]); else f.pc++; return;
      case IBin: { E a=A(0),b=A(1),r; switch(in.sub){ case Instruction::Add:r=X.Add(a,b);break; case Instruction::Sub:r=X.Sub(a,b);break; case Instruction::Mul:r=X.Mul(a,b);break;
          case Instruction::And:r=X.And(a,b);break; case Instruction::Or:r=X.Or(a,b);break; case Instruction::Xor:r=X.Xor(a,b);break; case Instruction::Shl:r=X.Shl(a,b);break; case Instruction::LShr:r=X.LShr(a,b);break; case Instruction::AShr:r=X.AShr(a,b);break;
          default: { E z=X.Eq(b,X.C(0,b->w)); if(branch(s,z)) fail(s,"arith","division by zero"); r= in.sub==Instruction::UDiv?X.UDiv(a,b):in.sub==Instruction::SDiv?X.SDiv(a,b):in.sub==Instruction::URem?X.URem(a,b):X.SRem(a,b); } }
        f.r[in.dst]=r; f.pc++; return; }
      case ICmp: f.r[in.dst]=icmp((CmpInst::Predicate)in.sub,A(0),A(1)); f.pc++; return;
      case ICastZ: f.r[in.dst]=X.ZExt(A(0),in.w); f.pc++; return;
      case ICastS: f.r[in.dst]=X.SExt(A(0),in.w); f.pc++; return;
      case ICastT: f.r[in.dst]=X.Extract(A(0),0,in.w); f.pc++; return;
      case ICastCopy: f.r[in.dst]=A(0); f.pc++; return;
      case ISelect: { E c=A(0); f.r[in.dst]=X.Ite(c,A(1),A(2)); f.pc++; return; }
      case IGep: { E p=A(0); u64 off=in.coff; for(size_t i=0;i<in.scales.size();i++){ E ix=A(i+1); ix=ix->w<64?X.SExt(ix,64):ix; if(ix->isC()) off+=ix->v*in.scales[i]; else p=X.Add(p,X.Mul(ix,X.C(in.scales[i],64))); } f.r[in.dst]=X.Add(p,X.C(off,64)); f.pc++; return; }
      case ILoad: { E p=A(0); auto*li=s.th.size()>1?dyn_cast_or_null<LoadInst>(in.raw):nullptr; if(li&&li->isAtomic()){ atomNow=1; struct R{int&a;~R(){a=0;}}r{atomNow}; E v=loadT(s,p,in.ty); sync(s,X.eval(p,*s.model),li->getOrdering(),true,false); s.top().r[in.dst]=v; } else f.r[in.dst]=loadT(s,p,in.ty); s.top().pc++; return; }
      case IStore: { E v=A(0),p=A(1); auto*si=s.th.size()>1?dyn_cast_or_null<StoreInst>(in.raw):nullptr; if(si&&si->isAtomic()){ atomNow=1; struct R{int&a;~R(){a=0;}}r{atomNow}; storeT(s,p,v,in.ty); sync(s,X.eval(p,*s.model),si->getOrdering(),false,true); } else storeT(s,p,v,in.ty); s.top().pc++; return; }
      case IAlloca: { u64 n=concretize(s,A(0),"alloca count"); u32 o=newObj(s,in.coff*n,1,false,nullptr); f.allocas.push_back(o); f.r[in.dst]=X.C(s.m.get(o)->addr,64); f.pc++; return; }
      case IBr: gotoEdge(s,f,in.edges[0]); return;
      case ICondBr: { E c=A(0); bool v=branch(s,c); gotoEdge(s,s.top(),in.edges[v?0:1]); return; }
      case ISwitch: { E c=A(0); if(c->isC()){ for(size_t i=0;i<in.cases.size();i++) if(in.cases[i]==c->v){ gotoEdge(s,f,in.edges[in.idx[i]]); return; } gotoEdge(s,f,in.edges[0]); return; }
          u64 mv=X.eval(c,*s.model); for(size_t i=0;i<in.cases.size();i++) if(in.cases[i]==mv){ if(!branch(s,X.Eq(c,X.C(mv,c->w)))) give(s,"switch"); gotoEdge(s,s.top(),in.edges[in.idx[i]]); return; }
          // model takes default: split off each feasible case one at a time
          for(size_t i=0;i<in.cases.size();i++){ branch(s,X.Eq(c,X.C(in.cases[i],c->w))); } gotoEdge(s,s.top(),in.edges[0]); return; }
      case IRet: { E r=in.ops.empty()?nullptr:A(0); int rr=f.retReg; const Inst*cs=f.callsite; popFrame(s); if(s.fr().empty()){ s.th[s.cur].done=true; return; } if(!cs){ if(rr>=0) s.top().r[rr]=r; s.top().pc++; return; } finishCall(s,cs,rr,r); return; }
      case ICall: case IInvoke: doCall(s,in); return;
      case IResume: { E v=A(0); popFrameResume(s,v); return; }
      case IExtractV: { E v=A(0); for(unsigned x:in.idx) v=v->kids[x]; f.r[in.dst]=v; f.pc++; return; }
      case IInsertV: { E v=A(0),x=A(1); f.r[in.dst]=ins(v,x,in.idx,0); f.pc++; return; }
      case IFence: fence(s,cast<FenceInst>(in.raw)->getOrdering()); s.top().pc++; return;
      case IAtomicRMW: { atomNow=1; struct R{int&a;~R(){a=0;}}rr{atomNow}; E p=A(0),v=A(1); u64 n=in.w/8; E old=load(s,p,n); E r; switch(in.sub){ case AtomicRMWInst::Add:r=X.Add(old,v);break; case AtomicRMWInst::Sub:r=X.Sub(old,v);break; case AtomicRMWInst::Xchg:r=v;break; case AtomicRMWInst::And:r=X.And(old,v);break; case AtomicRMWInst::Or:r=X.Or(old,v);break; case AtomicRMWInst::Xor:r=X.Xor(old,v);break; default: give(s,"atomicrmw"); } store(s,p,r,n); if(s.th.size()>1) sync(s,X.eval(p,*s.model),cast<AtomicRMWInst>(in.raw)->getOrdering(),true,true); s.top().r[in.dst]=old; s.top().pc++; return; }
      case ICmpXchg: { atomNow=1; struct R{int&a;~R(){a=0;}}rr{atomNow}; E p=A(0),c=A(1),v=A(2); u64 n=c->w/8; E old=load(s,p,n); E eq=X.Eq(old,c); if(s.th.size()>1){ bool ok=branch(s,eq); auto*cx=cast<AtomicCmpXchgInst>(in.raw); if(!ok){ sync(s,X.eval(p,*s.model),cx->getFailureOrdering(),true,false); s.top().r[in.dst]=X.agg({old,X.F}); s.top().pc++; return; } store(s,p,v,n); sync(s,X.eval(p,*s.model),cx->getSuccessOrdering(),true,true); s.top().r[in.dst]=X.agg({old,X.T}); s.top().pc++; return; } store(s,p,X.Ite(eq,v,old),n); s.top().r[in.dst]=X.agg({old,eq}); s.top().pc++; return; }
      case IUnreachable: fail(s,"ub","unreachable code reached");
      case IFBin: { u64 a=concretize(s,A(0),"fp operand"),b=concretize(s,A(1),"fp operand"); if(in.w==64){ double x,y,r; memcpy(&x,&a,8);memcpy(&y,&b,8); r=fbin(in.sub,x,y); u64 o; memcpy(&o,&r,8); s.top().r[in.dst]=X.C(o,64); } else { float x,y,r; u32 a4=a,b4=b; memcpy(&x,&a4,4);memcpy(&y,&b4,4); switch(in.sub){case Instruction::FAdd:r=x+y;break;case Instruction::FSub:r=x-y;break;case Instruction::FMul:r=x*y;break;case Instruction::FDiv:r=x/y;break;default:r=fmodf(x,y);} u32 o; memcpy(&o,&r,4); s.top().r[in.dst]=X.C(o,32);} s.top().pc++; return; }
      case IFNeg: { E a=A(0); f.r[in.dst]=X.Xor(a,X.C(1ull<<(in.w-1),in.w)); f.pc++; return; }
      case IFCmp: if(!(A(0)->isC()&&A(1)->isC())){ // IEEE comparison on the bit patterns
          E x=A(0),y=A(1); unsigned w=in.w2; u64 mm=(w==64?~0ull:0xffffffffull)>>1, inf=w==64?0x7ff0000000000000ull:0x7f800000ull; E M=X.C(mm,w);
          E un=X.Or(X.Ult(X.C(inf,w),X.And(x,M)),X.Ult(X.C(inf,w),X.And(y,M))); E z=X.Eq(X.And(X.Or(x,y),M),X.C(0,w)); E eq=X.Or(X.Eq(x,y),z);
          auto lt=[&](E p,E q){ E ps=X.Slt(p,X.C(0,w)),qs=X.Slt(q,X.C(0,w)); return X.And(X.Not(z),X.Ite(ps,X.Ite(qs,X.Ult(q,p),X.T),X.Ite(qs,X.F,X.Ult(p,q)))); };
          E r; unsigned pr=in.sub; switch(pr&7){ case 1:r=eq;break; case 2:r=lt(y,x);break; case 3:r=X.Or(eq,lt(y,x));break; case 4:r=lt(x,y);break; case 5:r=X.Or(eq,lt(x,y));break; case 6:r=X.Not(eq);break; case 7:r=X.T;break; default:r=X.F; }
          r=pr&8?X.Or(un,r):X.And(X.Not(un),r); if(pr==CmpInst::FCMP_FALSE) r=X.F; if(pr==CmpInst::FCMP_TRUE) r=X.T;
          f.r[in.dst]=r; f.pc++; return; }
        { u64 a=concretize(s,A(0),"fp operand"),b=concretize(s,A(1),"fp operand"); double x,y; if(in.w2==64){ memcpy(&x,&a,8);memcpy(&y,&b,8);} else { float p,q; u32 a4=a,b4=b; memcpy(&p,&a4,4);memcpy(&q,&b4,4); x=p;y=q; } bool un=std::isnan(x)||std::isnan(y), r=false; switch(in.sub){ case CmpInst::FCMP_OEQ:r=!un&&x==y;break; case CmpInst::FCMP_OGT:r=!un&&x>y;break; case CmpInst::FCMP_OGE:r=!un&&x>=y;break; case CmpInst::FCMP_OLT:r=!un&&x<y;break; case CmpInst::FCMP_OLE:r=!un&&x<=y;break; case CmpInst::FCMP_ONE:r=!un&&x!=y;break; case CmpInst::FCMP_ORD:r=!un;break; case CmpInst::FCMP_UNO:r=un;break; case CmpInst::FCMP_UEQ:r=un||x==y;break; case CmpInst::FCMP_UGT:r=un||x>y;break; case CmpInst::FCMP_UGE:r=un||x>=y;break; case CmpInst::FCMP_ULT:r=un||x<y;break; case CmpInst::FCMP_ULE:r=un||x<=y;break; case CmpInst::FCMP_UNE:r=un||x!=y;break; case CmpInst::FCMP_TRUE:r=true;break; default:break; } s.top().r[in.dst]=X.C(r,1); s.top().pc++; return; }
      case IFCast: { u64 a=concretize(s,A(0),"fp cast operand"); double d; auto asD=[&]{ if(in.w2==64) memcpy(&d,&a,8); else { float q; u32 a4=a; memcpy(&q,&a4,4); d=q; } }; u64 r=0; 
          switch(in.sub){ case Instruction::UIToFP: case Instruction::SIToFP: { double v= in.sub==Instruction::UIToFP?(double)a:(double)sx(a,in.w2); if(in.w==64) memcpy(&r,&v,8); else { float q=in.sub==Instruction::UIToFP?(float)a:(float)sx(a,in.w2); u32 o; memcpy(&o,&q,4); r=o; } break; }
            case Instruction::FPToUI: asD(); r= d<0? (u64)(i64)d : d>=18446744073709551616.0? 0x8000000000000000ull : (u64)d; break; case Instruction::FPToSI: asD(); r=(u64)(i64)d; break;
            case Instruction::FPExt: asD(); memcpy(&r,&d,8); break; case Instruction::FPTrunc: { asD(); float q=d; u32 o; memcpy(&o,&q,4); r=o; break; } default: give(s,"fp cast"); }
          s.top().r[in.dst]=X.C(r,in.w); s.top().pc++; return; }
      case ILandingpad: give(s,"landingpad fallthrough");
      case IUnsupported: { std::string t; raw_string_ostream os(t); in.raw->print(os); give(s,"unsupported instruction "+os.str().substr(0,90)); }
    } }
  double fbin(unsigned op,double x,double y){ switch(op){case Instruction::FAdd:return x+y;case Instruction::FSub:return x-y;case Instruction::FMul:return x*y;case Instruction::FDiv:return x/y;default:return fmod(x,y);} }
  E ins(E v,E x,const std::vector<unsigned>&idx,size_t k){ std::vector<E> ks(v->kids,v->kids+v->nkids); ks[idx[k]]= k+1==idx.size()?x:ins(ks[idx[k]],x,idx,k+1); return X.agg(ks); }
  void popFrameResume(State&s,E agg){ E obj=agg->kids[0]; // typeinfo stored in header: obj-16 (see runtime model)
    u64 o=concretize(s,obj,"exception object"); E ti=load(s,X.C(o-16,64),8); popFrame(s); unwind(s,obj,concretize(s,ti,"typeinfo"),true); }
  void doCall(State&s,Inst&in){ Frame&f=s.top(); Fn*fn=in.callee; std::vector<E> args; args.reserve(in.ops.size()); for(size_t i=1;i<in.ops.size();i++) args.push_back(ev(s,f,in.ops[i]));
    if(!fn){ u64 a=concretize(s,ev(s,f,in.ops[0]),"function pointer"); auto it=fnByAddr.find(a); if(it==fnByAddr.end()) fail(s,"memory",a<4096?"call through null function pointer":"call through wild function pointer"); fn=it->second; }
    if(fn->h){ E ret=nullptr; size_t depth=s.fr().size(); u32 cur=s.cur; if(fn->h(*this,s,in,args,ret)){ if(ret&&in.dst>=0&&ret->w&&in.w&&ret->w!=in.w) ret=ret->w>in.w?X.Extract(ret,0,in.w):X.ZExt(ret,in.w); (void)depth; u32 c2=s.cur; s.cur=cur; finishCall(s,&in,in.dst,ret); s.cur=c2; } return; }
    if(fn->f->isIntrinsic()){ intrinsic(s,in,fn,args); return; }
    if(fn->f->isDeclaration()){ give(s,"call to unmodelled external function "+dem(fn->name)); }
    pushFrame(s,fn,args,in.dst,&in); }
  void intrinsic(State&s,Inst&in,Fn*fn,std::vector<E>&a){ E r=nullptr; unsigned w=in.w; 
    switch(fn->f->getIntrinsicID()){
      case Intrinsic::memcpy: case Intrinsic::memcpy_inline: memcpy_(s,a[0],a[1],concretize(s,a[2],"memcpy length"),false); break;
      case Intrinsic::memmove: memcpy_(s,a[0],a[1],concretize(s,a[2],"memmove length"),true); break;
      case Intrinsic::memset: memset_(s,a[0],a[1],concretize(s,a[2],"memset length")); break;
      case Intrinsic::umin: r=X.Ite(X.Ult(a[0],a[1]),a[0],a[1]); break; case Intrinsic::umax: r=X.Ite(X.Ult(a[0],a[1]),a[1],a[0]); break;
      case Intrinsic::smin: r=X.Ite(X.Slt(a[0],a[1]),a[0],a[1]); break; case Intrinsic::smax: r=X.Ite(X.Slt(a[0],a[1]),a[1],a[0]); break;
      case Intrinsic::abs: r=X.Ite(X.Slt(a[0],X.C(0,w)),X.Neg(a[0]),a[0]); break;
      case Intrinsic::expect: case Intrinsic::expect_with_probability: r=a[0]; break;
      case Intrinsic::is_constant: r=X.F; break; case Intrinsic::objectsize: r=X.C(~0ull,w); break;
      case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s,"abort","trap");
      case Intrinsic::stacksave: r=X.C(0,64); break; case Intrinsic::stackrestore: break;
      case Intrinsic::usub_sat: r=X.Ite(X.Ult(a[0],a[1]),X.C(0,w),X.Sub(a[0],a[1])); break;
      case Intrinsic::uadd_sat: { E t=X.Add(a[0],a[1]); r=X.Ite(X.Ult(t,a[0]),X.C(~0ull,w),t); break; }
      case Intrinsic::fshl: case Intrinsic::fshr: { if(!a[2]->isC()) give(s,"funnel shift"); u64 k=a[2]->v%w; if(fn->f->getIntrinsicID()==Intrinsic::fshr) k=(w-k)%w; if(fn->f->getIntrinsicID()==Intrinsic::fshr&&k==0){ r=a[1]; break; } r= k==0?a[0]:X.Or(X.Shl(a[0],X.C(k,w)),X.LShr(a[1],X.C(w-k,w))); break; }
      case Intrinsic::bswap: { E t=nullptr; for(unsigned i=0;i<w/8;i++){ E b=X.Extract(a[0],i*8,8); t=t?X.Concat(t,b):b; } r=t; break; }
      case Intrinsic::ctpop: { E t=X.C(0,w); for(unsigned i=0;i<w;i++) t=X.Add(t,X.ZExt(X.Extract(a[0],i,1),w)); r=t; break; }
      case Intrinsic::ctlz: { u64 v=concretize(s,a[0],"ctlz"); r=X.C(v?(__builtin_clzll(v)-(64-w)):w,w); break; }
      case Intrinsic::cttz: { u64 v=concretize(s,a[0],"cttz"); r=X.C(v?__builtin_ctzll(v):w,w); break; }
      case Intrinsic::uadd_with_overflow: { E t=X.Add(a[0],a[1]); r=X.agg({t,X.Ult(t,a[0])}); break; }
      case Intrinsic::usub_with_overflow: r=X.agg({X.Sub(a[0],a[1]),X.Ult(a[0],a[1])}); break;
      case Intrinsic::sadd_with_overflow: { unsigned q=a[0]->w; E t=X.Add(a[0],a[1]); E sa=X.Extract(a[0],q-1,1),sb=X.Extract(a[1],q-1,1),stt=X.Extract(t,q-1,1); r=X.agg({t,X.And(X.Eq(sa,sb),X.Not(X.Eq(sa,stt)))}); break; }
      case Intrinsic::ssub_with_overflow: { unsigned q=a[0]->w; E t=X.Sub(a[0],a[1]); E sa=X.Extract(a[0],q-1,1),sb=X.Extract(a[1],q-1,1),stt=X.Extract(t,q-1,1); r=X.agg({t,X.And(X.Not(X.Eq(sa,sb)),X.Not(X.Eq(sa,stt)))}); break; }
      case Intrinsic::umul_with_overflow: { unsigned q=a[0]->w; u64 m=maskw(q); E t=X.Mul(a[0],a[1]); E ov; if(a[1]->isC()) ov=a[1]->v?X.Ult(X.C(m/a[1]->v,q),a[0]):X.F; else if(a[0]->isC()) ov=a[0]->v?X.Ult(X.C(m/a[0]->v,q),a[1]):X.F; else { u64 v=concretize(s,a[1],"umul.overflow"); ov=v?X.Ult(X.C(m/v,q),a[0]):X.F; } r=X.agg({t,ov}); break; }
      case Intrinsic::eh_typeid_for: { const CallBase*cb=cast<CallBase>(in.raw); auto c=cast<Constant>(cb->getArgOperand(0)); r=X.C(typeId(c->isNullValue()?"null":tiName(c)),32); break; }
      case Intrinsic::vastart: { Frame&f=s.top(); u32 o=newObj(s,8*f.varargs.size()+8,1,false,"varargs"); f.allocas.push_back(o); u64 ad=s.m.get(o)->addr; for(size_t i=0;i<f.varargs.size();i++){ E v=f.varargs[i]; wrN(s,o,i*8,v->w<64?X.ZExt(v,64):v,8); } store(s,a[0],X.C(48,32),4); store(s,X.Add(a[0],X.C(4,64)),X.C(304,32),4); store(s,X.Add(a[0],X.C(8,64)),X.C(ad,64),8); store(s,X.Add(a[0],X.C(16,64)),X.C(0,64),8); break; }
      case Intrinsic::vaend: break; case Intrinsic::vacopy: memcpy_(s,a[0],a[1],24,true); break;
      case Intrinsic::fabs: { r=X.And(a[0],X.C(maskw(w-1),w)); break; }
      case Intrinsic::ceil: case Intrinsic::floor: case Intrinsic::trunc: case Intrinsic::sqrt: { u64 v=concretize(s,a[0],"fp"); if(w!=64) give(s,"fp32 intrinsic"); double d; memcpy(&d,&v,8); auto id=fn->f->getIntrinsicID(); d= id==Intrinsic::ceil?ceil(d):id==Intrinsic::floor?floor(d):id==Intrinsic::trunc?trunc(d):sqrt(d); memcpy(&v,&d,8); r=X.C(v,64); break; }
      default: give(s,"intrinsic "+fn->name); }
    finishCall(s,&in,in.dst,r); }

  void setupHandlers();
  void instrInit();
  void run();
  bool schedPoint(State&s);
  void finishPath(State&s);
  void writeOut();
  int balance();
};

// ------------------------------------------------------------------ built-in functions
static u64 CI(Engine&e,State&s,E x,const char*w="argument"){ return e.concretize(s,x,w); }
#define H(name) static bool name(Engine&e,State&s,const Inst&in,std::vector<E>&a,E&ret)
static E newInput(Engine&e,State&s,const char*nm,unsigned w,u32 bytes){ E v=X.sym(std::string(nm)+std::to_string(s.inputs.size()),w); s.inputs.push_back({v,bytes}); return v; }
H(h_vf_u8){ ret=newInput(e,s,"i8_",8,1); return true; }
H(h_vf_u16){ ret=newInput(e,s,"i16_",16,2); return true; }
H(h_vf_u32){ ret=newInput(e,s,"i32_",32,4); return true; }
H(h_vf_u64){ ret=newInput(e,s,"i64_",64,8); return true; }
H(h_vf_bool){ E v=newInput(e,s,"b_",1,1); ret=X.ZExt(v,in.w?in.w:1); return true; }
H(h_vf_range){ u64 lo=CI(e,s,a[0]),hi=CI(e,s,a[1]); if(hi<=lo){ ret=X.C(lo,64); return true; } u64 span=hi-lo; unsigned w=1; while(w<64&&(1ull<<w)<=span) w++; E v=newInput(e,s,"r_",w,8); E z=X.ZExt(v,64); E c=X.Ule(z,X.C(span,64)); 
  if(!c->isC()){ // fresh symbol, model default 0 satisfies it
    e.addCons(s,c); }
  ret=X.Add(z,X.C(lo,64)); return true; }
H(h_vf_pick){ u64 lo=CI(e,s,a[0]),hi=CI(e,s,a[1]); if(hi<=lo){ ret=X.C(lo,64); return true; } u64 span=hi-lo; unsigned w=1; while(w<64&&(1ull<<w)<=span) w++; E v=newInput(e,s,"p_",w,8); u32 sy=(u32)v->v; if(span>(u64)opt.maxConc) e.give(s,"vf_pick span");
  // a fresh symbol constrained by nothing else: every value in range is feasible, so no query is needed to split on it
  for(u64 k=span;k>=1;k--){ State*n=e.clone(s); auto m=std::make_shared<Model>(*s.model); if(m->size()<=sy) m->resize(sy+1,0); (*m)[sy]=k; n->model=m; e.finishCall(*n,&in,in.dst,X.C(lo+k,64)); n->cons.push_back(X.Eq(v,X.C(k,w))); st.forks++; e.pushWork(n); }
  s.cons.push_back(X.Eq(v,X.C(0,w))); ret=X.C(lo,64); return true; }
H(h_vf_conc){ ret=X.C(CI(e,s,a[0],"vf_conc"),64); return true; }
H(h_vf_assume){ E c=a[0]; if(c->w!=1) c=X.Not(X.Eq(c,X.C(0,c->w))); std::shared_ptr<Model> nm; int r=e.feasible(s,c,&nm); if(r==1){ if(nm) s.model=nm; e.addCons(s,c); return true; } if(r<0) incomplete.insert("solver unknown in assume"); st.infeasible++; throw PathEnd{"assume"}; }
H(h_vf_assert){ E c=a[0]; if(c->w!=1) c=X.Not(X.Eq(c,X.C(0,c->w))); st.asserts++; if(c->isC()){ if(c->v){ st.assertRewritten++; return true; } e.fail(s,"assert",e.cstr(s,a[1])); }
  std::shared_ptr<Model> nm; int r=e.feasible(s,X.Not(c),&nm); if(r<0){ incomplete.insert("solver unknown in assertion "+e.cstr(s,a[1])); return true; } if(r==0){ st.assertSolver++; return true; }
  e.report(s,"assert",e.cstr(s,a[1]),nm?*nm:*s.model); // continue on the side where it holds
  std::shared_ptr<Model> n2; if(e.feasible(s,c,&n2)==1){ if(n2) s.model=n2; e.addCons(s,c); return true; } throw PathEnd{"violation"}; }
H(h_vf_reach){ std::string t=e.cstr(s,a[0]); reachTags[t]++; s.tags.push_back(t); return true; }
H(h_vf_giveup){ e.give(s,"outside the model: "+e.cstr(s,a[0])); return true; }
H(h_vf_note){ s.notes.push_back(e.cstr(s,a[0])); return true; }
H(h_vf_is_engine){ ret=X.C(1,32); return true; }
H(h_vf_live){ ret=X.C((u64)s.liveHeap,64); return true; }
H(h_vf_stop){ throw PathEnd{"stop"}; }
H(h_vf_fail){ e.fail(s,"assert",e.cstr(s,a[0])); return true; }
H(h_abort){ e.fail(s,"abort","abort() called"); return true; }
H(h_terminate){ e.fail(s,"terminate","std::terminate called (exception escaped a noexcept function or unwinding)"); return true; }
H(h_exit){ e.fail(s,"exit","exit() called"); return true; }
H(h_purevirt){ e.fail(s,"abort","pure virtual call"); return true; }
static bool allocGen(Engine&e,State&s,E size,u8 kind,bool zero,E&ret){ u64 n=0; 
  if(!size->isC()){ E big=X.Ult(X.C(opt.maxAlloc,64),size); if(e.branch(s,big)){ ret=X.C(0,64); return true; } }
  n=CI(e,s,size,"allocation size"); if(n>opt.maxAlloc){ boundNotes["allocation larger than bound treated as failure"]++; ret=X.C(0,64); return true; }
  u32 o=e.newObj(s,n,kind,zero,nullptr); ret=X.C(s.m.get(o)->addr,64); return true; }
H(h_malloc){ return allocGen(e,s,a[0],2,false,ret); }
H(h_vf_new){ return allocGen(e,s,a[0],3,false,ret); }
H(h_vf_newa){ return allocGen(e,s,a[0],4,false,ret); }
H(h_vf_exalloc){ u32 o=e.newObj(s,CI(e,s,a[0]),5,true,"exception"); ret=X.C(s.m.get(o)->addr,64); return true; }
H(h_vf_exfree){ u32 sl; if(Mem::slotOf(CI(e,s,a[0]),sl)&&s.m.get(sl)){ Obj*w=s.m.wr(sl); w->freed=true; } return true; }
H(h_calloc){ u64 n=CI(e,s,a[0])*CI(e,s,a[1]); return allocGen(e,s,X.C(n,64),2,true,ret); }
H(h_free){ e.freePtr(s,a[0],2); return true; }
H(h_vf_delete){ e.freePtr(s,a[0],3); return true; }
H(h_vf_deletea){ e.freePtr(s,a[0],4); return true; }
H(h_realloc){ u64 p=CI(e,s,a[0]); u64 n=CI(e,s,a[1],"realloc size"); if(!p) return allocGen(e,s,a[1],2,false,ret); u32 sl; Obj*o=nullptr; if(Mem::slotOf(p,sl)) o=s.m.get(sl); if(!o||o->kind!=2||o->addr!=p) e.fail(s,"memory","realloc of non-malloc pointer"); if(o->freed) e.fail(s,"memory","realloc of freed pointer"); if(n==0){ e.freePtr(s,a[0],2); ret=X.C(0,64); return true; } u64 os=o->size; allocGen(e,s,X.C(n,64),2,false,ret); if(ret->v==0) return true; e.memcpy_(s,ret,X.C(p,64),std::min(os,n),true); e.freePtr(s,X.C(p,64),2); return true; }
H(h_memcpy){ e.memcpy_(s,a[0],a[1],CI(e,s,a[2],"memcpy length"),false); ret=a[0]; return true; }
H(h_memmove){ e.memcpy_(s,a[0],a[1],CI(e,s,a[2],"memmove length"),true); ret=a[0]; return true; }
H(h_memset){ e.memset_(s,a[0],a[1],CI(e,s,a[2],"memset length")); ret=a[0]; return true; }
H(h_memcmp){ u64 n=CI(e,s,a[2],"memcmp length"); E r=X.C(0,32); if(n){ u32 s1,s2; u64 o1,o2; e.span(s,a[0],n,false,s1,o1); e.span(s,a[1],n,false,s2,o2); for(i64 i=n-1;i>=0;i--){ E x=e.rdByte(s,s1,o1+i),y=e.rdByte(s,s2,o2+i); r=X.Ite(X.Eq(x,y),r,X.Sub(X.ZExt(x,32),X.ZExt(y,32))); } } ret=r; return true; }
H(h_bcmp){ u64 n=CI(e,s,a[2],"bcmp length"); E r=X.T; if(n){ u32 s1,s2; u64 o1,o2; e.span(s,a[0],n,false,s1,o1); e.span(s,a[1],n,false,s2,o2); for(i64 i=n-1;i>=0;i--) r=X.And(r,X.Eq(e.rdByte(s,s1,o1+i),e.rdByte(s,s2,o2+i))); } ret=X.ZExt(X.Not(r),32); return true; }
H(h_unwind){ u64 ti=CI(e,s,a[1],"typeinfo"); e.unwind(s,a[0],ti,false); return false; }
H(h_vf_freed){ u32 sl; u64 p=CI(e,s,a[0]); Obj*o=nullptr; if(Mem::slotOf(p,sl)) o=s.m.get(sl); ret=X.C(!o||o->freed,32); return true; }
H(h_vf_objsize){ u32 sl; u64 p=CI(e,s,a[0]); Obj*o=nullptr; if(Mem::slotOf(p,sl)) o=s.m.get(sl); ret=X.C(o&&!o->freed?o->addr+o->size-p:0,64); return true; }
// true when no byte of the block depends on an input (the solver finds no second value for it); never-written bytes are ignored
H(h_vf_const_bytes){ u64 n=CI(e,s,a[1]); bool ok=true; u32 sl; u64 off; if(n&&e.span(s,a[0],n,false,sl,off)) for(u64 i=0;i<n&&ok;i++){ E b=s.m.get(sl)->b[off+i]; if(!b||b->isC()) continue; if(b->op==OSym&&X.syms[b->v].name.compare(0,6,"uninit")==0) continue;
    u64 c=X.eval(b,*s.model); std::shared_ptr<Model> nm; int r=e.feasible(s,X.Not(X.Eq(b,X.C(c,8))),&nm); if(r<0) incomplete.insert("solver unknown in vf_const_bytes"); if(r==1) ok=false; }
  st.asserts++; st.assertSolver++; ret=X.C(ok,in.w?in.w:1); return true; }
H(h_nop){ ret=X.C(0,in.w?in.w:64); return true; }
H(h_vf_sp){ return true; }
H(h_spawn){ u64 fp=CI(e,s,a[0]); Fn*fn=e.fnByAddr.at(fp); Thread t; if(s.th.size()==1) s.th[0].vc.assign(8,1); if(s.th.size()>=8) e.give(s,"threads"); t.vc=s.th[s.cur].vc; s.th[s.cur].vc[s.cur]++; t.vc[s.th.size()]=2; s.th.push_back(t); u32 cur=s.cur; s.cur=s.th.size()-1; e.pushFrame(s,fn,{a[1]},-1,nullptr); s.cur=cur; ret=X.C(s.th.size()-1,32); return true; }
H(h_join){ u64 t=CI(e,s,a[0]); if(t>=s.th.size()) e.give(s,"join"); if(s.th[t].done){ s.th[s.cur].waitJoin=-1; Engine::vjoin(s.th[s.cur].vc,s.th[t].vc); return true; } s.th[s.cur].waitJoin=t; return false; }
H(h_vf_tid){ ret=X.C(s.cur,32); return true; }
H(h_vf_observe){ E v=a[0]; (void)v; return true; }

void Engine::setupHandlers(){
  struct { const char*n; Handler h; } T[]={ {"vf_u8",h_vf_u8},{"vf_u16",h_vf_u16},{"vf_u32",h_vf_u32},{"vf_u64",h_vf_u64},{"vf_bool",h_vf_bool},{"vf_range",h_vf_range},{"vf_conc",h_vf_conc},{"vf_pick",h_vf_pick},{"vf_assume",h_vf_assume},{"vf_assert_",h_vf_assert},{"vf_reach",h_vf_reach},{"vf_note",h_vf_note},{"vf_is_engine",h_vf_is_engine},{"vf_live",h_vf_live},{"vf_stop",h_vf_stop},{"vf_giveup",h_vf_giveup},{"__cxa_call_unexpected",h_terminate},{"__clang_call_terminate",h_terminate},{"vf_fail",h_vf_fail},
    {"abort",h_abort},{"__assert_fail",h_abort},{"_ZSt9terminatev",h_terminate},{"exit",h_exit},{"_exit",h_exit},{"__cxa_pure_virtual",h_purevirt},{"malloc",h_malloc},{"vf_new",h_vf_new},{"vf_newa",h_vf_newa},{"vf_delete",h_vf_delete},{"vf_deletea",h_vf_deletea},{"calloc",h_calloc},{"realloc",h_realloc},{"vf_rawmalloc",h_malloc},{"vf_rawcalloc",h_calloc},{"vf_rawrealloc",h_realloc},{"free",h_free},{"vf_exalloc",h_vf_exalloc},{"vf_exfree",h_vf_exfree},
    {"memcpy",h_memcpy},{"memmove",h_memmove},{"memset",h_memset},{"memcmp",h_memcmp},{"bcmp",h_bcmp},{"vf_unwind",h_unwind},{"vf_freed",h_vf_freed},{"vf_objsize",h_vf_objsize},{"vf_const_bytes",h_vf_const_bytes},{"vf_sp",h_vf_sp},{"vf_spawn",h_spawn},{"vf_join",h_join},{"vf_tid",h_vf_tid},
    {"_ZSt21ios_base_library_initv",h_nop},{"__cxa_atexit",h_nop},{"_ZNSt8ios_base4InitC1Ev",h_nop},{"_ZNSt8ios_base4InitD1Ev",h_nop} };
  for(auto&t:T) handlers[t.n]=t.h; }

// ------------------------------------------------------------------ driver
static std::string js(const std::string&s){ std::string r="\""; for(unsigned char c:s){ if(c=='"'||c=='\\'){ r+='\\'; r+=c; } else if(c<32||c>126){ char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r+"\""; }
static std::string hexs(const std::vector<u8>&v){ std::string r; char b[4]; for(u8 x:v){ snprintf(b,4,"%02x",x); r+=b; } return r; }
static std::string schedJ(const std::vector<std::array<u64,3>>&v){ std::string r="["; for(auto&x:v) r+=(r.size()>1?",[":"[")+std::to_string(x[0])+","+std::to_string(x[1])+","+std::to_string(x[2])+"]"; return r+"]"; }
void Engine::finishPath(State&s){ st.paths++; if((sampleInputs.size()<2||(st.paths%197==0&&sampleInputs.size()<10))){ std::vector<u8> in; inputsFrom(s,*s.model,in); std::string t; for(auto&x:s.tags) t+=(t.empty()?"":",")+js(x); std::string n; for(auto&x:s.notes) n+=(n.empty()?"":",")+js(x);
  sampleInputs.push_back("{\"path\":"+std::to_string(st.paths)+",\"constraints\":"+std::to_string(s.cons.size())+",\"uninit\":"+std::to_string(s.uninits.size())+",\"input\":\""+hexs(in)+"\",\"sched\":"+schedJ(s.sched)+",\"reach\":["+t+"],\"notes\":["+n+"]}"); } }

// returns false if current thread cannot run
bool Engine::schedPoint(State&s){ // called when the next instruction of the current thread is vf_sp call
  return true; }

int Engine::balance(){ // give half of the work to a forked process when a token is free
  if(!shared||work.size()<2) return 0; int t=shared->tokens; if(t<=0) return 0; if(!__sync_bool_compare_and_swap(&shared->tokens,t,t-1)) return 0;
  fflush(stdout); fflush(stderr); int seq=++procSeq; pid_t p=fork(); if(p<0){ __sync_fetch_and_add(&shared->tokens,1); return 0; }
  std::vector<State*> mine,other; for(size_t i=0;i<work.size();i++) (i%2?mine:other).push_back(work[i]);
  if(p==0){ kids.clear(); procTag+="_"+std::to_string(seq); procSeq=0; depthProc++; for(State*x:mine) (void)x; work=other; Stats z; st=z; viols.clear(); violCount.clear(); incomplete.clear(); reachTags.clear(); boundNotes.clear(); sampleInputs.clear(); fnsSeen.clear(); return 2; }
  kids.push_back(p); for(State*x:other) delete x; work=mine; return 1; }

void Engine::run(){
  std::map<std::string,int> dummy; bool stopped=false;
  while(!work.empty()){
    State*sp=work.back(); work.pop_back(); State&s=*sp;
    try{ u64 cnt=0;
      while(true){
        if((++cnt&0x3ff)==0){ if(now()-t0>opt.maxTime){ incomplete.insert("time limit"); stopped=true; throw PathEnd{"time"}; } if(loc->stop){ stopped=true; throw PathEnd{"stop"}; } if((cnt&0x3fff)==0){ if(X.ar.total>((u64)6<<30)){ incomplete.insert("memory limit"); stopped=true; throw PathEnd{"mem"}; } if(work.size()>=2&&balance()==2) throw PathEnd{"handoff"}; } }
        if(s.steps>opt.maxSteps){ report(s,"nontermination","no termination within "+std::to_string(opt.maxSteps)+" instructions",*s.model); throw PathEnd{"steps"}; }
        Thread&t=s.th[s.cur];
        if(t.done||t.waitJoin>=0){ // pick another runnable thread
          if(s.cur==0&&t.done){ finishPath(s); break; }
          if(t.waitJoin>=0&&s.th[t.waitJoin].done){ t.waitJoin=-1; continue; }
          std::vector<u32> run; for(u32 i=0;i<s.th.size();i++){ Thread&u=s.th[i]; if(!u.done&&(u.waitJoin<0||s.th[u.waitJoin].done)) run.push_back(i); }
          if(run.empty()) fail(s,"deadlock","deadlock");
                    for(size_t i=1;i<run.size();i++){ State*n=clone(s); n->sched.push_back({s.cur,t.visible,run[i]}); n->cur=run[i]; st.forks++; pushWork(n); }
          s.sched.push_back({s.cur,t.visible,run[0]}); s.cur=run[0]; continue; }
        Frame&f=t.fr.back(); Inst&in=f.fn->code[f.pc];
        if(in.callee&&in.callee->h==h_vf_sp&&s.th.size()>1){ // visible operation: optionally switch
          if(!s.skipSP&&(int)s.preempts<opt.maxPreempt){ for(u32 i=0;i<s.th.size();i++){ if(i==s.cur) continue; Thread&u=s.th[i]; if(u.done||(u.waitJoin>=0&&!s.th[u.waitJoin].done)) continue; State*n=clone(s); n->preempts++; n->sched.push_back({s.cur,t.visible,i}); n->cur=i; n->skipSP=true; st.forks++; pushWork(n); } }
          s.skipSP=false; t.visible++; }
        step(s); } }
    catch(PathEnd&p){ if(strcmp(p.why,"handoff")) st.pruned++; }
    catch(std::string&e){ incomplete.insert("engine: "+e); }
    delete sp; 
    if(stopped){ for(State*x:work) delete x; work.clear(); break; }
    if(st.paths+st.pruned>opt.maxPaths){ incomplete.insert("path limit"); break; }
    if(work.size()>=2) balance();
    if(loc->stop){ for(State*x:work) delete x; work.clear(); break; } } }

void Engine::writeOut(){
  std::string fn=opt.outdir+"/"+procTag+".json"; FILE*f=fopen((fn+".tmp").c_str(),"w"); if(!f){ perror(fn.c_str()); _exit(3); }
  fprintf(f,"{\"paths\":%llu,\"pruned\":%llu,\"steps\":%llu,\"forks\":%llu,\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"asserts\":%llu,\"assert_rewritten\":%llu,\"assert_solver\":%llu,\"infeasible\":%llu,\"max_constraints\":%llu,\"solver_s\":%.3f,\"wall\":%.3f,\"exprs\":%u,\"syms\":%zu,\n",
    (unsigned long long)st.paths,(unsigned long long)st.pruned,(unsigned long long)st.steps,(unsigned long long)st.forks,(unsigned long long)st.queries,(unsigned long long)st.qsat,(unsigned long long)st.qunsat,(unsigned long long)st.qunk,(unsigned long long)st.cacheHits,(unsigned long long)st.modelHits,(unsigned long long)st.asserts,(unsigned long long)st.assertRewritten,(unsigned long long)st.assertSolver,(unsigned long long)st.infeasible,(unsigned long long)st.maxCons,st.solver,now()-t0,X.nid,X.syms.size());
  auto arr=[&](const char*n,const std::set<std::string>&v){ fprintf(f,"\"%s\":[",n); bool c=false; for(auto&x:v){ fprintf(f,"%s%s",c?",":"",js(x).c_str()); c=true; } fprintf(f,"],\n"); };
  arr("incomplete",incomplete); std::set<std::string> fs; for(auto&n:fnsSeen) fs.insert(dem(n)); arr("functions",fs);
  fprintf(f,"\"reach\":{"); bool c=false; for(auto&p:reachTags){ fprintf(f,"%s%s:%llu",c?",":"",js(p.first).c_str(),(unsigned long long)p.second); c=true; } fprintf(f,"},\n\"notes\":{"); c=false; for(auto&p:boundNotes){ fprintf(f,"%s%s:%llu",c?",":"",js(p.first).c_str(),(unsigned long long)p.second); c=true; } fprintf(f,"},\n\"samples\":["); c=false; for(auto&x:sampleInputs){ fprintf(f,"%s%s",c?",\n":"",x.c_str()); c=true; }
  fprintf(f,"],\n\"violations\":["); c=false; for(auto&v:viols){ fprintf(f,"%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,\"input\":\"%s\",\"fills\":\"%s\",\"sched\":[",c?",\n":"",js(v.kind).c_str(),js(v.msg).c_str(),js(v.loc).c_str(),js(v.stack).c_str(),hexs(v.input).c_str(),hexs(v.fills).c_str()); bool d=false; { std::string q=schedJ(v.sched); fputs(q.substr(1,q.size()-2).c_str(),f); } fprintf(f,"],\"notes\":["); for(auto&n:v.notes){ fprintf(f,"%s%s",d?",":"",js(n).c_str()); d=true; } fprintf(f,"]}"); c=true; }
  fprintf(f,"]}\n"); fclose(f); rename((fn+".tmp").c_str(),fn.c_str()); }

// mark every atomic operation with a call of vf_sp(), the point where the scheduler may switch threads
static int instrument(const char*fn){ LLVMContext c; SMDiagnostic err; auto m=parseIRFile(fn,err,c); if(!m){ err.print("bdsym",errs()); return 3; } FunctionCallee sp=m->getOrInsertFunction("vf_sp",Type::getVoidTy(c));
  for(auto&f:*m) if(!f.isDeclaration()){ f.addFnAttr(Attribute::SanitizeAddress); f.addFnAttr(Attribute::SanitizeThread); std::vector<Instruction*> v; for(auto&b:f) for(auto&i:b) if(i.isAtomic()) v.push_back(&i); for(auto i:v) CallInst::Create(sp,{},"",i)->setDebugLoc(i->getDebugLoc()); }
  std::error_code ec; raw_fd_ostream o(std::string(fn)+".sp.bc",ec); WriteBitcodeToFile(*m,o); return ec?3:0; }
int main(int argc,char**argv){
  if(argc==3&&std::string(argv[1])=="--instrument") return instrument(argv[2]);
  for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="--entry") opt.entry=nx(); else if(a=="--out") opt.outdir=nx(); else if(a=="--tokens") opt.tokfile=nx(); else if(a=="--max-steps") opt.maxSteps=std::stoull(nx()); else if(a=="--max-time") opt.maxTime=std::stod(nx()); else if(a=="--max-viol") opt.maxViol=std::stoi(nx()); else if(a=="--preempt") opt.maxPreempt=std::stoi(nx()); else if(a=="--trace") opt.trace=true; else if(a=="--max-alloc") opt.maxAlloc=std::stoull(nx()); else if(a=="--alias"){ std::string x=nx(); auto q=x.find('='); aliasMap[x.substr(0,q)]=x.substr(q+1); } else opt.bc=a; }
  Engine e; e.t0=now(); SMDiagnostic err; e.M=parseIRFile(opt.bc,err,e.ctx); if(!e.M){ err.print("bdsym",errs()); return 3; } e.DL=&e.M->getDataLayout();
  if(!opt.tokfile.empty()){ int fd=open(opt.tokfile.c_str(),O_RDWR|O_CREAT,0600); if(fd<0||ftruncate(fd,4096)){ perror("tokens"); return 3; } shared=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED,fd,0); } 
  loc=(Shared*)mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  if(shared){ for(;;){ int t=shared->tokens; if(t>0&&__sync_bool_compare_and_swap(&shared->tokens,t,t-1)) break; usleep(3000); } e.t0=now();
    pid_t sup=fork(); if(sup>0){ int ws; while(waitpid(sup,&ws,0)<0&&errno==EINTR); if(WIFEXITED(ws)&&WEXITSTATUS(ws)==0) return 0; __sync_fetch_and_add(&shared->tokens,1); fprintf(stderr,"engine process died\n"); return 3; } }
  sol.init(); e.setupHandlers();
  State*s=new State(); s->model=std::make_shared<Model>();
  try{
    for(auto&f:*e.M) e.getFn(&f);
    for(auto&g:e.M->globals()){ u64 sz=g.getValueType()->isSized()?(u64)e.DL->getTypeAllocSize(g.getValueType()):8; if(!g.hasInitializer()) sz=std::max<u64>(sz,256); u32 o=e.newObj(*s,sz,0,true,g.getName().str().c_str(),false); e.gaddr[&g]=s->m.get(o)->addr; e.gnameByAddr[s->m.get(o)->addr]=g.getName().str(); }
    for(auto&g:e.M->globals()) if(g.hasInitializer()&&!g.getName().starts_with("llvm.")){ u32 sl; Mem::slotOf(e.gaddr[&g],sl); Obj*o=s->m.wr(sl); e.writeConst(o->b,0,g.getInitializer()); if(g.isConstant()) o->ro=true; }
    std::vector<std::pair<unsigned,Function*>> ctors; if(auto g=e.M->getNamedGlobal("llvm.global_ctors")) if(g->hasInitializer()) if(auto ca=dyn_cast<ConstantArray>(g->getInitializer())) for(auto&o:ca->operands()){ auto cs=cast<ConstantStruct>(o); if(auto fn=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ctors.push_back({(unsigned)cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),fn}); }
    std::stable_sort(ctors.begin(),ctors.end(),[](auto&a,auto&b){ return a.first<b.first; });
    Function*ef=e.M->getFunction(opt.entry); if(!ef||ef->isDeclaration()){ fprintf(stderr,"no entry %s\n",opt.entry.c_str()); return 3; }
    s->th.emplace_back();
    for(auto&c:ctors){ e.pushFrame(*s,e.getFn(c.second),{},-1,nullptr); size_t n=0; while(!s->th[0].done){ e.step(*s); if(++n>5000000){ fprintf(stderr,"ctor loop\n"); return 3; } } s->th[0].done=false; s->th[0].fr.clear(); if(!e.work.empty()){ fprintf(stderr,"fork in global ctor\n"); return 3; } }
    s->steps=0; std::vector<E> args; for(auto&a:ef->args()) args.push_back(X.C(0,e.width(a.getType())?e.width(a.getType()):64)); e.pushFrame(*s,e.getFn(ef),args,-1,nullptr);
  }catch(std::string&x){ fprintf(stderr,"setup: %s\n",x.c_str()); return 3; }catch(PathEnd&p){ fprintf(stderr,"setup path end %s\n",p.why); for(auto&i:incomplete) fprintf(stderr,"  %s\n",i.c_str()); for(auto&v:viols) fprintf(stderr,"  %s %s\n%s",v.kind.c_str(),v.msg.c_str(),v.stack.c_str()); return 3; }
  e.work.push_back(s); e.run();
  if(shared) __sync_fetch_and_add(&shared->tokens,1);
  bool bad=false; for(pid_t k:kids){ int ws; if(waitpid(k,&ws,0)!=k||!WIFEXITED(ws)||WEXITSTATUS(ws)!=0){ bad=true; if(shared) __sync_fetch_and_add(&shared->tokens,1); } }
  if(bad) incomplete.insert("a worker process died");
  e.writeOut(); 
  fflush(stdout); _exit(0);
}
