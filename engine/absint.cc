// absint: abstract interpreter over LLVM IR used by the jbofihe property checks.
//
// It never executes the analysed program.  It evaluates the IR over an abstract
// domain: machine integers, pointers (object, offset), *value-set maps* (a value
// that is a function of a finite-domain unknown, kept as one table and split only
// where control flow needs it), and opaque symbols (unknown values; a branch on one
// explores both outcomes).  Two modes:
//   eval       all abstract paths through one function, with unknown arguments
//   automaton  least fixpoint over an unbounded unknown input string: the abstract
//              state is cut at every read of a not-yet-read input position, so the
//              result is the finite-state machine the code implements.
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/xxhash.h"
#include "llvm/Support/MemoryBuffer.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
using namespace llvm;
using std::string; using std::vector; using std::shared_ptr; using std::map; using std::pair;

template<class K,class V> struct FlatMap { // small sorted map with contiguous storage (cheap to copy and hash)
  typedef pair<K,V> T; vector<T> v; typedef typename vector<T>::iterator iterator; typedef typename vector<T>::const_iterator const_iterator;
  static bool lt(const T &a, const K &k) { return a.first<k; }
  iterator lower_bound(const K &k) { return std::lower_bound(v.begin(),v.end(),k,lt); } const_iterator lower_bound(const K &k) const { return std::lower_bound(v.begin(),v.end(),k,lt); }
  iterator upper_bound(const K &k) { auto i=lower_bound(k); if (i!=v.end()&&i->first==k) ++i; return i; } const_iterator upper_bound(const K &k) const { auto i=lower_bound(k); if (i!=v.end()&&i->first==k) ++i; return i; }
  iterator find(const K &k) { auto i=lower_bound(k); return i!=v.end()&&i->first==k?i:v.end(); } const_iterator find(const K &k) const { auto i=lower_bound(k); return i!=v.end()&&i->first==k?i:v.end(); }
  size_t count(const K &k) const { return find(k)!=v.end(); } V &operator[](const K &k) { auto i=lower_bound(k); if (i==v.end()||i->first!=k) i=v.insert(i,T(k,V())); return i->second; }
  iterator erase(iterator i) { return v.erase(i); } size_t erase(const K &k) { auto i=find(k); if (i==v.end()) return 0; v.erase(i); return 1; }
  iterator begin() { return v.begin(); } iterator end() { return v.end(); } const_iterator begin() const { return v.begin(); } const_iterator end() const { return v.end(); } void clear() { v.clear(); } bool empty() const { return v.empty(); } size_t size() const { return v.size(); }
};
struct Fail { string msg; };
struct MemErr { string what; };
[[noreturn]] static void fail(const string &m) { throw Fail{m}; }

enum VK : uint8_t { UNDEF, INT, PTR, PTRFN, FN, SYM, FUNC, DBL };
struct Val {
  VK k = UNDEF; uint8_t w = 0; int32_t a = 0; int64_t v = 0;
  bool operator==(const Val &o) const { return k==o.k && a==o.a && v==o.v && (w==o.w || k==PTR || k==FUNC); }
};
static int64_t maskw(int64_t v, unsigned w) { return w >= 64 ? v : (int64_t)((uint64_t)v & ((1ULL<<w)-1)); }
static int64_t sextw(int64_t v, unsigned w) { if (w>=64) return v; uint64_t m=1ULL<<(w-1); uint64_t x=(uint64_t)v & ((1ULL<<w)-1); return (int64_t)((x^m)-m); }
static Val I(int64_t v, unsigned w) { Val r; r.k=INT; r.w=w; r.v=maskw(v,w); return r; }
static Val P(int obj, int64_t off) { Val r; r.k=PTR; r.w=64; r.a=obj; r.v=off; return r; }
static Val NULLP() { return I(0,64); }
static Val UND() { return Val(); }

// ---- special tape offsets (pointers into the input that lag far behind) -------------
static const int64_t T_MARK=-4000000001LL, T_OTHER=-4000000002LL, T_START=-4000000003LL;
static const int64_t LOGTOP = 1LL<<40;        // log pointer relative to the write frontier
static const int64_t LOGMANY = 1LL<<50;       // log pointer at an unknown index

struct Table { int var; uint8_t w; int obj; vector<int64_t> t; };
static std::deque<Table> arena;
static int newTable(Table &&t) { arena.push_back(std::move(t)); return (int)arena.size()-1; }

static vector<string> symNames; static vector<uint8_t> symW; static std::unordered_map<string,int> symIdx;
static int sym(const string &n, unsigned w) {
  string key = n + "#" + std::to_string(w);
  auto it = symIdx.find(key); if (it!=symIdx.end()) return it->second;
  int id=symNames.size(); symNames.push_back(n); symW.push_back(w); symIdx[key]=id; return id;
}
static Val S(const string &n, unsigned w) { Val r; r.k=SYM; r.w=w; r.a=sym(n,w); return r; }

// ---- objects --------------------------------------------------------------------
enum OK_ : uint8_t { O_GLOBAL, O_ALLOCA, O_HEAP, O_STR, O_TAPE, O_LOG, O_SYM, O_FREED };
struct Cell { int size; Val v; };
struct Obj {
  OK_ kind=O_HEAP; int64_t size=-1; uint8_t dflt=0; /*0 undef 1 zero 2 symbolic 3 global-initialiser*/
  int id=0; string name; FlatMap<int64_t,Cell> cells;
  // log objects
  int64_t len=0; bool lenTop=false; int esz=8; bool buf=false;
};
struct GInit { vector<uint8_t> bytes; map<int64_t,Val> ptrs; bool undef=false; int64_t size=0; };

// ---- compiled functions -----------------------------------------------------------
struct Opd { int slot=-1; Val c; };
struct GepT { int slot; Val c; int64_t scale; unsigned w; };
struct Edge { int pc=-1; const BasicBlock *to=nullptr; vector<pair<int,Opd>> phis; };
struct Op { const Instruction *in; unsigned opc=0; int dst=-1; vector<Opd> ops; int64_t off=0; vector<GepT> terms; int size=0; unsigned w=0; vector<Edge> edges; std::unordered_map<int64_t,int> cases; };
struct FnCode {
  const Function *f; int nslots=0; vector<Op> ops; map<const BasicBlock*,int> start;
  std::unordered_map<const Value*,int> slot;
  std::unordered_map<int, vector<int>> liveCache; // op index -> live slots before op
  map<const BasicBlock*, std::set<int>> liveIn; bool liveDone=false;
};
struct Frame { FnCode *fc; int pc=0; const BasicBlock *bb=nullptr,*prev=nullptr; vector<Val> r; vector<int> allocas; int objBase=0; FlatMap<const BasicBlock*,int> visits; };

struct Event { string name; vector<string> args; };
struct State {
  vector<Frame> st; FlatMap<int, shared_ptr<Obj>> mem; int nextStack=0, nextHeap=0;
  FlatMap<int, shared_ptr<vector<int>>> vars;         // var -> members (domain values)
  FlatMap<int,char> conds;                            // i1 symbol -> assumed value
  FlatMap<int,Val> binds; int64_t inpos=0; int seqPos=0;                             // symbol -> known value
  vector<Event> ev; int64_t steps=0; bool truncated=false;
  // tape
  int64_t frontier=0; int64_t markpos=1; bool markSeen=false, markIsStart=false; int startOff=0;
  bool startKnown=true;
  Val ret; bool done=false; string endkind;
};

static LLVMContext Ctx; static std::unique_ptr<Module> M; static const DataLayout *DL;
static vector<const GlobalVariable*> globals; static std::unordered_map<const GlobalVariable*,int> gid;
static map<int, GInit> ginit; static vector<const Function*> funcs; static std::unordered_map<const Function*,int> fid;
static std::unordered_map<const Function*, std::unique_ptr<FnCode>> codes;
static const int STACK0=1000000, HEAP0=2000000, SPEC0=3000000; // object id ranges
static std::unordered_map<int,int> symObj; static map<int,int> objSym;
static map<int, vector<int64_t>> varDom; static map<int,string> varName;

static int globalId(const GlobalVariable *g) {
  auto it=gid.find(g); if (it!=gid.end()) return it->second; int id=globals.size(); globals.push_back(g); gid[g]=id; return id;
}
static int funcId(const Function *f) { auto it=fid.find(f); if (it!=fid.end()) return it->second; int id=funcs.size(); funcs.push_back(f); fid[f]=id; return id; }

static Val constVal(const Constant *c);
static void flatten(const Constant *c, int64_t off, GInit &g) {
  Type *t=c->getType(); uint64_t sz=DL->getTypeStoreSize(t);
  if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) return;
  if (isa<UndefValue>(c)) return;
  if (auto *ci=dyn_cast<ConstantInt>(c)) { uint64_t v=ci->getZExtValue(); for (uint64_t i=0;i<sz;i++) g.bytes[off+i]=(v>>(8*i))&0xff; return; }
  if (auto *cd=dyn_cast<ConstantDataSequential>(c)) {
    if (cd->getElementType()->isIntegerTy()) { uint64_t es=cd->getElementByteSize();
      for (unsigned i=0;i<cd->getNumElements();i++) { uint64_t v=cd->getElementAsInteger(i); for (uint64_t j=0;j<es;j++) g.bytes[off+i*es+j]=(v>>(8*j))&0xff; } return; }
    uint64_t es=cd->getElementByteSize();
    for (unsigned i=0;i<cd->getNumElements();i++) flatten(cd->getElementAsConstant(i), off+i*es, g); return;
  }
  if (auto *ca=dyn_cast<ConstantArray>(c)) { uint64_t es=DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i=0;i<ca->getNumOperands();i++) flatten(ca->getOperand(i), off+i*es, g); return; }
  if (auto *cs=dyn_cast<ConstantStruct>(c)) { auto *sl=DL->getStructLayout(cs->getType()); for (unsigned i=0;i<cs->getNumOperands();i++) flatten(cs->getOperand(i), off+sl->getElementOffset(i), g); return; }
  if (t->isPointerTy()) { g.ptrs[off]=constVal(c); return; }
  if (auto *cf=dyn_cast<ConstantFP>(c)) { uint64_t v=cf->getValueAPF().bitcastToAPInt().getZExtValue(); for (uint64_t i=0;i<sz;i++) g.bytes[off+i]=(v>>(8*i))&0xff; return; }
  fail("unsupported initialiser");
}
static GInit &getInit(int id) {
  auto it=ginit.find(id); if (it!=ginit.end()) return it->second;
  GInit &g=ginit[id]; const GlobalVariable *gv=globals[id]; g.size=DL->getTypeAllocSize(gv->getValueType());
  g.bytes.assign(g.size,0); if (gv->hasInitializer()) flatten(gv->getInitializer(),0,g); else g.undef=true;
  return g;
}
static Val constVal(const Constant *c) {
  if (auto *ci=dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth()>64) fail("wide int"); return I(ci->getSExtValue(), ci->getBitWidth()); }
  if (isa<ConstantPointerNull>(c)) return NULLP();
  if (isa<UndefValue>(c)) return UND();
  if (auto *g=dyn_cast<GlobalVariable>(c)) return P(globalId(g),0);
  if (auto *f=dyn_cast<Function>(c)) { Val r; r.k=FUNC; r.w=64; r.a=funcId(f); return r; }
  if (auto *cf=dyn_cast<ConstantFP>(c)) { Val r; r.k=DBL; r.w=64; double d=cf->getValueAPF().isIEEE()? (cf->getType()->isDoubleTy()?cf->getValueAPF().convertToDouble():(double)cf->getValueAPF().convertToFloat()):0; memcpy(&r.v,&d,8); return r; }
  if (auto *ce=dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode()==Instruction::GetElementPtr) {
      Val b=constVal(ce->getOperand(0)); APInt off(64,0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL,off)) fail("const gep");
      if (b.k==PTR) return P(b.a,b.v+off.getSExtValue()); if (b.k==INT) return I(b.v+off.getSExtValue(),64); }
    if (ce->isCast()) { Val b=constVal(ce->getOperand(0)); if (b.k==PTR||b.k==FUNC) return b; if (b.k==INT) return I(b.v, DL->getTypeSizeInBits(ce->getType())); }
  }
  if (c->isNullValue()) return I(0,64);
  fail("unsupported constant");
}

static FnCode *code(const Function *f) {
  auto it=codes.find(f); if (it!=codes.end()) return it->second.get();
  auto fc=std::make_unique<FnCode>(); fc->f=f; int n=0;
  for (auto &a: f->args()) fc->slot[&a]=n++;
  for (auto &bb: *f) for (auto &in: bb) if (!in.getType()->isVoidTy()) fc->slot[&in]=n++;
  fc->nslots=n;
  for (auto &bb: *f) { fc->start[&bb]=fc->ops.size();
    for (auto &in: bb) { Op o; o.in=&in; if (!in.getType()->isVoidTy()) o.dst=fc->slot[&in];
      if (!isa<DbgInfoIntrinsic>(in)) for (auto &u: in.operands()) { Opd d; const Value *v=u.get(); auto s=fc->slot.find(v);
        if (s!=fc->slot.end()) d.slot=s->second; else if (auto *c=dyn_cast<Constant>(v)) { if (!isa<CallInst>(in) || !isa<Function>(v)) d.c=constVal(c); else d.c=constVal(c); } o.ops.push_back(d); }
      o.opc=in.getOpcode();
      if (auto *g=dyn_cast<GetElementPtrInst>(&in)) { MapVector<Value*,APInt> vo; APInt co(64,0); if (!g->collectOffset(*DL,64,vo,co)) fail("gep"); o.off=co.getSExtValue(); for (auto &kv: vo) { GepT t; auto it=fc->slot.find(kv.first); t.slot= it!=fc->slot.end()?it->second:-1; if (t.slot<0) t.c=constVal(cast<Constant>(kv.first)); t.scale=kv.second.getSExtValue(); t.w=kv.first->getType()->getIntegerBitWidth(); o.terms.push_back(t); } }
      if (isa<LoadInst>(in)) { Type *t=in.getType(); o.size=DL->getTypeStoreSize(t); } if (isa<StoreInst>(in)) o.size=DL->getTypeStoreSize(in.getOperand(0)->getType());
      fc->ops.push_back(std::move(o)); } }
  for (auto &o: fc->ops) if (o.in->isTerminator()) for (unsigned i=0;i<o.in->getNumSuccessors();i++) { Edge e; e.to=o.in->getSuccessor(i); int pc=fc->start[e.to]; while (isa<PHINode>(fc->ops[pc].in)) pc++; e.pc=pc;
      for (auto &phi: e.to->phis()) { const Value *v=phi.getIncomingValueForBlock(o.in->getParent()); Opd d; auto it=fc->slot.find(v); if (it!=fc->slot.end()) d.slot=it->second; else d.c=constVal(cast<Constant>(v)); e.phis.push_back({fc->slot[&phi],d}); } o.edges.push_back(std::move(e)); }
  for (auto &o: fc->ops) if (auto *sw=dyn_cast<SwitchInst>(o.in)) { unsigned w=sw->getCondition()->getType()->getIntegerBitWidth(); for (auto &cs: sw->cases()) o.cases[maskw(cs.getCaseValue()->getSExtValue(),w)]=cs.getSuccessorIndex(); }
  auto *p=fc.get(); codes[f]=std::move(fc); return p;
}
static void liveness(FnCode *fc) {
  if (fc->liveDone) return; fc->liveDone=true; bool ch=true;
  while (ch) { ch=false;
    for (auto &bb: *fc->f) { std::set<int> live;
      for (auto *s: successors(&bb)) { for (int x: fc->liveIn[s]) live.insert(x);
        for (auto &phi: s->phis()) { live.erase(fc->slot[&phi]); } }
      for (auto *s: successors(&bb)) for (auto &phi: s->phis()) { const Value *v=phi.getIncomingValueForBlock(&bb); auto it=fc->slot.find(v); if (it!=fc->slot.end()) live.insert(it->second); }
      for (auto it=bb.rbegin(); it!=bb.rend(); ++it) { auto &in=*it; if (isa<DbgInfoIntrinsic>(in)) continue; auto d=fc->slot.find(&in); if (d!=fc->slot.end()) live.erase(d->second);
        if (isa<PHINode>(in)) { live.insert(fc->slot[&in]); continue; }
        for (auto &u: in.operands()) { auto s=fc->slot.find(u.get()); if (s!=fc->slot.end()) live.insert(s->second); } }
      // phi defs are handled on edges: block live-in excludes its own phis at edges but they must stay live inside
      if (fc->liveIn[&bb]!=live) { fc->liveIn[&bb]=live; ch=true; } } }
}
static const vector<int>& liveAt(FnCode *fc, int pc) { // slots live just before executing op pc (its operands included)
  auto it=fc->liveCache.find(pc); if (it!=fc->liveCache.end()) return it->second;
  liveness(fc); const Instruction *target=fc->ops[pc].in; const BasicBlock *bb=target->getParent(); std::set<int> live;
  for (auto *s: successors(bb)) { for (int x: fc->liveIn[s]) live.insert(x); for (auto &phi: s->phis()) live.erase(fc->slot[&phi]); }
  for (auto *s: successors(bb)) for (auto &phi: s->phis()) { const Value *v=phi.getIncomingValueForBlock(bb); auto i2=fc->slot.find(v); if (i2!=fc->slot.end()) live.insert(i2->second); }
  for (auto i=bb->rbegin(); i!=bb->rend(); ++i) { auto &in=*i; if (!isa<DbgInfoIntrinsic>(in)) { auto d=fc->slot.find(&in); if (d!=fc->slot.end()) live.erase(d->second);
      if (!isa<PHINode>(in)) for (auto &u: in.operands()) { auto s=fc->slot.find(u.get()); if (s!=fc->slot.end()) live.insert(s->second); } }
    if (&in==target) break; }
  return fc->liveCache[pc]=vector<int>(live.begin(),live.end());
}

// ---- configuration of one request ---------------------------------------------------
struct Stub { bool event=true; bool hasRet=false; bool frees=false; json::Value ret=nullptr; vector<json::Value> writes; string end; vector<int> args;  vector<json::Value> show; };
struct Cfg {
  map<string,Stub> stubs; bool externEvent=false; int maxVisits=0; int64_t maxSteps=3000000; int maxPaths=200000; bool mark=false; int lag=4;
  vector<json::Value> outs; int window=0; std::set<string> symGlobals; string automFn; bool stringEvents=true; int maxStates=3000000; bool undefSym=false; bool heapZero=false; bool noInlineOther=false; std::set<string> inlineFiles; bool externZero=false; bool rereadEnd=false, memEnd=false, charBuf=false; int widen=0;
};
static Cfg cfg; static map<string,int> namedObj; static int specCount=0; static int tapeObj=-1; static int symCounter=0;

static shared_ptr<Obj> baseObj(int id) {
  auto o=std::make_shared<Obj>(); o->id=id; o->kind=O_GLOBAL; GInit &g=getInit(id); o->size=g.size; o->name=globals[id]->getName().str();
  o->dflt = 3; if (g.undef || cfg.symGlobals.count(o->name)) o->dflt=2; return o;
}
static map<int, shared_ptr<Obj>> roGlobals;
static const Obj *getObj(State &s, int id) {
  auto it=s.mem.find(id); if (it!=s.mem.end()) return it->second.get();
  if (id<STACK0) { auto &r=roGlobals[id]; if (!r) r=baseObj(id); return r.get(); }
  fail("dangling object");
}
static Obj *wObj(State &s, int id) {
  auto it=s.mem.find(id);
  if (it==s.mem.end()) { if (id>=STACK0) fail("dangling object"); auto o=baseObj(id); s.mem[id]=o; return o.get(); }
  if (it->second.use_count()>1) it->second=std::make_shared<Obj>(*it->second);
  return it->second.get();
}
static int symObject(State &s, int symid) {
  auto it=symObj.find(symid); int id;
  if (it==symObj.end()) { id=SPEC0+500000+(int)symObj.size(); symObj[symid]=id; objSym[id]=symid; } else id=it->second;
  if (!s.mem.count(id)) { auto o=std::make_shared<Obj>(); o->id=id; o->kind=O_SYM; o->dflt=2; o->name=symNames[symid]; s.mem[id]=o; }
  return id;
}
static string objName(State &s, int id) { const Obj *o=getObj(s,id); return o->name.empty()? ("obj"+std::to_string(id)) : o->name; }

static bool cstr(State &s, int obj, int64_t off, string &out);
static string showV(State &s, const Val &v, bool str=true) {
  switch (v.k) {
    case UNDEF: return "undef";
    case INT: return std::to_string(sextw(v.v,v.w));
    case PTR: { if (v.a==tapeObj) { if (cfg.mark) { bool eq=(v.v==T_MARK)||(v.v==T_START&&s.markIsStart)||(s.markSeen&&v.v==s.markpos); return eq?"@mark":"@other"; }
          if (v.v==T_OTHER) return "@other"; if (v.v==T_START) return "@start"; return "@"+std::to_string(v.v-s.frontier); }
        string t; if (str && cstr(s,v.a,v.v,t)) return "\""+t+"\""; const Obj *o=getObj(s,v.a);
        if (o->kind==O_LOG) { if (v.v>=LOGMANY/2) return "&"+o->name+"[?]"; if (v.v>=LOGTOP/2) return "&"+o->name+"[top"+(v.v==LOGTOP?"":std::to_string((v.v-LOGTOP)))+"]"; 
           if (o->lenTop) return "&"+o->name+"[base"+(v.v?"+"+std::to_string(v.v):"")+"]"; if (v.v==o->len) return "&"+o->name+"[top]"; if (v.v!=0) return "&"+o->name+"[top"+std::to_string(v.v-o->len)+"]"; return "&"+o->name+"[base]"; }
        return "&"+objName(s,v.a)+(v.v?"+"+std::to_string(v.v):""); }
    case FUNC: return "fn:"+funcs[v.a]->getName().str();
    case SYM: { auto b=s.binds.find(v.a); if (b!=s.binds.end()) return showV(s,b->second,str); return "$"+symNames[v.a]; }
    case DBL: { double d; memcpy(&d,&v.v,8); return std::to_string(d); }
    default: return "?fn";
  }
}

// resolve value-set maps against the current variable sets
static Val canon(State &s, Val v) {
  if (v.k==FN||v.k==PTRFN) {
    Table &t=arena[v.v]; auto &mem=*s.vars[t.var]; if (mem.empty()) fail("empty var"); int64_t x=t.t[mem[0]];
    for (int i: mem) if (t.t[i]!=x) return v;
    if (v.k==FN) return I(x,t.w); return P(t.obj,x);
  }
  if (v.k==SYM) { auto b=s.binds.find(v.a); if (b!=s.binds.end()) return b->second; }
  return v;
}
struct NeedSplit { int var; vector<int64_t> keyed; }; // split var's members by key
[[noreturn]] static void splitOn(State &s, Val v) { Table &t=arena[v.v]; NeedSplit n; n.var=t.var; n.keyed=t.t; throw n; }

static Val symExpr(State &s, const string &op, const vector<Val> &a, unsigned w) {
  string n=op+"("; for (size_t i=0;i<a.size();i++) { if (i) n+=","; Val c=canon(s,a[i]); if (c.k==FN||c.k==PTRFN) splitOn(s,c); if (c.k==UNDEF) n+="undef"; else n+=showV(s,c,false); } n+=")";
  if (n.size()>2000) { n="deep"+std::to_string(symCounter++); }
  return S(n,w);
}

static Val loadCell(State &s, int id, int64_t off, int size, unsigned w, bool isPtr);
static bool byteAt(State &s, const Obj *o, int64_t off, int &b) {
  auto it=o->cells.upper_bound(off);
  if (it!=o->cells.begin()) { --it; if (it->first+it->second.size>off) { Val v=canon(s,it->second.v); if (v.k!=INT) return false; b=(int)((uint64_t)v.v>>(8*(off-it->first)))&0xff; return true; } }
  if (o->dflt==1) { b=0; return true; }
  if (o->dflt==3) { GInit &g=getInit(o->id); if (off<0||off>=g.size) return false; auto p=g.ptrs.upper_bound(off); if (p!=g.ptrs.begin()) { --p; if (p->first+8>off) return false; } b=g.bytes[off]; return true; }
  return false;
}
static bool cstr(State &s, int id, int64_t off, string &out) {
  const Obj *o=getObj(s,id); if (o->kind==O_TAPE||o->kind==O_LOG||o->kind==O_SYM) return false;
  if (o->kind==O_GLOBAL && !s.mem.count(id)) { Type *t=globals[id]->getValueType(); while (t->isArrayTy()) t=t->getArrayElementType(); if (!t->isIntegerTy(8)) return false; }
  for (int i=0;i<4096;i++) { int b; if (o->size>=0 && off+i>=o->size) return false; if (!byteAt(s,o,off+i,b)) return false; if (!b) return true; out.push_back((char)b); }
  return false;
}
static Val loadCell(State &s, int id, int64_t off, int size, unsigned w, bool isPtr) {
  const Obj *o=getObj(s,id);
  if (o->kind==O_FREED) throw MemErr{"load from freed object"};
  auto it=o->cells.find(off);
  if (it!=o->cells.end() && it->second.size==size) { Val v=it->second.v; if (v.k==INT) { v.w=w; v.v=maskw(v.v,w); } return v; }
  // overlap?
  bool overlap=false; { auto u=o->cells.lower_bound(off+size); if (u!=o->cells.begin()) { --u; if (u->first+u->second.size>off) overlap=true; } }
  if (!overlap) {
    if (o->size>=0 && (off<0 || off+size>o->size)) throw MemErr{"out-of-bounds load from "+objName(s,id)+" offset "+std::to_string(off)};
    if (o->dflt==0) { return UND(); }
    if (o->dflt==2) { Val v=S("["+o->name+(off?"+"+std::to_string(off):"")+"]",w); Obj *wo=wObj(s,id); wo->cells[off]=Cell{size,v}; return v; }
    if (o->dflt==3) { GInit &g=getInit(id); auto p=g.ptrs.find(off); if (p!=g.ptrs.end()&&size==8) return p->second; }
  }
  uint64_t r=0; for (int i=0;i<size;i++) { int b; if (!byteAt(s,o,off+i,b)) { if (overlap) { // mixed
        auto u=o->cells.upper_bound(off+i); if (u!=o->cells.begin()) { --u; if (u->first+u->second.size>off+i) { Val v=canon(s,u->second.v); if (v.k==FN) splitOn(s,v); if (v.k==UNDEF) return UND(); if (v.k==SYM) return symExpr(s,"part",{v,I(off-u->first,64)},w); } } }
      return UND(); } r|=(uint64_t)b<<(8*i); }
  return I((int64_t)r,w);
}
static void storeCell(State &s, int id, int64_t off, int size, Val v) {
  Obj *o=wObj(s,id); if (o->kind==O_FREED) throw MemErr{"store to freed object"};
  if (o->size>=0 && (off<0 || off+size>o->size)) throw MemErr{"out-of-bounds store to "+objName(s,id)+" offset "+std::to_string(off)};
  // remove overlapping cells (splitting constants into bytes)
  auto u=o->cells.lower_bound(off); if (u!=o->cells.begin()) { auto p=std::prev(u); if (p->first+p->second.size>off) u=p; }
  while (u!=o->cells.end() && u->first<off+size) {
    if (u->first==off && u->second.size==size) { u->second.v=v; return; }
    int64_t a=u->first; Cell c=u->second; u=o->cells.erase(u); Val cv=canon(s,c.v);
    for (int i=0;i<c.size;i++) if (a+i<off||a+i>=off+size) { Val b = cv.k==INT? I((cv.v>>(8*i))&0xff,8) : UND(); o->cells[a+i]=Cell{1,b}; }
    u=o->cells.lower_bound(off);
  }
  o->cells[off]=Cell{size,v};
}

static int64_t binop(unsigned op, int64_t a, int64_t b, unsigned w) {
  uint64_t ua=(uint64_t)maskw(a,w), ub=(uint64_t)maskw(b,w); int64_t sa=sextw(a,w), sb=sextw(b,w);
  switch (op) {
    case Instruction::Add: return maskw(ua+ub,w); case Instruction::Sub: return maskw(ua-ub,w); case Instruction::Mul: return maskw(ua*ub,w);
    case Instruction::UDiv: if (!ub) fail("div by zero"); return maskw(ua/ub,w); case Instruction::SDiv: if (!sb) fail("div by zero"); return maskw(sa/sb,w);
    case Instruction::URem: if (!ub) fail("div by zero"); return maskw(ua%ub,w); case Instruction::SRem: if (!sb) fail("div by zero"); return maskw(sa%sb,w);
    case Instruction::Shl: return ub>=w?0:maskw(ua<<ub,w); case Instruction::LShr: return ub>=w?0:maskw(ua>>ub,w); case Instruction::AShr: return maskw(sa>>(ub>=w?w-1:ub),w);
    case Instruction::And: return ua&ub; case Instruction::Or: return ua|ub; case Instruction::Xor: return ua^ub;
  } fail("binop");
}
static bool icmp(CmpInst::Predicate p, int64_t a, int64_t b, unsigned w) {
  uint64_t ua=(uint64_t)maskw(a,w), ub=(uint64_t)maskw(b,w); int64_t sa=sextw(a,w), sb=sextw(b,w);
  switch (p) { case CmpInst::ICMP_EQ: return ua==ub; case CmpInst::ICMP_NE: return ua!=ub; case CmpInst::ICMP_UGT: return ua>ub; case CmpInst::ICMP_UGE: return ua>=ub;
    case CmpInst::ICMP_ULT: return ua<ub; case CmpInst::ICMP_ULE: return ua<=ub; case CmpInst::ICMP_SGT: return sa>sb; case CmpInst::ICMP_SGE: return sa>=sb;
    case CmpInst::ICMP_SLT: return sa<sb; case CmpInst::ICMP_SLE: return sa<=sb; default: fail("icmp"); }
}
static Val mapUn(State &s, Val a, unsigned w, const std::function<int64_t(int64_t)> &f) {
  Table &t=arena[a.v]; Table n; n.var=t.var; n.w=w; n.obj=0; n.t.assign(t.t.size(),0); for (int i: *s.vars[t.var]) n.t[i]=maskw(f(t.t[i]),w);
  Val r; r.k=FN; r.w=w; r.v=newTable(std::move(n)); return canon(s,r);
}
static Val mapBin(State &s, Val a, Val b, unsigned w, const std::function<int64_t(int64_t,int64_t)> &f) {
  if (a.k==FN && b.k==FN) { Table &x=arena[a.v], &y=arena[b.v]; if (x.var!=y.var) { if (s.vars[x.var]->size()<=s.vars[y.var]->size()) splitOn(s,a); splitOn(s,b); }
    Table n; n.var=x.var; n.w=w; n.obj=0; n.t.assign(x.t.size(),0); for (int i: *s.vars[x.var]) n.t[i]=maskw(f(x.t[i],y.t[i]),w); Val r; r.k=FN; r.w=w; r.v=newTable(std::move(n)); return canon(s,r); }
  if (a.k==FN) { int64_t c=b.v; return mapUn(s,a,w,[&](int64_t x){return f(x,c);}); }
  int64_t c=a.v; return mapUn(s,b,w,[&](int64_t x){return f(c,x);});
}

static Val doBin(State &s, const Instruction *in, Val a, Val b) {
  unsigned op=in->getOpcode(); unsigned w=in->getType()->getIntegerBitWidth();
  a=canon(s,a); b=canon(s,b);
  if (op==Instruction::And && ((a.k==INT&&a.v==0)||(b.k==INT&&b.v==0))) return I(0,w);
  if (op==Instruction::Mul && ((a.k==INT&&a.v==0)||(b.k==INT&&b.v==0))) return I(0,w);
  if (w==1 && op==Instruction::Or && ((a.k==INT&&a.v==1)||(b.k==INT&&b.v==1))) return I(1,1);
  if (a.k==UNDEF||b.k==UNDEF) { return UND(); }
  if (cfg.widen && ((a.k==SYM&&symNames[a.a]=="?top")||(b.k==SYM&&symNames[b.a]=="?top"))) return S("?top",w);
  if (a.k==INT&&b.k==INT) { int64_t rv=binop(op,a.v,b.v,w); if (cfg.widen && w==32 && op==Instruction::Add && sextw(rv,w)>cfg.widen) return S("?top",w); return I(rv,w); }
  if ((a.k==INT||a.k==FN)&&(b.k==INT||b.k==FN)) return mapBin(s,a,b,w,[&](int64_t x,int64_t y){return binop(op,x,y,w);});
  if (op==Instruction::Sub && a.k==PTR && b.k==PTR && a.a==b.a) return I(a.v-b.v,w);
  if ((op==Instruction::Add||op==Instruction::Or) && b.k==INT && b.v==0) return a;
  if ((op==Instruction::Add||op==Instruction::Or) && a.k==INT && a.v==0) return b;
  if (op==Instruction::Sub && b.k==INT && b.v==0) return a;
  if (a.k==FN) splitOn(s,a); if (b.k==FN) splitOn(s,b); if (a.k==PTRFN) splitOn(s,a); if (b.k==PTRFN) splitOn(s,b);
  return symExpr(s,in->getOpcodeName(),{a,b},w);
}
static Val doBinDbl(State &s, const Instruction *in, Val a, Val b) {
  a=canon(s,a); b=canon(s,b); if (a.k==DBL&&b.k==DBL) { double x,y,z; memcpy(&x,&a.v,8); memcpy(&y,&b.v,8);
    switch (in->getOpcode()) { case Instruction::FAdd: z=x+y; break; case Instruction::FSub: z=x-y; break; case Instruction::FMul: z=x*y; break; case Instruction::FDiv: z=x/y; break; default: fail("fp op"); }
    Val r; r.k=DBL; r.w=64; memcpy(&r.v,&z,8); return r; }
  return symExpr(s,in->getOpcodeName(),{a,b},64);
}
struct Widened {};
static bool nonnullObj(State &s, int id) { const Obj *o=getObj(s,id); return o->kind!=O_SYM; }
static Val doCmp(State &s, const ICmpInst *in, Val a, Val b) {
  auto p=in->getPredicate(); a=canon(s,a); b=canon(s,b);
  unsigned w = in->getOperand(0)->getType()->isPointerTy()?64:in->getOperand(0)->getType()->getIntegerBitWidth();
  if (cfg.widen && ((a.k==SYM&&symNames[a.a]=="?top")||(b.k==SYM&&symNames[b.a]=="?top"))) throw Widened();
  if (a.k==UNDEF||b.k==UNDEF) return UND();
  if (a.k==INT&&b.k==INT) return I(icmp(p,a.v,b.v,w),1);
  if ((a.k==INT||a.k==FN)&&(b.k==INT||b.k==FN)) return mapBin(s,a,b,1,[&](int64_t x,int64_t y){return (int64_t)icmp(p,x,y,w);});
  if (a.k==PTRFN) splitOn(s,a); if (b.k==PTRFN) splitOn(s,b); if (a.k==FN) splitOn(s,a); if (b.k==FN) splitOn(s,b);
  bool eqp=(p==CmpInst::ICMP_EQ||p==CmpInst::ICMP_NE);
  if (eqp && ((a.k==PTR&&b.k==INT&&maskw(b.v,64)==~0ull)||(b.k==PTR&&a.k==INT&&maskw(a.v,64)==~0ull))) return I(p==CmpInst::ICMP_NE,1); // no object lies at address -1
  if (a.k==PTR&&b.k==PTR) {
    if (a.a==b.a) {
      const Obj *o=getObj(s,a.a);
      if (o->kind==O_TAPE) {
        auto special=[](int64_t v){return v<=T_MARK;};
        if (special(a.v)||special(b.v)) {
          if (a.v==b.v && (a.v==T_START||a.v==T_MARK)) return I(icmp(p,0,0,64),1);
          if (special(a.v)&&special(b.v)) { if (eqp && ((a.v==T_START)!=(b.v==T_START)) && (a.v==T_OTHER||b.v==T_OTHER)) return I(p==CmpInst::ICMP_NE,1); return S("tapecmp"+std::to_string(symCounter++),1); }
          return I(icmp(p, special(a.v)?0:1, special(b.v)?0:1, 64),1); // far-behind pointers are below recent ones
        }
        return I(icmp(p,a.v,b.v,64),1);
      }
      if (o->kind==O_LOG) {
        auto cls=[&](int64_t v){ return v>=LOGMANY/2?2: v>=LOGTOP/2?1:0; };
        int ca=cls(a.v), cb=cls(b.v); if (ca==cb && ca<2) return I(icmp(p,a.v,b.v,64),1);
        if (ca==0 && cb==1 && a.v==0 && b.v-LOGTOP>=0 && o->lenTop) return I(icmp(p,0,1,64),1);
        if (cb==0 && ca==1 && b.v==0 && a.v-LOGTOP>=0 && o->lenTop) return I(icmp(p,1,0,64),1);
        if (o->buf && ca==1 && cb==0 && b.v>=1024) return I(icmp(p,0,1,64),1); // a text buffer is taken not to fill up
        if (o->buf && cb==1 && ca==0 && a.v>=1024) return I(icmp(p,1,0,64),1);
        return S("logcmp"+std::to_string(symCounter++),1);
      }
      return I(icmp(CmpInst::isUnsigned(p)?CmpInst::getSignedPredicate(p):p,a.v,b.v,64),1); // within one object (an address just before it is lower)
    }
    if (eqp) { if (nonnullObj(s,a.a)&&nonnullObj(s,b.a)) return I(p==CmpInst::ICMP_NE,1);
      if ((!nonnullObj(s,a.a)) != (!nonnullObj(s,b.a))) { /* unknown pointer vs known object */ const Obj *k=getObj(s, nonnullObj(s,a.a)?a.a:b.a); if (k->kind==O_ALLOCA||k->kind==O_HEAP) return I(p==CmpInst::ICMP_NE,1); }
    }
    if (a.v!=0||b.v!=0||!eqp) { return symExpr(s,string("icmp.")+CmpInst::getPredicateName(p).str(),{a,b},1); }
  }
  auto isNull=[](const Val &v){return v.k==INT&&v.v==0;};
  if (a.k==FUNC&&b.k==FUNC) return I(icmp(p,a.a,b.a,64),1);
  if ((a.k==FUNC&&isNull(b))||(b.k==FUNC&&isNull(a))) return I(p==CmpInst::ICMP_NE||p==CmpInst::ICMP_UGT,1);
  if (a.k==PTR&&isNull(b)) { if (nonnullObj(s,a.a)||a.v!=0) return I(p==CmpInst::ICMP_NE||p==CmpInst::ICMP_UGT||p==CmpInst::ICMP_UGE,1); }
  if (b.k==PTR&&isNull(a)) { if (nonnullObj(s,b.a)||b.v!=0) return I(p==CmpInst::ICMP_NE||p==CmpInst::ICMP_ULT||p==CmpInst::ICMP_ULE,1); }
  // canonical form for symbolic compares
  auto back=[&](Val v){ if (v.k==PTR&&v.v==0&&objSym.count(v.a)) { Val r; r.k=SYM; r.w=64; r.a=objSym[v.a]; return r; } return v; };
  a=back(a); b=back(b);
  if (a==b) return I(icmp(p,0,0,64),1);
  if (p==CmpInst::ICMP_NE) { Val e=symExpr(s,"eq",{a,b},1); auto c=s.conds.find(e.a); if (c!=s.conds.end()) return I(!c->second,1); return symExpr(s,"not",{e},1); }
  if (p==CmpInst::ICMP_EQ) return symExpr(s,"eq",{a,b},1);
  return symExpr(s,CmpInst::getPredicateName(p).str(),{a,b},1);
}

static const uint16_t *ctypeTable() { static uint16_t t[384]; static bool done=false; if (!done) { done=true; memset(t,0,sizeof t);
    for (int c=0;c<128;c++) { uint16_t f=0; auto bit=[](int b){ return b<8? (1<<b)<<8 : (1<<b)>>8; };
      bool up=c>='A'&&c<='Z', lo=c>='a'&&c<='z', dg=c>='0'&&c<='9', sp=c==' '||(c>=9&&c<=13), pr=c>=32&&c<127, gr=c>32&&c<127;
      if (up) f|=bit(0); if (lo) f|=bit(1); if (up||lo) f|=bit(2); if (dg) f|=bit(3); if (dg||(c>='a'&&c<='f')||(c>='A'&&c<='F')) f|=bit(4); if (sp) f|=bit(5); if (pr) f|=bit(6); if (gr) f|=bit(7);
      if (c==' '||c==9) f|=bit(8); if (c<32||c==127) f|=bit(9); if (gr&&!up&&!lo&&!dg) f|=bit(10); if (up||lo||dg) f|=bit(11); t[c+128]=f; } } return t; }

static int newSpec(State &s, OK_ kind, int64_t size, uint8_t dflt, const string &name) {
  int id=SPEC0+specCount++; auto o=std::make_shared<Obj>(); o->id=id; o->kind=kind; o->size=size; o->dflt=dflt; o->name=name; s.mem[id]=o; if (!name.empty()) namedObj[name]=id; return id;
}
static int newStr(State &s, const string &t) { int id=newSpec(s,O_STR,t.size()+1,1,""); Obj *o=wObj(s,id); for (size_t i=0;i<t.size();i++) o->cells[i]=Cell{1,I((unsigned char)t[i],8)}; o->cells[t.size()]=Cell{1,I(0,8)}; return id; }

static Val specVal(State &s, const json::Value &j, unsigned w) {
  if (auto n=j.getAsInteger()) return I(*n,w);
  auto *o=j.getAsObject(); if (!o) fail("bad value spec");
  if (auto n=o->getInteger("int")) return I(*n, o->getInteger("w").value_or(w));
  if (o->get("null")) return NULLP();
  if (o->get("undef")) return UND();
  if (auto n=o->getString("sym")) return S(n->str(), o->getInteger("w").value_or(w));
  if (auto n=o->getString("symfresh")) return S(n->str()+std::to_string(symCounter++), o->getInteger("w").value_or(w));
  if (auto n=o->getString("str")) return P(newStr(s,n->str()),0);
  if (auto n=o->getString("global")) { auto *g=M->getGlobalVariable(*n,true); if (!g) fail("anchor vanished: global "+n->str()); return P(globalId(g), o->getInteger("off").value_or(0)); }
  if (auto n=o->getString("func")) { auto *f=M->getFunction(*n); if (!f) fail("anchor vanished: function "+n->str()); return constVal(f); }
  if (o->get("tape")) { if (tapeObj<0) tapeObj=newSpec(s,O_TAPE,-1,0,"tape"); return P(tapeObj,0); }
  if (auto n=o->getString("log")) { auto it=namedObj.find(n->str()); int id= it!=namedObj.end()?it->second:newSpec(s,O_LOG,-1,0,n->str()); return P(id,0); }
  if (auto n=o->getString("var")) { int id=-1; for (auto &kv: varName) if (kv.second==n->str()) id=kv.first; unsigned ww=o->getInteger("w").value_or(w);
    if (id<0) { id=1+(int)varName.size(); varName[id]=n->str(); vector<int64_t> d; for (auto &x: *o->getArray("dom")) d.push_back(*x.getAsInteger()); varDom[id]=d; auto m=std::make_shared<vector<int>>(); for (size_t i=0;i<d.size();i++) m->push_back(i); s.vars[id]=m; }
    Table t; t.var=id; t.w=ww; t.obj=0; if (auto *mp=o->getArray("map")) { for (auto &x: *mp) t.t.push_back(maskw(*x.getAsInteger(),ww)); if (t.t.size()!=varDom[id].size()) fail("map size"); } else for (auto x: varDom[id]) t.t.push_back(maskw(x,ww)); Val r; r.k=FN; r.w=ww; r.v=newTable(std::move(t)); return canon(s,r); }
  if (auto n=o->getString("ref")) { auto it=namedObj.find(n->str()); if (it==namedObj.end()) fail("unknown ref "+n->str()); return P(it->second, o->getInteger("off").value_or(0)); }
  if (auto n=o->getString("obj")) { uint8_t d=0; if (auto i=o->getString("init")) d= *i=="zero"?1: *i=="sym"?2:0; int id=newSpec(s,O_HEAP,o->getInteger("size").value_or(-1),d,n->str());
    if (auto *c=o->getArray("cells")) for (auto &x: *c) { auto *co=x.getAsObject(); int sz=*co->getInteger("size"); Val v=specVal(s,*co->get("val"),sz*8); storeCell(s,id,*co->getInteger("off"),sz,v); }
    return P(id, 0); }
  fail("bad value spec");
}

// ---- execution ---------------------------------------------------------------------
struct CutRead {}; struct Pruned {};
static Val opv(State &s, Frame &f, const Opd &o) { if (o.slot<0) return o.c; return f.r[o.slot]; }
static void enter(State &s, const Function *f, vector<Val> args) {
  Frame fr; fr.fc=code(f); fr.r.assign(fr.fc->nslots,Val()); fr.bb=&f->getEntryBlock(); fr.pc=0; fr.objBase=s.nextStack;
  for (size_t i=0;i<args.size() && i<f->arg_size();i++) fr.r[i]=args[i];
  s.st.push_back(std::move(fr)); if (s.st.size()>200) fail("recursion too deep in "+f->getName().str());
}
static void jump(State &s, Frame &f, int succ) {
  const Edge &e=f.fc->ops[f.pc].edges[succ]; 
  if (e.phis.size()==1) { f.r[e.phis[0].first]= e.phis[0].second.slot>=0? f.r[e.phis[0].second.slot] : e.phis[0].second.c; }
  else if (!e.phis.empty()) { vector<Val> t; t.reserve(e.phis.size()); for (auto &p: e.phis) t.push_back(p.second.slot>=0? f.r[p.second.slot] : p.second.c); for (size_t i=0;i<t.size();i++) f.r[e.phis[i].first]=t[i]; }
  f.prev=f.bb; f.bb=e.to; f.pc=e.pc;
  if (cfg.maxVisits) { if (++f.visits[e.to]>cfg.maxVisits) { s.truncated=true; throw Pruned(); } }
}
static string evArg(State &s, Val v) { v=canon(s,v); if (v.k==FN && cfg.charBuf) { Table &t=arena[v.v]; if (t.var==0) { bool idn=true; for (int i: *s.vars[0]) if ((t.t[i]&255)!=i) idn=false; if (idn) return "@c"; } } if (v.k==FN||v.k==PTRFN) splitOn(s,v); return showV(s,v); }

static string readStrFork(State &s, Val v) { v=canon(s,v); if (v.k==PTRFN) splitOn(s,v); string t; if (v.k!=PTR) fail("string arg not concrete"); if (!cstr(s,v.a,v.v,t)) fail("string not concrete: "+showV(s,v)); return t; }

static Val loadAt(State &s, Val p, Type *ty);
static void storeAt(State &s, Val p, Val v, int size);
static bool automMode=false;

static void assumeCond(State &s, Val c, bool val) {
  s.conds[c.a]=val; const string &n=symNames[c.a];
  // not(e): record inner too
  if (n.rfind("not($",0)==0) { string inner=n.substr(5,n.size()-6); auto it=symIdx.find(inner+"#1"); if (it!=symIdx.end()) { Val e; e.k=SYM; e.w=1; e.a=it->second; assumeCond(s,e,!val); } return; }
  if (val && n.rfind("eq($",0)==0) { // eq($x,const)
    size_t k=n.rfind(','); string x=n.substr(4,k-4), c2=n.substr(k+1,n.size()-k-2);
    if (!c2.empty() && (isdigit(c2[0])||c2[0]=='-') && c2.find_first_not_of("0123456789-")==string::npos) for (unsigned w: {1u,8u,16u,32u,64u}) { auto it=symIdx.find(x+"#"+std::to_string(w)); if (it!=symIdx.end()) s.binds[it->second]=I(std::stoll(c2),w); }
  }
}
static bool knownCond(State &s, Val c, bool &out) { auto it=s.conds.find(c.a); if (it!=s.conds.end()) { out=it->second; return true; }
  const string &n=symNames[c.a]; if (n.rfind("not($",0)==0) { string inner=n.substr(5,n.size()-6); auto i2=symIdx.find(inner+"#1"); if (i2!=symIdx.end()) { auto j=s.conds.find(i2->second); if (j!=s.conds.end()) { out=!j->second; return true; } } }
  return false; }

struct Fork { vector<State> alts; };
static std::unordered_map<const GlobalVariable*,bool> roMemo; static std::unordered_map<const Function*,int> pureMemo;
static bool readOnlyUses(const Value *v) { for (auto *u: v->users()) { if (isa<LoadInst>(u)) continue; if (isa<GEPOperator>(u)) { if (!readOnlyUses(u)) return false; continue; } return false; } return true; }
static bool roGlobal(const GlobalVariable *g) { auto it=roMemo.find(g); if (it!=roMemo.end()) return it->second; bool r=g->hasInitializer() && (g->isConstant()||readOnlyUses(g)) && !cfg.symGlobals.count(g->getName().str()); roMemo[g]=r; return r; }
// a function of integers only that reads nothing but never-written tables: its meaning is a finite map
static bool pureFn(const Function *f) {
  auto it=pureMemo.find(f); if (it!=pureMemo.end()) return it->second==1; pureMemo[f]=0; if (f->isDeclaration()||!f->getReturnType()->isIntegerTy()||f->arg_size()==0) return false; for (auto &a: f->args()) if (!a.getType()->isIntegerTy()) return false;
  for (auto &bb: *f) for (auto &in: bb) { if (isa<DbgInfoIntrinsic>(in)) continue; if (isa<StoreInst>(in)||isa<AllocaInst>(in)) return false; if (auto *ld=dyn_cast<LoadInst>(&in)) { const Value *p=ld->getPointerOperand(); while (auto *g=dyn_cast<GEPOperator>(p)) p=g->getPointerOperand(); auto *gv=dyn_cast<GlobalVariable>(p); if (!gv||!roGlobal(gv)) return false; continue; } if (auto *cb=dyn_cast<CallBase>(&in)) { auto *c=cb->getCalledFunction(); if (!c) return false; if (c->isIntrinsic()) { if (c->getName().starts_with("llvm.abs")||c->getName().starts_with("llvm.s")||c->getName().starts_with("llvm.u")) continue; return false; } if (!pureFn(c)) return false; } }
  pureMemo[f]=1; return true;
}
struct PH { size_t operator()(const pair<const Function*,vector<int64_t>> &k) const { size_t h=(size_t)k.first; for (auto x: k.second) h=h*1000003u+(size_t)x; return h; } }; static std::unordered_map<pair<const Function*,vector<int64_t>>,Val,PH> pureVal; static void runAll(State init, vector<State> &done, vector<State> &cut);
static Val pureApply(const Function *f, const vector<int64_t> &a) {
  auto k=std::make_pair(f,a); auto it=pureVal.find(k); if (it!=pureVal.end()) return it->second; State s; vector<Val> av; unsigned i=0; for (auto &x: f->args()) { av.push_back(I(a[i++],x.getType()->getIntegerBitWidth())); } Frame fr; fr.fc=code(f); fr.r.assign(fr.fc->nslots,Val()); fr.bb=&f->getEntryBlock(); for (size_t j=0;j<av.size();j++) fr.r[j]=av[j]; s.st.push_back(fr); vector<State> d,c; runAll(s,d,c); if (d.size()!=1||d[0].endkind!="return") fail("summary of "+f->getName().str()); return pureVal[k]=d[0].ret;
}
static bool model(State &s, Frame &f, const CallBase *cb, const string &n, vector<Val> &a, Val &ret);

static string fileOf(const Function *f) { if (auto *sp=f->getSubprogram()) { auto n=sp->getFilename().str(); auto k=n.rfind('/'); return k==string::npos?n:n.substr(k+1); } return ""; }

static vector<pair<const Function*,vector<Val>>> seqCalls;
static void doReturn(State &s, Val v) {
  Frame &f=s.st.back(); for (int id: f.allocas) s.mem.erase(id); s.nextStack=f.objBase; s.st.pop_back();
  if (s.st.empty()) { if (s.seqPos<(int)seqCalls.size()) { auto &c=seqCalls[s.seqPos++]; Event e; e.name="--"; s.ev.push_back(e); enter(s,c.first,c.second); return; } s.ret=v; s.done=true; s.endkind="return"; return; }
  Frame &c=s.st.back(); Op &o=c.fc->ops[c.pc]; if (o.dst>=0) c.r[o.dst]=v; 
  if (auto *iv=dyn_cast<InvokeInst>(o.in)) jump(s,c,0); else c.pc++;
}

// execute one op; throws NeedSplit / Fork / CutRead
static void step(State &s) {
  Frame &f=s.st.back(); Op &o=f.fc->ops[f.pc]; const Instruction *in=o.in;
  if (++s.steps>cfg.maxSteps) fail("step budget exhausted in "+f.fc->f->getName().str());
  auto V=[&](unsigned i){ return opv(s,f,o.ops[i]); };
  switch (o.opc) {
    case Instruction::Alloca: { auto *ai=cast<AllocaInst>(in); int64_t n=1; if (ai->isArrayAllocation()) { Val c=canon(s,V(0)); if (c.k!=INT) fail("variable alloca"); n=c.v; }
      int64_t sz=DL->getTypeAllocSize(ai->getAllocatedType())*n; int id=STACK0+s.nextStack++; auto ob=std::make_shared<Obj>(); ob->id=id; ob->kind=O_ALLOCA; ob->size=sz; ob->name=f.fc->f->getName().str()+"."+(ai->hasName()?ai->getName().str():"tmp");
      if (automMode && ai->getAllocatedType()->isArrayTy() && ai->getAllocatedType()->getArrayElementType()->isPointerTy() && ai->getAllocatedType()->getArrayNumElements()>=1024) { ob->kind=O_LOG; ob->size=-1; ob->name="local"; }
      if (automMode && cfg.charBuf && ai->getAllocatedType()->isArrayTy() && ai->getAllocatedType()->getArrayElementType()->isIntegerTy(8) && ai->getAllocatedType()->getArrayNumElements()>=1024) { ob->kind=O_LOG; ob->buf=true; ob->esz=1; ob->size=-1; ob->name="buf"; }
      s.mem[id]=ob; f.allocas.push_back(id); f.r[o.dst]=P(id,0); f.pc++; return; }
    case Instruction::Load: { Val p=canon(s,V(0)); f.r[o.dst]=loadAt(s,p,in->getType()); f.pc++; return; }
    case Instruction::Store: { Val v=canon(s,V(0)); Val p=canon(s,V(1)); storeAt(s,p,v,o.size); f.pc++; return; }
    case Instruction::GetElementPtr: {
      int64_t off=o.off;
      Val b=canon(s,V(0)); if (b.k==UNDEF) { f.r[o.dst]=UND(); f.pc++; return; }
      bool log=false; int esz=8; if (b.k==PTR) { const Obj *ob=getObj(s,b.a); log=ob->kind==O_LOG; esz=ob->esz; }
      if (log) { off/=esz; }
      Val idx; int64_t scale=0; bool symi=false; Val acc=I(0,64); 
      for (auto &tm: o.terms) { Val x= tm.slot>=0?f.r[tm.slot]:tm.c; x=canon(s,x); unsigned xw=tm.w; int64_t sc=tm.scale; if (log) sc/=esz; if (!sc && log) fail("log gep");
        if (x.k==UNDEF) throw MemErr{"undefined index"};
        if (x.k==INT) { off+=sextw(x.v,xw)*sc; continue; }
        if (x.k==FN) { Val y=mapUn(s,x,64,[&](int64_t q){return sextw(q,xw)*sc;}); acc= acc.k==INT? (y.k==INT? I(acc.v+y.v,64) : mapUn(s,y,64,[&](int64_t q){return q+acc.v;})) : mapBin(s,acc,y,64,[](int64_t p,int64_t q){return p+q;}); continue; }
        symi=true; idx=x; scale=sc; }
      if (acc.k==INT) { off+=acc.v; }
      if (symi) { if (acc.k==FN) splitOn(s,acc); if (b.k==PTRFN) splitOn(s,b); f.r[o.dst]=symExpr(s,"gep",{b,idx,I(scale,64),I(off,64)},64); f.pc++; return; }
      if (acc.k==FN) { if (b.k==PTRFN) splitOn(s,b); if (b.k==SYM) b=P(symObject(s,b.a),0); if (b.k!=PTR) fail("gep base"); Table t=arena[acc.v]; t.obj=b.a; for (auto &x: t.t) x+=b.v+off; Val r; r.k=PTRFN; r.w=64; r.v=newTable(std::move(t)); f.r[o.dst]=r; f.pc++; return; }
      if (b.k==PTRFN) { if (off==0) { f.r[o.dst]=b; f.pc++; return; } Table t=arena[b.v]; for (auto &x: t.t) x+=off; Val r; r.k=PTRFN; r.w=64; r.v=newTable(std::move(t)); f.r[o.dst]=r; f.pc++; return; }
      if (off==0) { f.r[o.dst]=b; f.pc++; return; }
      if (b.k==SYM) b=P(symObject(s,b.a),0);
      if (b.k==INT) { f.r[o.dst]=I(b.v+off,64); f.pc++; return; }
      if (b.k!=PTR) fail("gep base kind");
      if (b.a==tapeObj && b.v<=T_MARK) { if (off!=0) { if (b.v==T_START) fail("arithmetic on far tape pointer"); fail("arithmetic on far tape pointer"); } }
      if (log) { if (b.v>=LOGMANY/2) { f.r[o.dst]=b; f.pc++; return; } if (b.v<LOGTOP/2 && b.v+off>2 && getObj(s,b.a)->lenTop && !(getObj(s,b.a)->buf && b.v+off>=1024)) { f.r[o.dst]=P(b.a,LOGMANY); f.pc++; return; } }
      f.r[o.dst]=P(b.a,b.v+off); f.pc++; return; }
    case Instruction::Br: { auto *br=cast<BranchInst>(in); if (br->isUnconditional()) { jump(s,f,0); return; }
      Val c=canon(s,V(0)); if (c.k==UNDEF) { if (!cfg.undefSym) throw MemErr{"branch on undefined value"}; c=S("undef"+std::to_string(symCounter++),1); }
      if (c.k==INT) { jump(s,f,c.v?0:1); return; }
      if (c.k==FN) splitOn(s,c);
      if (c.k==SYM) { bool kv; if (knownCond(s,c,kv)) { jump(s,f,kv?0:1); return; }
        Fork fk; for (int t=0;t<2;t++) { State n=s; assumeCond(n,c,t==0); try { jump(n,n.st.back(),t); fk.alts.push_back(std::move(n)); } catch (Pruned&) {} } throw fk; }
      fail("branch kind"); }
    case Instruction::Switch: { auto *sw=cast<SwitchInst>(in); Val c=canon(s,V(0)); if (c.k==UNDEF) throw MemErr{"switch on undefined value"};
      unsigned cw=sw->getCondition()->getType()->getIntegerBitWidth(); auto target=[&](int64_t v)->int { auto it=o.cases.find(maskw(v,cw)); return it==o.cases.end()?0:it->second; };
      if (c.k==INT) { jump(s,f,target(c.v)); return; }
      if (c.k==FN) { // split by destination
        Table &t=arena[c.v]; map<const BasicBlock*,pair<int64_t,int>> ids; NeedSplit n; n.var=t.var; n.keyed.assign(t.t.size(),0); for (int i: *s.vars[t.var]) { int ti=target(t.t[i]); auto *b=o.edges[ti].to; if (!ids.count(b)) { int64_t k=ids.size(); ids[b]={k,ti}; } n.keyed[i]=ids[b].first; }
        if (ids.size()==1) { jump(s,f,ids.begin()->second.second); return; } 
        bool phi=false; for (auto &e: o.edges) if (!e.phis.empty()) phi=true; if (phi) splitOn(s,c); throw n; }
      if (c.k==SYM) { Fork fk; 
        for (auto &cs: sw->cases()) { State n=s; Val e=symExpr(n,"eq",{c,I(cs.getCaseValue()->getSExtValue(),c.w)},1); bool kv; if (knownCond(n,e,kv)&&!kv) continue; assumeCond(n,e,true); n.binds[c.a]=I(cs.getCaseValue()->getSExtValue(),c.w); try { jump(n,n.st.back(),cs.getSuccessorIndex()); fk.alts.push_back(std::move(n)); } catch (Pruned&) {} }
        { State n=s; for (auto &cs: sw->cases()) { Val e=symExpr(n,"eq",{c,I(cs.getCaseValue()->getSExtValue(),c.w)},1); assumeCond(n,e,false); } if (!isa<UnreachableInst>(sw->getDefaultDest()->getFirstNonPHI())) try { jump(n,n.st.back(),0); fk.alts.push_back(std::move(n)); } catch (Pruned&) {} }
        throw fk; }
      fail("switch kind"); }
    case Instruction::Ret: { Val v; if (in->getNumOperands()) v=canon(s,V(0)); doReturn(s,v); return; }
    case Instruction::Unreachable: { s.done=true; s.endkind="unreachable"; return; }
    case Instruction::ICmp: f.r[o.dst]=doCmp(s,cast<ICmpInst>(in),V(0),V(1)); f.pc++; return;
    case Instruction::FCmp: { Val a=canon(s,V(0)),b=canon(s,V(1)); if (a.k==DBL&&b.k==DBL) { double x,y; memcpy(&x,&a.v,8); memcpy(&y,&b.v,8); bool r=false; switch (cast<FCmpInst>(in)->getPredicate()) { case CmpInst::FCMP_OEQ: r=x==y; break; case CmpInst::FCMP_OGT: r=x>y; break; case CmpInst::FCMP_OGE: r=x>=y; break; case CmpInst::FCMP_OLT: r=x<y; break; case CmpInst::FCMP_OLE: r=x<=y; break; case CmpInst::FCMP_UNE: case CmpInst::FCMP_ONE: r=x!=y; break; default: fail("fcmp"); } f.r[o.dst]=I(r,1); } else f.r[o.dst]=symExpr(s,"fcmp",{a,b},1); f.pc++; return; }
    case Instruction::Select: { Val c=canon(s,V(0)); if (c.k==UNDEF) { f.r[o.dst]=UND(); f.pc++; return; } if (c.k==INT) { f.r[o.dst]=V(c.v?1:2); f.pc++; return; }
      Val a=canon(s,V(1)),b=canon(s,V(2)); if (a==b) { f.r[o.dst]=a; f.pc++; return; }
      if (c.k==FN) { if ((a.k==INT||a.k==FN)&&(b.k==INT||b.k==FN)) { Table &t=arena[c.v]; bool same=true; if (a.k==FN&&arena[a.v].var!=t.var) same=false; if (b.k==FN&&arena[b.v].var!=t.var) same=false; if (same) { Table n; n.var=t.var; n.obj=0; n.w=a.w; n.t.assign(t.t.size(),0); for (int i: *s.vars[t.var]) n.t[i]= t.t[i]? (a.k==FN?arena[a.v].t[i]:a.v):(b.k==FN?arena[b.v].t[i]:b.v); Val r; r.k=FN; r.w=a.w; r.v=newTable(std::move(n)); f.r[o.dst]=canon(s,r); f.pc++; return; } } splitOn(s,c); }
      bool kv; if (knownCond(s,c,kv)) { f.r[o.dst]=kv?a:b; f.pc++; return; }
      Fork fk; for (int t=0;t<2;t++) { State n=s; assumeCond(n,c,t==0); Frame &nf=n.st.back(); nf.r[o.dst]= t==0?a:b; nf.pc++; fk.alts.push_back(std::move(n)); } throw fk; }
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      Val a=canon(s,V(0)); unsigned fw=in->getOperand(0)->getType()->getIntegerBitWidth(), tw=in->getType()->getIntegerBitWidth(); bool sx=in->getOpcode()==Instruction::SExt;
      if (a.k==UNDEF) f.r[o.dst]=UND(); else if (a.k==INT) f.r[o.dst]=I(sx?sextw(a.v,fw):maskw(a.v,fw),tw); else if (a.k==FN) f.r[o.dst]=mapUn(s,a,tw,[&](int64_t x){return sx?sextw(x,fw):maskw(x,fw);});
      else if (a.k==SYM) { if (fw==1) { bool kv; if (knownCond(s,a,kv)) { f.r[o.dst]=I(sx?(kv?-1:0):kv,tw); f.pc++; return; } Fork fk; for (int t=0;t<2;t++) { State n=s; assumeCond(n,a,t==0); Frame &nf=n.st.back(); nf.r[o.dst]=I(t==0?(sx?-1:1):0,tw); nf.pc++; fk.alts.push_back(std::move(n)); } throw fk; }
        f.r[o.dst]=symExpr(s,in->getOpcodeName(),{a},tw); } else f.r[o.dst]=a; f.pc++; return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Freeze: f.r[o.dst]=canon(s,V(0)); f.pc++; return;
    case Instruction::SIToFP: case Instruction::UIToFP: { Val a=canon(s,V(0)); if (a.k==FN) splitOn(s,a); if (a.k==INT) { double d= in->getOpcode()==Instruction::SIToFP? (double)sextw(a.v,a.w):(double)(uint64_t)a.v; Val r; r.k=DBL; r.w=64; memcpy(&r.v,&d,8); f.r[o.dst]=r; } else f.r[o.dst]=symExpr(s,"itofp",{a},64); f.pc++; return; }
    case Instruction::FPToSI: case Instruction::FPToUI: { Val a=canon(s,V(0)); unsigned w=in->getType()->getIntegerBitWidth(); if (a.k==DBL) { double d; memcpy(&d,&a.v,8); f.r[o.dst]=I((int64_t)d,w); } else f.r[o.dst]=symExpr(s,"fptoi",{a},w); f.pc++; return; }
    case Instruction::FPExt: case Instruction::FPTrunc: f.r[o.dst]=canon(s,V(0)); f.pc++; return;
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: f.r[o.dst]=doBinDbl(s,in,V(0),V(1)); f.pc++; return;
    case Instruction::Call: case Instruction::Invoke: {
      auto *cb=cast<CallBase>(in);
      if (isa<DbgInfoIntrinsic>(in)) { f.pc++; return; }
      const Function *callee=cb->getCalledFunction(); vector<Val> a; for (unsigned i=0;i<cb->arg_size();i++) a.push_back(canon(s,V(i)));
      Val cv; if (!callee) { cv=canon(s,opv(s,f,o.ops[o.ops.size()-1])); if (cv.k==FN||cv.k==PTRFN) splitOn(s,cv); if (cv.k==FUNC) callee=funcs[cv.a]; }
      string n= callee? callee->getName().str() : "indirect:"+showV(s,cv);
      if (callee && callee->isIntrinsic()) {
        auto id=callee->getIntrinsicID();
        switch (id) { case Intrinsic::lifetime_start: f.pc++; return; 
          case Intrinsic::lifetime_end: { Val p=a[1]; if (p.k==PTR && s.mem.count(p.a)) { Obj *ob=wObj(s,p.a); ob->cells.clear(); } f.pc++; return; }
          case Intrinsic::assume: case Intrinsic::stacksave: case Intrinsic::stackrestore: case Intrinsic::donothing: case Intrinsic::vastart: case Intrinsic::vaend: f.pc++; return;
          case Intrinsic::abs: { if (a[0].k==INT) f.r[o.dst]=I(std::llabs(sextw(a[0].v,a[0].w)),a[0].w); else if (a[0].k==FN) { unsigned w=arena[a[0].v].w; f.r[o.dst]=mapUn(s,a[0],w,[&](int64_t x){return std::llabs(sextw(x,w));}); } else f.r[o.dst]=symExpr(s,"abs",{a[0]},in->getType()->getIntegerBitWidth()); f.pc++; return; }
          case Intrinsic::smax: case Intrinsic::smin: case Intrinsic::umax: case Intrinsic::umin: { unsigned w=in->getType()->getIntegerBitWidth(); auto fn=[&](int64_t x,int64_t y){ int64_t sx=sextw(x,w),sy=sextw(y,w); uint64_t ux=maskw(x,w),uy=maskw(y,w); switch(id){case Intrinsic::smax:return std::max(sx,sy);case Intrinsic::smin:return std::min(sx,sy);case Intrinsic::umax:return (int64_t)std::max(ux,uy);default:return (int64_t)std::min(ux,uy);} };
            if (a[0].k==INT&&a[1].k==INT) f.r[o.dst]=I(fn(a[0].v,a[1].v),w); else if ((a[0].k==INT||a[0].k==FN)&&(a[1].k==INT||a[1].k==FN)) f.r[o.dst]=mapBin(s,a[0],a[1],w,fn); else f.r[o.dst]=symExpr(s,"minmax",{a[0],a[1]},w); f.pc++; return; }
          default: break; }
        if (id==Intrinsic::memcpy||id==Intrinsic::memmove) n="memcpy"; else if (id==Intrinsic::memset) n="memset"; else if (id!=Intrinsic::not_intrinsic) fail("intrinsic "+n);
      }
      auto sb=cfg.stubs.find(n);
      bool defined= callee && !callee->isDeclaration();
      if (sb==cfg.stubs.end() && defined && !cfg.inlineFiles.empty() && !cfg.inlineFiles.count(fileOf(callee))) { sb=cfg.stubs.find("*other"); }
      auto finish=[&](Val rv){ if (o.dst>=0) f.r[o.dst]=rv; if (auto *iv=dyn_cast<InvokeInst>(in)) jump(s,f,0); else f.pc++; };
      if (sb!=cfg.stubs.end()) {
        Stub &st=sb->second; 
        if (st.event) { Event e; e.name=n; if (st.args.empty()) for (auto &x: a) e.args.push_back(evArg(s,x)); else for (int i: st.args) if (i<(int)a.size()) e.args.push_back(evArg(s,a[i]));
          for (auto &hj: st.show) { auto *ho=hj.getAsObject(); Val p=a[*ho->getInteger("arg")]; if (p.k==SYM) p=P(symObject(s,p.a),0); if (p.k!=PTR) { e.args.push_back("?"); continue; } int sz=*ho->getInteger("size"); e.args.push_back(evArg(s,loadCell(s,p.a,p.v+ho->getInteger("off").value_or(0),sz,sz*8,sz==8))); }
          s.ev.push_back(e); }
        for (auto &wj: st.writes) { auto *wo=wj.getAsObject(); 
          if (auto gn=wo->getString("global")) { auto *gv=M->getGlobalVariable(*gn,true); if (!gv) fail("anchor vanished: global "+gn->str()); int sz=*wo->getInteger("size"); storeCell(s,globalId(gv),wo->getInteger("off").value_or(0),sz,specVal(s,*wo->get("val"),sz*8)); continue; }
          if (auto *sa=wo->getArray("starts")) { Val cur=a[*wo->getInteger("arg")], src=a[*wo->getInteger("from")]; if (cur.k!=PTR||src.k!=PTR) fail("stub starts"); Val b=loadCell(s,cur.a,cur.v,8,64,true); if (b.k!=PTR) fail("stub starts base"); int k=0; for (auto &x: *sa) { storeCell(s,b.a,b.v+8*k,8,P(src.a,src.v+*x.getAsInteger())); k++; } storeCell(s,cur.a,cur.v,8,P(b.a,b.v+8*(k-1))); continue; }
          int ai=*wo->getInteger("arg"); if (ai>=(int)a.size()) fail("stub write arg"); Val p=a[ai]; if (p.k==INT&&p.v==0) continue; int sz=*wo->getInteger("size"); Val v=specVal(s,*wo->get("val"),sz*8); if (p.k==SYM) p=P(symObject(s,p.a),0); if (p.k!=PTR) fail("stub write target"); storeCell(s,p.a,p.v+wo->getInteger("off").value_or(0),sz,v); }
        if (st.frees && !a.empty() && a[0].k==PTR) { if (a[0].v!=0&&a[0].v!=8) throw MemErr{"free of a pointer into the middle of"}; Obj *fo=wObj(s,a[0].a); if (fo->kind==O_FREED) throw MemErr{"second free of"}; if (fo->kind==O_GLOBAL) throw MemErr{"free of a static object"}; fo->kind=O_FREED; }
        if (!st.end.empty()) { s.done=true; s.endkind=st.end; return; }
        Val rv; if (o.dst>=0) { unsigned w= in->getType()->isPointerTy()?64: in->getType()->isIntegerTy()?in->getType()->getIntegerBitWidth():64; if (st.hasRet) rv=specVal(s,st.ret,w); else rv=S("ret."+n+"."+std::to_string(s.ev.size()),w); }
        finish(rv); return; }
      if (defined && pureFn(callee)) { int var=-1; bool ok=true; size_t dn=0; for (auto &x: a) { if (x.k==INT) continue; if (x.k==FN) { int v=arena[x.v].var; if (var<0||var==v) { var=v; dn=arena[x.v].t.size(); } else ok=false; } else ok=false; }
        if (ok && var<0) { vector<int64_t> k; for (auto &x: a) k.push_back(x.v); Val r=pureApply(callee,k); if (r.k==INT) { finish(r); return; } ok=false; }
        if (ok) { Table n; n.var=var; n.obj=0; n.w=callee->getReturnType()->getIntegerBitWidth(); n.t.assign(dn,0); vector<vector<int64_t>> ks; bool good=true; for (int i: *s.vars[var]) { vector<int64_t> k; for (auto &x: a) k.push_back(x.k==INT?x.v:arena[x.v].t[i]); Val r=pureApply(callee,k); if (r.k!=INT) { good=false; break; } n.t[i]=r.v; } if (good) { Val r; r.k=FN; r.w=n.w; r.v=newTable(std::move(n)); finish(canon(s,r)); return; } } }
      if (defined) { enter(s,callee,a); return; }
      Val rv; if (model(s,f,cb,n,a,rv)) { if (s.done) return; finish(rv); return; }
      if (cfg.externEvent) { Event e; e.name=n; for (auto &x: a) e.args.push_back(evArg(s,x)); s.ev.push_back(e); unsigned w= in->getType()->isVoidTy()?0: in->getType()->isPointerTy()?64: in->getType()->isIntegerTy()?in->getType()->getIntegerBitWidth():64;
        if (callee && callee->doesNotReturn()) { s.done=true; s.endkind=n; return; }
        if (w) rv=S("ret."+n+"."+std::to_string(s.ev.size()),w); finish(rv); return; }
      fail("no model for call to "+n+" from "+f.fc->f->getName().str()); }
    default:
      if (in->isBinaryOp()) { f.r[o.dst]=doBin(s,in,V(0),V(1)); f.pc++; return; }
      fail(string("unsupported instruction ")+in->getOpcodeName());
  }
}

static Val loadAt(State &s, Val p, Type *ty) {
  int size=DL->getTypeStoreSize(ty); unsigned w= ty->isPointerTy()?64: ty->isIntegerTy()?ty->getIntegerBitWidth(): size*8; bool isP=ty->isPointerTy();
  if (p.k==UNDEF) throw MemErr{"load through undefined pointer in "+s.st.back().fc->f->getName().str()};
  if (p.k==SYM) { if (symNames[p.a].rfind("gep(",0)==0) return symExpr(s,"load"+std::to_string(size),{p},w); p=P(symObject(s,p.a),0); }
  if (p.k==INT) throw MemErr{"load through null/absolute pointer in "+s.st.back().fc->f->getName().str()};
  if (p.k==PTRFN) {
    Table t=arena[p.v]; const Obj *o=getObj(s,t.obj); if (o->kind==O_TAPE||o->kind==O_LOG) splitOn(s,p);
    Table n; n.var=t.var; n.w=w; n.obj=-1; n.t.assign(t.t.size(),0); int mode=0; // 1 ints, 2 ptrs same obj
    std::unordered_map<int64_t,Val> cache;
    for (int i: *s.vars[t.var]) { auto it=cache.find(t.t[i]); Val v; if (it!=cache.end()) v=it->second; else { try { v=canon(s,loadCell(s,t.obj,t.t[i],size,w,isP)); } catch (MemErr &) { if (s.vars[t.var]->size()==1) throw; splitOn(s,p); } cache[t.t[i]]=v; }
      if (v.k==INT && mode!=2) { mode=1; n.t[i]=v.v; } else if (v.k==PTR && mode!=1 && (n.obj<0||n.obj==v.a)) { mode=2; n.obj=v.a; n.t[i]=v.v; } else splitOn(s,p); }
    Val r; r.w=w; if (mode==1) { r.k=FN; n.obj=0; } else r.k=PTRFN; r.v=newTable(std::move(n)); return canon(s,r); }
  if (p.k!=PTR) fail("load pointer kind");
  const Obj *o=getObj(s,p.a);
  if (o->kind==O_TAPE) {
    if (cfg.rereadEnd && (p.v<=T_MARK || (p.v<s.frontier && o->cells.find(p.v)==o->cells.end()))) { s.done=true; s.endkind="reread"; return UND(); }
    if (p.v<=T_MARK) fail("re-read of a far input position");
    if (size!=1) fail("wide read of input");
    auto it=o->cells.find(p.v); if (it!=o->cells.end()) return it->second.v;
    if (p.v==s.frontier) throw CutRead();
    if (p.v>s.frontier) fail("read beyond frontier");
    fail("re-read of a forgotten input position");
  }
  if (o->kind==O_LOG) { if (p.v<LOGTOP/2 && !o->lenTop) { auto it=o->cells.find(p.v); if (it!=o->cells.end()) return it->second.v; } return S("entry."+o->name,64); }
  Val v=loadCell(s,p.a,p.v,size,w,isP);
  if (ty->isDoubleTy()&&v.k==INT) { v.k=DBL; }
  return v;
}
static void storeAt(State &s, Val p, Val v, int size) {
  if (p.k==UNDEF) throw MemErr{"store through undefined pointer in "+s.st.back().fc->f->getName().str()};
  if (p.k==PTRFN) splitOn(s,p);
  if (p.k==SYM) { if (symNames[p.a].rfind("gep(",0)==0) { Event e; e.name="symstore"; e.args={showV(s,p),evArg(s,v)}; s.ev.push_back(e); return; } p=P(symObject(s,p.a),0); }
  if (p.k==INT) throw MemErr{"store through null/absolute pointer in "+s.st.back().fc->f->getName().str()};
  if (p.k!=PTR) fail("store pointer kind");
  const Obj *o=getObj(s,p.a);
  if (o->kind==O_TAPE) { if (p.v<=T_MARK||p.v>=s.frontier) { if (p.v>s.frontier||p.v<=T_MARK) fail("write to unread input"); } wObj(s,p.a)->cells[p.v]=Cell{1,v}; return; }
  if (o->kind==O_LOG && o->buf) { Obj *w=wObj(s,p.a); Event e; e.args={evArg(s,v)};
    if (p.v==0) { e.name="begin"; w->len=1; w->lenTop=false; }
    else if (p.v>=LOGMANY/2) e.name="poke?";
    else if (p.v>=LOGTOP/2) { int64_t d=p.v-LOGTOP; if (!w->lenTop) e.name="stale"; else if (d==w->len) { e.name="append"; w->len++; } else if (d==w->len-1) e.name="replace"; else if (d>w->len) e.name="gap"; else e.name="poke"; }
    else if (w->lenTop) e.name="poke?"; else if (p.v==w->len) { e.name="append"; w->len++; } else if (p.v==w->len-1) e.name="replace"; else if (p.v>w->len) e.name="gap"; else e.name="poke";
    s.ev.push_back(e); return; }
  if (o->kind==O_LOG) { Obj *w=wObj(s,p.a); Event e; e.name="append:"+w->name; e.args={evArg(s,v)};
    if (p.v>=LOGMANY/2) { e.name="write?:"+w->name; s.ev.push_back(e); return; }
    if (p.v>=LOGTOP/2) { int64_t d=p.v-LOGTOP; if (d==w->len) { w->len=d+1; } else if (d>w->len) fail("log gap"); else e.name="rewrite"+std::to_string(d-w->len)+":"+w->name; s.ev.push_back(e); return; }
    if (w->lenTop) { e.name="writebase"+std::to_string(p.v)+":"+w->name; s.ev.push_back(e); return; }
    if (p.v==w->len) w->len++; else if (p.v>w->len) fail("log gap"); else e.name="rewrite"+std::to_string(p.v-w->len)+":"+w->name; w->cells[p.v]=Cell{8,v}; s.ev.push_back(e); return; }
  storeCell(s,p.a,p.v,size,v);
}

static bool model(State &s, Frame &f, const CallBase *cb, const string &n, vector<Val> &a, Val &ret) {
  auto conc=[&](Val v){ v=canon(s,v); if (v.k==FN||v.k==PTRFN) splitOn(s,v); return v; };
  if (n=="__ctype_b_loc") { static int oid=-1; int id; (void)oid; if (!namedObj.count("__ctype_b")) { int t=newSpec(s,O_STR,768,1,"__ctype_tab"); Obj *o=wObj(s,t); auto *tb=ctypeTable(); for (int i=0;i<384;i++) o->cells[i*2]=Cell{2,I(tb[i],16)}; id=newSpec(s,O_STR,8,1,"__ctype_b"); wObj(s,id)->cells[0]=Cell{8,P(t,256)}; }
    if (!s.mem.count(namedObj["__ctype_b"])) { int t=namedObj["__ctype_tab"], b=namedObj["__ctype_b"]; auto o=std::make_shared<Obj>(); o->id=t; o->kind=O_STR; o->size=768; o->dflt=1; o->name="__ctype_tab"; auto *tb=ctypeTable(); for (int i=0;i<384;i++) o->cells[i*2]=Cell{2,I(tb[i],16)}; s.mem[t]=o; auto p=std::make_shared<Obj>(); p->id=b; p->kind=O_STR; p->size=8; p->dflt=1; p->name="__ctype_b"; p->cells[0]=Cell{8,P(t,256)}; s.mem[b]=p; }
    ret=P(namedObj["__ctype_b"],0); return true; }
  if (cfg.charBuf && (n=="fgetc"||n=="getc"||n=="_IO_getc"||n=="getchar")) { if (s.inpos>=s.frontier) throw CutRead(); const Obj *t=getObj(s,tapeObj); auto it=t->cells.find(s.inpos); if (it==t->cells.end()) fail("forgotten input"); Val v=canon(s,it->second.v); s.inpos++; auto fn=[](int64_t x){ return (x&255)?(x&255):-1; }; if (v.k==INT) ret=I(fn(v.v),32); else ret=mapUn(s,v,32,fn); return true; }
  if (n=="tolower"||n=="toupper") { Val v=a[0]; auto fn=[&](int64_t x){ int c=(int)sextw(x,32); if (n=="tolower") return (int64_t)(c>='A'&&c<='Z'?c+32:c); return (int64_t)(c>='a'&&c<='z'?c-32:c); }; if (v.k==INT) ret=I(fn(v.v),32); else if (v.k==FN) ret=mapUn(s,v,32,fn); else ret=symExpr(s,n,{v},32); return true; }
  { static const map<string,int> cc={{"isupper",0},{"islower",1},{"isalpha",2},{"isdigit",3},{"isxdigit",4},{"isspace",5},{"isprint",6},{"ispunct",10},{"isalnum",11}}; auto it=cc.find(n); if (it!=cc.end()) { int b=it->second; int bit= b<8?(1<<b)<<8:(1<<b)>>8; auto *tb=ctypeTable(); auto fn=[&](int64_t x){ int c=(int)sextw(x,32); return (int64_t)((c>=0&&c<256&&(tb[c+128]&bit))?1:0); }; Val v=a[0]; if (v.k==INT) ret=I(fn(v.v),32); else if (v.k==FN) ret=mapUn(s,v,32,fn); else ret=symExpr(s,n,{v},32); return true; } }
  if (n=="realloc"||n=="GC_realloc") { Val p=conc(a[0]),x=conc(a[1]); int64_t sz=x.k==INT?x.v:-1; int id=HEAP0+s.nextHeap++; auto o=std::make_shared<Obj>(); o->id=id; o->kind=O_HEAP; o->size=sz; o->dflt=cfg.heapZero?1:0; o->name="heap"+std::to_string(id-HEAP0); if (p.k==PTR) { const Obj *q=getObj(s,p.a); if (q->kind==O_TAPE||q->kind==O_LOG||p.v!=0) fail("realloc"); o->cells=q->cells; o->dflt=q->dflt; } else if (!(p.k==INT&&p.v==0)) fail("realloc of unknown pointer"); s.mem[id]=o; ret=P(id,0); return true; }
  if (n=="malloc"||n=="calloc"||n=="GC_malloc"||n=="xmalloc") { int64_t sz=-1; Val x=conc(a[0]); if (x.k==INT) sz=x.v; if (n=="calloc") { Val y=conc(a[1]); if (x.k==INT&&y.k==INT) sz=x.v*y.v; else sz=-1; } int id=HEAP0+s.nextHeap++; auto o=std::make_shared<Obj>(); o->id=id; o->kind=O_HEAP; o->size=sz; o->dflt= n=="calloc"||cfg.heapZero?1:0; o->name="heap"+std::to_string(id-HEAP0); s.mem[id]=o; ret=P(id,0); return true; }
  if (n=="free") { return true; }
  if (n=="memset") { Val p=conc(a[0]),v=conc(a[1]),l=conc(a[2]); if (p.k==SYM) p=P(symObject(s,p.a),0); if (p.k!=PTR||v.k!=INT||l.k!=INT) fail("memset"); if (getObj(s,p.a)->kind==O_LOG) fail("memset on log"); 
    if (l.v>4096 && p.v==0) { Obj *o=wObj(s,p.a); if (o->size>=0&&l.v>=o->size&&v.v==0) { o->cells.clear(); o->dflt=1; ret=p; return true; } }
    for (int64_t i=0;i<l.v;) { if (i+8<=l.v) { int64_t q=0; for (int k=0;k<8;k++) q|=(int64_t)(v.v&0xff)<<(8*k); storeCell(s,p.a,p.v+i,8,I(q,64)); i+=8; } else { storeCell(s,p.a,p.v+i,1,I(v.v&0xff,8)); i++; } } ret=p; return true; }
  if (n=="memcpy"||n=="memmove") { Val d=conc(a[0]),q=conc(a[1]),l=conc(a[2]); if (d.k==SYM) d=P(symObject(s,d.a),0); if (q.k==SYM) q=P(symObject(s,q.a),0); if (l.k==INT&&l.v>0) for (auto *z: {&d,&q}) if (z->k==UNDEF||z->k==INT) throw MemErr{n+" with an undefined or null pointer"}; if (l.k==UNDEF) throw MemErr{n+" of undefined length"}; if (d.k!=PTR||q.k!=PTR||l.k!=INT) fail("memcpy"); vector<pair<int64_t,Cell>> t;
    const Obj *so=getObj(s,q.a); if (so->kind==O_TAPE||so->kind==O_LOG) fail("memcpy from input");
    for (int64_t i=0;i<l.v;) { so=getObj(s,q.a); auto it=so->cells.find(q.v+i); if (it!=so->cells.end() && i+it->second.size<=l.v) { t.push_back({i,it->second}); i+=it->second.size; continue; }
      int st = 1; if (so->dflt==3||so->dflt==2) { GInit *g=so->dflt==3?&getInit(so->id):nullptr; if (((q.v+i)%8)==0 && i+8<=l.v && (!g || g->ptrs.count(q.v+i))) st=8; } 
      Val v=loadCell(s,q.a,q.v+i,st,st*8,st==8); t.push_back({i,Cell{st,v}}); i+=st; }
    for (auto &x: t) storeCell(s,d.a,d.v+x.first,x.second.size,x.second.v); ret=d; return true; }
  if (n=="strlen") { Val p=conc(a[0]); string t; if (p.k==PTR && getObj(s,p.a)->kind!=O_TAPE && cstr(s,p.a,p.v,t)) { ret=I(t.size(),64); return true; } if (p.k==PTR && getObj(s,p.a)->kind==O_TAPE) { fail("strlen on input"); } 
    // unresolved bytes: find first possibly-zero byte
    if (p.k==PTR && getObj(s,p.a)->kind!=O_SYM) { for (int64_t i=0;i<100000;i++) { Val c=canon(s,loadCell(s,p.a,p.v+i,1,8,false)); if (c.k==FN) { Table &tb=arena[c.v]; bool z=false,nz=false; for (int m: *s.vars[tb.var]) (tb.t[m]?nz:z)=true; if (z&&nz) { NeedSplit q; q.var=tb.var; for (auto x: tb.t) q.keyed.push_back(x==0); throw q; } if (z) { ret=I(i,64); return true; } continue; } if (c.k==INT) { if (!c.v) { ret=I(i,64); return true; } continue; } if (c.k==UNDEF) throw MemErr{"strlen over undefined bytes of "+objName(s,p.a)}; fail("strlen: unknown byte"); } }
    ret=symExpr(s,"strlen",{p},64); return true; }
  if (n=="strcpy" && cfg.charBuf) { Val d=conc(a[0]); if (d.k==PTR && getObj(s,d.a)->kind==O_LOG && getObj(s,d.a)->buf) { Val q=conc(a[1]); string t; if (q.k!=PTR||!cstr(s,q.a,q.v,t)) fail("strcpy into buffer"); for (size_t i=0;i<=t.size();i++) storeAt(s,P(d.a,d.v+(int64_t)i),I(i<t.size()?(unsigned char)t[i]:0,8),1); ret=d; return true; } }
  if (n=="strcpy"||n=="strcat"||n=="strncpy"||n=="stpcpy") { Val d=conc(a[0]),q=conc(a[1]); int64_t lim=-1; if (n=="strncpy") { Val l=conc(a[2]); if (l.k!=INT) fail("strncpy len"); lim=l.v; } if (q.k==SYM||d.k==SYM) { Event e; e.name=n; e.args={showV(s,d),showV(s,q)}; s.ev.push_back(e); ret=d; return true; } for (auto *z: {&d,&q}) if (z->k==UNDEF||z->k==INT) throw MemErr{n+" with an undefined or null pointer"}; if (d.k!=PTR||q.k!=PTR) fail(n);
    if (getObj(s,q.a)->kind==O_SYM) { Event e; e.name=n; e.args={showV(s,d),showV(s,q)}; s.ev.push_back(e); ret=d; return true; }
    int64_t o=d.v; if (n=="strcat") { string t; if (!cstr(s,d.a,d.v,t)) { const Obj *od=getObj(s,d.a); if (od->size>=0 && (d.v<0||d.v>=od->size)) throw MemErr{"strcat outside "+objName(s,d.a)}; bool unk=false; for (int64_t i=0;i<100000;i++) { Val c=canon(s,loadCell(s,d.a,d.v+i,1,8,false)); if (c.k==UNDEF) throw MemErr{"strcat onto an undefined byte of "+objName(s,d.a)}; if (c.k!=INT) { unk=true; break; } } (void)unk; fail("strcat dest"); } o+=t.size(); }
    vector<Val> bytes; for (int64_t i=0;;i++) { if (lim>=0&&i>=lim) break; Val c=canon(s,loadAt(s,P(q.a,q.v+i),Type::getInt8Ty(Ctx))); if (c.k==FN) { Table &tb=arena[c.v]; bool z=false,nz=false; for (int m: *s.vars[tb.var]) (tb.t[m]?nz:z)=true; if (z&&nz) { NeedSplit sp; sp.var=tb.var; for (auto x: tb.t) sp.keyed.push_back(x==0); throw sp; } } if (c.k==UNDEF) throw MemErr{n+" of undefined bytes of "+objName(s,q.a)}; bytes.push_back(c); if (c.k==INT&&c.v==0) break; if (i>100000) fail(n); }
    for (size_t i=0;i<bytes.size();i++) storeCell(s,d.a,o+i,1,bytes[i]); while (lim>=0&&(int64_t)bytes.size()<lim) { storeCell(s,d.a,o+bytes.size(),1,I(0,8)); bytes.push_back(I(0,8)); } ret=d; if (n=="stpcpy") ret=P(d.a,o+bytes.size()-1); return true; }
  if (n=="strcmp"||n=="strncmp"||n=="strcasecmp"||n=="memcmp") { Val x=conc(a[0]),y=conc(a[1]); int64_t lim=-1; if (n!="strcmp"&&n!="strcasecmp") { Val l=conc(a[2]); if (l.k!=INT) fail(n); lim=l.v; }
    if (lim!=0) for (auto *z: {&x,&y}) if (z->k==UNDEF||(z->k==INT&&z->v==0)) throw MemErr{n+" with an undefined or null pointer"};
    if (x.k!=PTR||y.k!=PTR||getObj(s,x.a)->kind==O_SYM||getObj(s,y.a)->kind==O_SYM) { ret=symExpr(s,n,{x,y},32); string sx,sy; string nm=n+"("; nm+= (x.k==PTR&&cstr(s,x.a,x.v,sx))?"\""+sx+"\"":showV(s,x,false); nm+=","; nm+=(y.k==PTR&&cstr(s,y.a,y.v,sy))?"\""+sy+"\"":showV(s,y,false); nm+=")"; ret=S(nm,32); return true; }
    for (int64_t i=0;;i++) { if (lim>=0&&i>=lim) { ret=I(0,32); return true; } Val c=canon(s,loadAt(s,P(x.a,x.v+i),Type::getInt8Ty(Ctx))), d=canon(s,loadAt(s,P(y.a,y.v+i),Type::getInt8Ty(Ctx)));
      if (c.k==FN||d.k==FN) { Val e=mapBin(s,c,d,1,[](int64_t p,int64_t q){return (int64_t)((p&255)==(q&255));}); if (e.k==FN) splitOn(s,e); if (e.v==0) { // differ: sign may vary
            Val sg=mapBin(s,c,d,1,[](int64_t p,int64_t q){return (int64_t)((p&255)<(q&255));}); if (sg.k==FN) splitOn(s,sg); ret=I(sg.v?-1:1,32); return true; }
          // equal; could both be zero?
          if (n!="memcmp") { Val z= c.k==FN? mapUn(s,c,1,[](int64_t p){return (int64_t)(p==0);}) : I(c.v==0,1); if (z.k==FN) splitOn(s,z); if (z.v) { ret=I(0,32); return true; } } continue; }
      if (c.k!=INT||d.k!=INT) { ret=symExpr(s,n,{x,y},32); return true; }
      int p=c.v&255,q=d.v&255; if (n=="strcasecmp") { p=tolower(p); q=tolower(q); } if (p!=q) { ret=I(p<q?-1:1,32); return true; } if (!p&&n!="memcmp") { ret=I(0,32); return true; } } }
  if (n=="strchr"||n=="strrchr") { Val x=conc(a[0]),y=a[1]; y=canon(s,y); string t; if (x.k==PTR && cstr(s,x.a,x.v,t)) { if (y.k==FN) splitOn(s,y); if (y.k==INT) { int c=y.v&255; size_t k= c==0?t.size(): n=="strchr"?t.find((char)c):t.rfind((char)c); ret= k==string::npos?NULLP():P(x.a,x.v+k); return true; } } ret=symExpr(s,n,{x,y},64); return true; }
  if (n=="atoi"||n=="abs") { Val x=conc(a[0]); if (n=="abs") { if (x.k==INT) ret=I(std::llabs(sextw(x.v,32)),32); else ret=symExpr(s,n,{x},32); return true; } string t; if (x.k==PTR&&cstr(s,x.a,x.v,t)) ret=I(atoi(t.c_str()),32); else ret=symExpr(s,n,{x},32); return true; }
  if (n=="exit"||n=="abort"||n=="__assert_fail"||n=="_exit"||n=="__assert_rtn") { Event e; e.name=n; for (auto &x: a) e.args.push_back(evArg(s,x)); s.ev.push_back(e); s.done=true; s.endkind=n; if (n=="exit") s.ret=conc(a[0]); return true; }
  if (n=="sprintf"||n=="snprintf") { int64_t lim=-1; Val lv; if (n=="snprintf") { lv=conc(a[1]); if (lv.k==INT) lim=lv.v; a.erase(a.begin()+1); } Val d=conc(a[0]); string fmt; if ((n=="sprintf"||lv.k==INT) && (d.k==PTR || lim==0) && (lim==0 || getObj(s,d.a)->kind!=O_SYM) && a[1].k==PTR && cstr(s,a[1].a,a[1].v,fmt)) {
      // concrete formatting of %s %d %c with resolved arguments
      vector<Val> out; size_t ai=2; bool ok=true; for (size_t i=0;i<fmt.size()&&ok;i++) { if (fmt[i]!='%') { out.push_back(I((unsigned char)fmt[i],8)); continue; } i++; if (i>=fmt.size()) { ok=false; break; } if (fmt[i]=='%') { out.push_back(I('%',8)); continue; } string spec="%"; while (i<fmt.size() && !isalpha(fmt[i])) spec+=fmt[i++]; while (i<fmt.size() && fmt[i]=='l') i++; if (ai>=a.size()) { ok=false; break; } Val v=conc(a[ai++]);
        if (fmt[i]=='s') { string t; if (v.k==PTR&&cstr(s,v.a,v.v,t)) { char buf[5000]; snprintf(buf,sizeof buf,(spec+"s").c_str(),t.c_str()); for (char *q=buf;*q;q++) out.push_back(I((unsigned char)*q,8)); } else ok=false; }
        else if (fmt[i]=='d'||fmt[i]=='i'||fmt[i]=='u'||fmt[i]=='x'||fmt[i]=='c') { if (v.k==INT) { char buf[100]; snprintf(buf,sizeof buf,(spec+fmt[i]).c_str(),(int)sextw(v.v,v.w)); if (fmt[i]=='c') { out.push_back(I(v.v&255,8)); } else for (char *q=buf;*q;q++) out.push_back(I((unsigned char)*q,8)); } else ok=false; } else ok=false; }
      if (ok) { size_t m=out.size(); if (lim>=0 && (int64_t)m>=lim) m=lim>0?lim-1:0; if (lim!=0) { for (size_t i=0;i<m;i++) storeCell(s,d.a,d.v+i,1,out[i]); storeCell(s,d.a,d.v+m,1,I(0,8)); } ret=I(out.size(),32); return true; } }
    Event e; e.name=n; for (auto &x: a) e.args.push_back(evArg(s,x)); s.ev.push_back(e); ret=S("ret.sprintf."+std::to_string(s.ev.size()),32); return true; }
  if (n=="printf"||n=="fprintf"||n=="puts"||n=="putchar"||n=="fputs"||n=="fputc"||n=="putc"||n=="fwrite"||n=="fflush") { Event e; e.name=n; for (auto &x: a) e.args.push_back(evArg(s,x)); s.ev.push_back(e); if (!cb->getType()->isVoidTy()) ret=I(0,cb->getType()->getIntegerBitWidth()); return true; }
  return false;
}

static vector<State> splitState(State &s, NeedSplit &n) {
  map<int64_t, shared_ptr<vector<int>>> g; for (int i: *s.vars[n.var]) { auto &v=g[n.keyed[i]]; if (!v) v=std::make_shared<vector<int>>(); v->push_back(i); }
  if (g.size()<2) fail("split made no progress"); vector<State> out; for (auto &kv: g) { State c=s; c.vars[n.var]=kv.second; out.push_back(std::move(c)); } return out;
}

static string serial(State &s, bool full);
// run until every path is done or waiting at a cut; collect
static int64_t totalSteps=0; static int64_t totalPaths=0; static std::set<string> fnsSeen;
static void runAll(State init, vector<State> &done, vector<State> &cut) {
  vector<State> work; work.push_back(std::move(init)); std::unordered_set<string> seen; int paths=0;
  while (!work.empty()) {
    State s=std::move(work.back()); work.pop_back(); int64_t s0=s.steps; bool pushed=false;
    try { while (!s.done) { try { step(s); } catch (Widened &) { s.done=true; s.endkind="widened"; s.ret=UND(); } catch (MemErr &e) { if (!cfg.memEnd) fail(e.what+" in "+s.st.back().fc->f->getName().str()); s.done=true; s.endkind="memory-error "+e.what+" in "+s.st.back().fc->f->getName().str(); } catch (NeedSplit &n) { auto v=splitState(s,n); for (auto &x: v) work.push_back(std::move(x)); pushed=true; break; } } }
    catch (Fork &fk) { totalSteps+=s.steps-s0; if (automMode) { for (auto &x: fk.alts) { string k=serial(x,true); if (seen.insert(k).second) work.push_back(std::move(x)); } } else for (auto &x: fk.alts) work.push_back(std::move(x)); if ((int)work.size()+paths>cfg.maxPaths) fail("path budget exhausted"); continue; }
    catch (CutRead &) { totalSteps+=s.steps-s0; cut.push_back(std::move(s)); continue; }
    catch (Pruned &) { continue; }
    totalSteps+=s.steps-s0; if (pushed) { if ((int)work.size()>cfg.maxPaths) fail("path budget exhausted"); continue; }
    paths++; totalPaths++; if (paths>cfg.maxPaths) fail("path budget exhausted"); done.push_back(std::move(s));
  }
}

// ---- cut-state normalisation ---------------------------------------------------------
static void normVal(State &s, Val &v) {
  if (v.k==PTR && v.a==tapeObj && v.v>T_MARK) { int64_t rel=v.v-s.frontier; bool isStart = s.startKnown && v.v==s.startOff;
    if (rel < -cfg.lag) { if (isStart) v.v=T_START; else if (s.markSeen && v.v==s.markpos) v.v=T_MARK; else v.v=T_OTHER; }
    else v.v=rel; return; }
  if (v.k==PTR && s.mem.count(v.a)) { Obj *o=s.mem[v.a].get(); if (o->kind==O_LOG && v.v<LOGTOP/2 && o->len>0 && v.v>0 && !(o->buf && v.v>=1024)) { v.v=LOGTOP+(v.v-o->len); } else if (o->kind==O_LOG && v.v>=LOGTOP/2 && v.v<LOGMANY/2) { v.v=v.v-o->len; } }
}
static void normalise(State &s) {
  // canonicalise FN values must already be gone
  for (auto &f: s.st) { bool top=&f==&s.st.back(); const auto &live=liveAt(f.fc,f.pc); vector<bool> l(f.r.size(),false); for (int i: live) l[i]=true; if (!top) { int d=f.fc->ops[f.pc].dst; if (d>=0) l[d]=false; /* args of the call in progress are dead unless used later */ }
    for (size_t i=0;i<f.r.size();i++) { if (!l[i]) f.r[i]=Val(); else { f.r[i]=canon(s,f.r[i]); normVal(s,f.r[i]); } } f.visits.clear(); }
  for (auto &kv: s.mem) { if (kv.second->kind==O_LOG) continue; if (kv.first==tapeObj) continue; bool need=false; for (auto &c: kv.second->cells) { Val v=canon(s,c.second.v); Val w=v; normVal(s,w); if (!(w==c.second.v)) need=true; } if (need) { Obj *o=wObj(s,kv.first); for (auto &c: o->cells) { c.second.v=canon(s,c.second.v); normVal(s,c.second.v); } } }
  for (auto &kv: s.mem) if (kv.second->kind==O_LOG) { Obj *o=wObj(s,kv.first); if (o->len>0) o->lenTop=true; o->cells.clear(); o->len=0; }
  Obj *t=wObj(s,tapeObj); FlatMap<int64_t,Cell> nc; for (auto &c: t->cells) if (c.first>=s.frontier-cfg.window) nc[c.first-s.frontier]=Cell{1,canon(s,c.second.v)}; t->cells=nc;
  if (s.startKnown) { if (s.frontier-s.startOff>cfg.lag) { if (s.markSeen && s.markpos==s.startOff) s.markIsStart=true; s.startKnown=false; s.startOff=0; } else s.startOff-=s.frontier; }
  if (s.markSeen) { if (s.markpos<=T_MARK) {} else if (s.frontier-s.markpos>cfg.lag) s.markpos=T_MARK; else s.markpos-=s.frontier; }
  s.inpos-=s.frontier; if (s.inpos<0) s.inpos=0; s.frontier=0; s.conds.clear(); s.binds.clear(); s.steps=0; s.ev.clear();
}
static Val logRel(State &s, Val v) { if (v.k==PTR && v.v>=LOGTOP/2 && v.v<LOGMANY/2) { auto it=s.mem.find(v.a); if (it!=s.mem.end() && it->second->kind==O_LOG) v.v-=it->second->len; } return v; }
static void putv(string &o, const Val &v) { o.append((const char*)&v.k,1); o.append((const char*)&v.w,1); o.append((const char*)&v.a,4); o.append((const char*)&v.v,8); }
static string serial(State &s, bool full) {
  string o; for (auto &f: s.st) { o.append((const char*)&f.fc,8); o.append((const char*)&f.pc,4); 
    if (full) { bool top=&f==&s.st.back(); const auto &live=liveAt(f.fc,f.pc); (void)top; for (int i: live) { o.append((const char*)&i,4); putv(o,logRel(s,canon(s,f.r[i]))); } } else for (size_t i=0;i<f.r.size();i++) if (f.r[i].k!=UNDEF) { int k=i; o.append((const char*)&k,4); putv(o,f.r[i]); } o+='|'; }
  for (auto &kv: s.mem) { o.append((const char*)&kv.first,4); for (auto &c: kv.second->cells) { o.append((const char*)&c.first,8); putv(o,full?logRel(s,canon(s,c.second.v)):c.second.v); } o+=(char)('0'+kv.second->lenTop); if (full && !kv.second->lenTop) o.append((const char*)&kv.second->len,8); o+='/'; }
  o.append((const char*)&s.markpos,8); o+=(char)('0'+s.markSeen+2*s.markIsStart+4*s.startKnown); o.append((const char*)&s.startOff,4);
  if (full) for (auto &v: s.vars) for (int i: *v.second) { o.append((const char*)&i,4); }
  return o;
}
static void collectFN(State &s, vector<Val> &out) {
  auto add=[&](const Val &v){ Val c=canon(s,v); if (c.k==FN||c.k==PTRFN) out.push_back(c); };
  for (auto &f: s.st) { const auto &live=liveAt(f.fc,f.pc); for (int i: live) add(f.r[i]); }
  for (auto &kv: s.mem) { if (kv.first==tapeObj) { for (auto &c: kv.second->cells) if (c.first>=s.frontier-cfg.window) add(c.second.v); continue; } for (auto &c: kv.second->cells) add(c.second.v); }
}
static vector<State> concretise(State &s) { // split on every surviving value-set map
  vector<Val> fns; collectFN(s,fns); if (fns.empty()) { vector<State> r; r.push_back(s); return r; }
  int var=arena[fns[0].v].var; map<vector<int64_t>, shared_ptr<vector<int>>> g;
  for (int i: *s.vars[var]) { vector<int64_t> k; for (auto &v: fns) { Table &t=arena[v.v]; if (t.var==var) k.push_back(t.t[i]); } auto &m=g[k]; if (!m) m=std::make_shared<vector<int>>(); m->push_back(i); }
  vector<State> r; for (auto &kv: g) { State c=s; c.vars[var]=kv.second; vector<Val> rest; collectFN(c,rest); if (rest.empty()) r.push_back(std::move(c)); else { auto q=concretise(c); for (auto &x: q) r.push_back(std::move(x)); } }
  return r;
}
static string evStr(State &s) { string o; for (auto &e: s.ev) { o+=e.name+"("; for (size_t i=0;i<e.args.size();i++) { if (i) o+=","; o+=e.args[i]; } o+=");"; } return o; }
static string outStr(State &s) {
  if (s.endkind.rfind("memory-error",0)==0) return "end="+s.endkind; string o="ret="+showV(s,s.ret); if (s.endkind!="return") o="end="+s.endkind+(s.ret.k!=UNDEF?":"+showV(s,s.ret):"");
  for (auto &j: cfg.outs) { auto *jo=j.getAsObject(); string nm=jo->getString("name").value_or("").str(); Val v; int sz=jo->getInteger("size").value_or(4);
    if (jo->get("ret")) { Val rv=canon(s,s.ret); if (rv.k==SYM) rv=P(symObject(s,rv.a),0); if (rv.k!=PTR) { o+=";"+nm+"=none"; continue; } v=loadCell(s,rv.a,rv.v+jo->getInteger("off").value_or(0),sz,sz*8,sz==8); }
    else if (auto g=jo->getString("global")) { auto *gv=M->getGlobalVariable(*g,true); if (!gv) fail("anchor vanished: global "+g->str()); int id=globalId(gv); if (jo->get("str")) { string t; if (cstr(s,id,0,t)) { o+=";"+nm+"=\""+t+"\""; continue; } } v=loadCell(s,id,jo->getInteger("off").value_or(0),sz,sz*8,sz==8); }
    else { string on=jo->getString("obj")->str(); auto it=namedObj.find(on); if (it==namedObj.end()) fail("no object "+on); if (jo->get("str")) { string t; if (cstr(s,it->second,jo->getInteger("off").value_or(0),t)) { o+=";"+nm+"=\""+t+"\""; continue; } } v=loadCell(s,it->second,jo->getInteger("off").value_or(0),sz,sz*8,sz==8); }
    v=canon(s,v); if (v.k==FN||v.k==PTRFN) splitOn(s,v); o+=";"+nm+"="+showV(s,v,!jo->get("ptr")); }
  return o;
}
static vector<pair<State,string>> finishState(State s) { // split until the output is a single value
  vector<pair<State,string>> r; vector<State> w; w.push_back(std::move(s));
  while (!w.empty()) { State x=std::move(w.back()); w.pop_back(); try { Val v=canon(x,x.ret); if (v.k==FN||v.k==PTRFN) splitOn(x,v); x.ret=v; string o=outStr(x); r.push_back({x,o}); } catch (NeedSplit &n) { auto v=splitState(x,n); for (auto &y: v) w.push_back(std::move(y)); } }
  return r;
}

// ---- requests ------------------------------------------------------------------------
static void setup(State &s, const json::Object &rq, const Function *&F, vector<Val> &args) {
  cfg=Cfg(); namedObj.clear(); specCount=0; tapeObj=-1; arena.clear(); symCounter=0; varDom.clear(); varName.clear(); symObj.clear(); objSym.clear(); symNames.clear(); symW.clear(); symIdx.clear(); roGlobals.clear(); totalSteps=totalPaths=0; roMemo.clear(); pureMemo.clear(); pureVal.clear();
  if (auto *o=rq.getObject("stubs")) for (auto &kv: *o) { Stub st; if (auto *so=kv.second.getAsObject()) { st.event=so->getBoolean("event").value_or(true); st.frees=so->getBoolean("free").value_or(false); if (auto *r=so->get("ret")) { st.hasRet=true; st.ret=*r; } if (auto *w=so->getArray("writes")) for (auto &x: *w) st.writes.push_back(x); if (auto e=so->getString("end")) st.end=e->str(); if (auto *w=so->getArray("show")) for (auto &x: *w) st.show.push_back(x); if (auto *ag=so->getArray("args")) for (auto &x: *ag) st.args.push_back((int)*x.getAsInteger()); } cfg.stubs[kv.first.str()]=st; }
  cfg.externEvent=rq.getBoolean("extern_event").value_or(false); cfg.maxVisits=rq.getInteger("max_visits").value_or(0); cfg.maxSteps=rq.getInteger("max_steps").value_or(3000000); cfg.maxPaths=rq.getInteger("max_paths").value_or(200000);
  cfg.heapZero=rq.getBoolean("heap_zero").value_or(false); cfg.mark=rq.getBoolean("mark").value_or(false); cfg.lag=rq.getInteger("lag").value_or(4); cfg.window=rq.getInteger("window").value_or(0); cfg.memEnd=rq.getBoolean("mem_end").value_or(false); cfg.charBuf=rq.getBoolean("char_buf").value_or(false); cfg.widen=rq.getInteger("widen").value_or(0); cfg.rereadEnd=rq.getBoolean("reread_end").value_or(false); cfg.undefSym=rq.getBoolean("undef_sym").value_or(false); cfg.maxStates=rq.getInteger("max_states").value_or(3000000);
  if (auto *a=rq.getArray("outs")) for (auto &x: *a) cfg.outs.push_back(x);
  if (auto *a=rq.getArray("sym_globals")) for (auto &x: *a) cfg.symGlobals.insert(x.getAsString()->str());
  if (auto *a=rq.getArray("inline_files")) for (auto &x: *a) cfg.inlineFiles.insert(x.getAsString()->str());
  auto fn=rq.getString("fn"); if (!fn) fail("no fn"); F=M->getFunction(*fn); if (!F||F->isDeclaration()) fail("anchor vanished: function "+fn->str());
  if (auto *g=rq.getObject("globals")) for (auto &kv: *g) { auto *gv=M->getGlobalVariable(kv.first,true); if (!gv) { bool opt=false; if (auto *o=kv.second.getAsObject()) opt=o->get("optional")!=nullptr; (void)opt; continue; /* unreferenced by the code: setting it has no effect */ } int id=globalId(gv); unsigned sz=DL->getTypeStoreSize(gv->getValueType()); const json::Value *v=&kv.second; 
      if (auto *o=kv.second.getAsObject()) { if (auto *cl=o->getArray("cells")) { for (auto &x: *cl) { auto *co=x.getAsObject(); int z=*co->getInteger("size"); storeCell(s,id,*co->getInteger("off"),z,specVal(s,*co->get("val"),z*8)); } continue; } if (auto *q=o->get("value")) v=q; }
      storeCell(s,id,0,sz,specVal(s,*v,sz*8)); }
  if (auto *ex=rq.getArray("objs")) for (auto &x: *ex) specVal(s,x,64);
  if (auto *ex=rq.getArray("pokes")) for (auto &x: *ex) { auto *xo=x.getAsObject(); auto it=namedObj.find(xo->getString("obj")->str()); if (it==namedObj.end()) fail("poke: no object"); int z=*xo->getInteger("size"); storeCell(s,it->second,*xo->getInteger("off"),z,specVal(s,*xo->get("val"),z*8)); }
  unsigned i=0; if (auto *a=rq.getArray("args")) for (auto &x: *a) { unsigned w=32; if (i<F->arg_size()) { Type *t=F->getArg(i)->getType(); w= t->isPointerTy()?64: t->isIntegerTy()?t->getIntegerBitWidth():64; } args.push_back(specVal(s,x,w)); i++; }
  if (args.size()!=F->arg_size()) fail("argument count of "+fn->str()+" changed");
  seqCalls.clear(); if (auto *sq=rq.getArray("then")) for (auto &x: *sq) { auto *xo=x.getAsObject(); auto f2=xo->getString("fn"); const Function *G=M->getFunction(*f2); if (!G||G->isDeclaration()) fail("anchor vanished: function "+f2->str()); vector<Val> av; unsigned j=0; for (auto &y: *xo->getArray("args")) { unsigned w=32; if (j<G->arg_size()) { Type *t=G->getArg(j)->getType(); w= t->isPointerTy()?64: t->isIntegerTy()?t->getIntegerBitWidth():64; } av.push_back(specVal(s,y,w)); j++; } if (av.size()!=G->arg_size()) fail("argument count of "+f2->str()+" changed"); seqCalls.push_back({G,av}); }
}
static json::Object evalReq(const json::Object &rq) {
  automMode=false; State s; const Function *F; vector<Val> args; setup(s,rq,F,args); enter(s,F,args); vector<State> done,cut; runAll(s,done,cut);
  if (!cut.empty()) fail("unexpected input read"); json::Array res; int trunc=0;
  for (auto &d: done) { for (auto &fs: finishState(d)) { json::Object o; o["out"]=fs.second; json::Array ev; for (auto &e: fs.first.ev) { json::Array x; x.push_back(e.name); for (auto &a: e.args) x.push_back(json::isUTF8(a)?a:json::fixUTF8(a)); ev.push_back(std::move(x)); } o["events"]=std::move(ev); json::Object vs; for (auto &v: fs.first.vars) { json::Array m; for (int i: *v.second) m.push_back(varDom[v.first][i]); vs[varName[v.first]]=std::move(m); } o["vars"]=std::move(vs); json::Object cs; for (auto &c: fs.first.conds) cs[symNames[c.first]]=c.second; o["conds"]=std::move(cs); if (fs.first.truncated) trunc++; o["end"]=fs.first.endkind; res.push_back(std::move(o)); } }
  json::Object r; r["paths"]=std::move(res); r["steps"]=totalSteps; r["truncated"]=trunc; return r;
}
static json::Object automReq(const json::Object &rq) {
  automMode=true; State s; const Function *F; vector<Val> args; setup(s,rq,F,args); enter(s,F,args);
  if (tapeObj<0) fail("no input argument"); std::deque<State> states; size_t nstates=0; struct H { size_t operator()(const pair<uint64_t,uint64_t>&p) const { return p.first; } }; std::unordered_map<pair<uint64_t,uint64_t>,int,H> index;
  // each machine state: transitions per symbol: (target or -1 with terminal output, events)
  struct Tr { int to; int ev; int out; }; vector<string> strs; std::unordered_map<string,int> strIdx; auto intern=[&](const string &x){ auto it=strIdx.find(x); if (it!=strIdx.end()) return it->second; int k=strs.size(); strs.push_back(x); strIdx[x]=k; return k; };
  auto addCut=[&](State &c)->int { normalise(c); string ks=serial(c,false); string ks2="#"+ks; pair<uint64_t,uint64_t> k(xxh3_64bits(StringRef(ks)),xxh3_64bits(StringRef(ks2))); auto it=index.find(k); if (it!=index.end()) return it->second; int id=nstates++; index[k]=id; states.push_back(c); if ((int)nstates>cfg.maxStates) fail("state budget exhausted (no finite fixpoint within bound)"); return id; };
  vector<int> roots; string rootEv; { vector<State> done,cut; runAll(s,done,cut); if (!done.empty()) fail("terminates without reading input"); vector<State> cc; for (auto &c: cut) { auto q=concretise(c); for (auto &x: q) cc.push_back(std::move(x)); } if (cc.size()!=1) fail("several initial states"); rootEv=evStr(cc[0]); roots.push_back(addCut(cc[0])); }
  vector<char> alpha(256,1); if (auto al=rq.getString("alphabet")) { alpha.assign(256,0); alpha[0]=1; for (char c: *al) alpha[(unsigned char)c]=1; }
  vector<int> symc; int nsc=0; vector<vector<int>> symHist; std::deque<vector<Tr>> compact; vector<int> compactVer;
  int64_t ntr=0; bool nonemptyOnly=rq.getBoolean("nonempty").value_or(true);
  for (size_t q=0;q<nstates;q++) {
    arena.clear(); compact.emplace_back(); State cur=std::move(states.front()); states.pop_front();
    vector<Tr> rows(cfg.mark?512:256,Tr{-1,-1,-1});
    for (int mk=0; mk<(cfg.mark && !cur.markSeen?2:1); mk++) {
      State b=cur; Obj *t=wObj(b,tapeObj); Table tb; tb.var=0; tb.w=8; tb.obj=0; for (int i=0;i<256;i++) tb.t.push_back(i); auto mem=std::make_shared<vector<int>>(); for (int i=(q==0&&nonemptyOnly)?1:0;i<256;i++) if (alpha[i]) mem->push_back(i); b.vars[0]=mem; Val cv; cv.k=FN; cv.w=8; cv.v=newTable(std::move(tb)); t->cells[0]=Cell{1,cv};
      if (mk) { b.markSeen=true; b.markpos=0; if (b.startKnown&&b.startOff==0) {} }
      b.frontier=1; vector<State> done,cut; runAll(b,done,cut);
      vector<Tr> row(256,Tr{-1,-1,-1});
      auto put=[&](State &x,int to,int out,int e){ for (int c: *x.vars[0]) { Tr n{to,e,out}; Tr &it=row[c]; if (it.ev<0) { it=n; ntr++; continue; } if (it.to==n.to&&it.ev==n.ev&&it.out==n.out) continue;
          if (it.to!=n.to) { if (getenv("ABSINT_DEBUG")) errs()<<"nondet at state "<<q<<" sym "<<c<<" "<<it.to<<" "<<n.to<<" "<<strs[it.ev]<<" / "<<strs[n.ev]<<"\n"; fail("nondeterministic successor on input symbol"); }
          if (it.ev!=n.ev) { std::set<string> es{strs[it.ev],strs[n.ev]}; string mg; for (auto &z: es) mg+="{"+z+"}"; it.ev=intern(mg); } if (it.out!=n.out) { std::set<string> es{strs[it.out],strs[n.out]}; string mg; for (auto &z: es) mg+="{"+z+"}"; it.out=intern(mg); } } };
      for (auto &d: done) for (auto &fs: finishState(d)) put(fs.first,-1,intern(fs.second),intern(evStr(fs.first)));
      for (auto &c: cut) { int e=intern(evStr(c)); auto v=concretise(c); for (auto &x: v) { int to=addCut(x); put(x,to,-1,e); } }
      for (int c=0;c<256;c++) rows[c+256*mk]=row[c];
    }
    { vector<int> key; for (auto &r: rows) { key.push_back(r.to); key.push_back(r.ev); key.push_back(r.out); } // symbol partition refined on the fly; keep one entry per symbol class
      map<std::tuple<int,int,int,int>,int> m; int NS0=rows.size(); if (symc.empty()) symc.assign(NS0,0); vector<int> nx(NS0); for (int a=0;a<NS0;a++) { auto k=std::make_tuple(symc[a],rows[a].to,rows[a].ev,rows[a].out); auto it=m.find(k); if (it==m.end()) { int id=m.size(); m[k]=id; nx[a]=id; } else nx[a]=it->second; }
      if ((int)m.size()!=nsc) { symc=nx; nsc=m.size(); symHist.push_back(symc); }
      vector<char> got(nsc,0); auto &tq=compact[q]; compactVer.push_back(symHist.size()-1); tq.resize(nsc); for (int a=0;a<NS0;a++) if (!got[symc[a]]) { got[symc[a]]=1; tq[symc[a]]=rows[a]; } }
  }
  // emit: symbol classes, then minimise here (Moore partition refinement on (event,out,target-class))
  int n=nstates; // add explicit sinks for terminal outputs
  map<int,int> sink; vector<string> sinkOut; int NS=cfg.mark?512:256;
  for (auto &m: compact) for (auto &kv: m) if (kv.ev>=0 && kv.to<0 && !sink.count(kv.out)) { int k=sink.size(); sink[kv.out]=k; sinkOut.push_back(strs[kv.out]); }
  int N=n+sinkOut.size(); vector<int> rep(nsc,-1); for (int a=0;a<NS;a++) if (rep[symc[a]]<0) rep[symc[a]]=a;
  vector<vector<int>> to(NS), ev(NS); for (int a: rep) { to[a].assign(N,-1); ev[a].assign(N,-1); for (int q=0;q<n;q++) { const Tr &t=compact[q][symHist[compactVer[q]][a]]; if (t.ev<0) continue; to[a][q]= t.to>=0?t.to:n+sink[t.out]; ev[a][q]=t.ev; } for (int k=n;k<N;k++) { to[a][k]=k; ev[a][k]=-2; } }
  // partition refinement
  vector<int> cls(N); { for (int q=0;q<N;q++) cls[q]= q<n?0:1+(q-n); }
  int nc=1+sinkOut.size(); while (true) { std::unordered_map<string,int> m; vector<int> nx(N); for (int q=0;q<N;q++) { string k; int c=cls[q]; k.append((const char*)&c,4); for (int a: rep) { int t=to[a][q]<0?-1:cls[to[a][q]]; k.append((const char*)&t,4); k.append((const char*)&ev[a][q],4); } auto it=m.find(k); if (it==m.end()) { int id=m.size(); m[k]=id; nx[q]=id; } else nx[q]=it->second; } int c2=m.size(); cls=nx; if (c2==nc) break; nc=c2; }
  // canonical BFS numbering from root
  vector<int> num(nc,-1), order, repq(nc,-1); for (int q=0;q<N;q++) if (repq[cls[q]]<0) repq[cls[q]]=q; num[cls[0]]=0; order.push_back(cls[0]); for (size_t i=0;i<order.size();i++) for (int a: rep) { int t=to[a][repq[order[i]]]; if (t>=0&&num[cls[t]]<0) { num[cls[t]]=order.size(); order.push_back(cls[t]); } }
  json::Object r; json::Array sc; for (int a=0;a<NS;a++) sc.push_back(symc[a]); r["symclass"]=std::move(sc); json::Array st; vector<int> evmap(strs.size(),-1); json::Array evs; auto evid=[&](int e){ if (e<0) return -1; if (strs[e].empty()) return -1; if (evmap[e]<0) { evmap[e]=evs.size(); evs.push_back(strs[e]); } return evmap[e]; };
  for (int c: order) { int q=repq[c]; json::Object o; if (q>=n) { o["out"]=sinkOut[q-n]; } else { json::Array ts, es; for (int a: rep) { int t=to[a][q]; ts.push_back(t<0?-1:num[cls[t]]); es.push_back(evid(ev[a][q])); } o["t"]=std::move(ts); o["e"]=std::move(es); } st.push_back(std::move(o)); }
  r["states"]=std::move(st); r["events"]=std::move(evs); r["raw_states"]=n; r["raw_transitions"]=ntr; r["steps"]=totalSteps; r["root_events"]=rootEv; r["classes"]=(int)rep.size(); return r;
}
static json::Object infoReq(const json::Object &rq) {
  json::Object r; json::Object fs, gs; for (auto &f: *M) if (!f.isDeclaration()) { json::Object o; o["args"]=(int)f.arg_size(); o["file"]=fileOf(&f); o["internal"]=f.hasLocalLinkage(); int n=0; json::Array calls, gl; std::set<string> cs, gset; for (auto &bb: f) for (auto &in: bb) { n++; if (auto *cb=dyn_cast<CallBase>(&in)) if (auto *c=cb->getCalledFunction()) if (!c->isIntrinsic()) cs.insert(c->getName().str()); std::function<void(const Value*)> walk=[&](const Value *v){ if (auto *g=dyn_cast<GlobalVariable>(v)) gset.insert(g->getName().str()); else if (auto *fn=dyn_cast<Function>(v)) gset.insert(fn->getName().str()); else if (auto *ce=dyn_cast<ConstantExpr>(v)) for (auto &u: ce->operands()) walk(u.get()); }; for (auto &u: in.operands()) walk(u.get()); } for (auto &x: cs) calls.push_back(x); for (auto &x: gset) gl.push_back(x); o["insts"]=n; o["calls"]=std::move(calls); o["refs"]=std::move(gl); fs[f.getName()]=std::move(o); }
  for (auto &g: M->globals()) { json::Object o; o["size"]=(int64_t)(g.getValueType()->isSized()?DL->getTypeAllocSize(g.getValueType()):0); o["const"]=g.isConstant(); o["internal"]=g.hasLocalLinkage(); gs[g.getName()]=std::move(o); }
  r["functions"]=std::move(fs); r["globals"]=std::move(gs); return r;
}
// dump the initialiser of a global as nested values
static json::Value dumpConst(const Constant *c) {
  if (auto *ci=dyn_cast<ConstantInt>(c)) return ci->getSExtValue(); if (isa<ConstantPointerNull>(c)) return nullptr;
  Type *t=c->getType();
  if (t->isArrayTy()) { json::Array a; bool chars=t->getArrayElementType()->isIntegerTy(8); uint64_t n=t->getArrayNumElements(); (void)chars; for (uint64_t i=0;i<n;i++) a.push_back(dumpConst(c->getAggregateElement(i))); return a; }
  if (t->isStructTy()) { json::Array a; for (unsigned i=0;i<t->getStructNumElements();i++) a.push_back(dumpConst(c->getAggregateElement(i))); return a; }
  if (t->isPointerTy()) { Val v=constVal(c); if (v.k==FUNC) return json::Object{{"func",funcs[v.a]->getName()}}; if (v.k==PTR) { State s; string x; if (cstr(s,v.a,v.v,x)) return json::Object{{"str",json::isUTF8(x)?x:json::fixUTF8(x)},{"global",globals[v.a]->getName()}}; return json::Object{{"global",globals[v.a]->getName()},{"off",v.v}}; } if (v.k==INT) return v.v; }
  if (isa<UndefValue>(c)) return "undef"; return "?";
}
int main(int argc, char **argv) {
  SMDiagnostic Err; M=parseIRFile(argv[1],Err,Ctx); if (!M) { Err.print(argv[0],errs()); return 2; } if (argc>2) { auto L=parseIRFile(argv[2],Err,Ctx); if (!L) { Err.print(argv[0],errs()); return 2; } if (Linker::linkModules(*M,std::move(L),Linker::Flags::LinkOnlyNeeded)) return 2; } DL=&M->getDataLayout(); for (auto &g: M->globals()) globalId(&g);
  string line; while (std::getline(std::cin,line)) { if (line.empty()) continue; auto j=json::parse(line); json::Object out; if (!j) { consumeError(j.takeError()); out["error"]="bad request"; } else { auto *rq=j->getAsObject(); try { auto mode=rq->getString("mode").value_or("eval"); if (mode=="eval") out=evalReq(*rq); else if (mode=="automaton") out=automReq(*rq); else if (mode=="info") out=infoReq(*rq); else if (mode=="global") { auto n=*rq->getString("name"); auto *g=M->getGlobalVariable(n,true); if (!g||!g->hasInitializer()) fail("anchor vanished: global "+n.str()); cfg=Cfg(); out["value"]=dumpConst(g->getInitializer()); } else fail("mode"); } catch (Fail &f) { out=json::Object(); out["error"]=f.msg; } catch (NeedSplit&) { out=json::Object(); out["error"]="internal split"; } catch (MemErr &e) { out=json::Object(); out["error"]=e.what; } }
    outs()<<json::Value(std::move(out))<<"\n"; outs().flush(); }
  return 0;
}
