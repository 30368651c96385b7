// Hash-consed bit-vector expression DAG with an eager simplifier.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <algorithm>
#include <memory>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { OConst, OSym, OAdd, OSub, OMul, OUDiv, OSDiv, OURem, OSRem, OAnd, OOr, OXor,
  OShl, OLShr, OAShr, OEq, OUlt, OUle, OSlt, OSle, OIte, OZExt, OSExt, OExtract, OConcat, OAgg };

struct Expr {
  Op op; u8 w; u8 lo; u32 id;
  u64 v;                      // const value / symbol index
  const Expr *a=nullptr,*b=nullptr,*c=nullptr;
  u64 umin, umax;
  const Expr* const* kids=nullptr; u32 nkids=0; // OAgg
  bool isC() const { return op==OConst; }
};
typedef const Expr* E;

static inline u64 maskw(unsigned w){ return w>=64?~0ull:((1ull<<w)-1); }
static inline i64 sx(u64 v,unsigned w){ if(w>=64) return (i64)v; u64 s=1ull<<(w-1); v&=maskw(w); return (i64)((v^s)-s); }

struct Arena {
  std::vector<char*> blocks; size_t used=0, cap=0; size_t total=0;
  void* alloc(size_t n){ n=(n+15)&~size_t(15); if(used+n>cap){ cap=std::max<size_t>(n,1<<20); blocks.push_back((char*)malloc(cap)); used=0; } void*p=blocks.back()+used; used+=n; total+=n; return p; }
};

struct SymInfo { std::string name; unsigned w; };

struct ExprPool {
  Arena ar; u32 nid=0; std::vector<E> byId;
  std::vector<SymInfo> syms;
  struct KeyHash { size_t operator()(E e) const {
    u64 h=e->op*0x9E3779B97F4A7C15ull + e->w*1315423911u + e->lo*2654435761u + e->v*0xff51afd7ed558ccdull;
    auto mix=[&](const void*p){ h^=(u64)p+0x9e3779b97f4a7c15ull+(h<<6)+(h>>2); };
    mix(e->a); mix(e->b); mix(e->c); for(u32 i=0;i<e->nkids;i++) mix(e->kids[i]);
    return h; } };
  struct KeyEq { bool operator()(E x,E y) const {
    if(!(x->op==y->op&&x->w==y->w&&x->lo==y->lo&&x->v==y->v&&x->a==y->a&&x->b==y->b&&x->c==y->c&&x->nkids==y->nkids)) return false;
    for(u32 i=0;i<x->nkids;i++) if(x->kids[i]!=y->kids[i]) return false; return true; } };
  std::unordered_set<E,KeyHash,KeyEq> tab;
  E cache8[256]; E T,F;
  ExprPool(){ tab.reserve(1<<16); for(int i=0;i<256;i++) cache8[i]=mkRaw(OConst,8,0,i,0,0,0); F=mkRaw(OConst,1,0,0,0,0,0); T=mkRaw(OConst,1,0,1,0,0,0); }

  void range(Expr&e){
    u64 m=maskw(e.w); e.umin=0; e.umax=m; E a=e.a,b=e.b,c=e.c;
    switch(e.op){
      case OConst: e.umin=e.umax=e.v; break;
      case OZExt: e.umin=a->umin; e.umax=a->umax; break;
      case OSExt: if(a->umax < (1ull<<(a->w-1))){ e.umin=a->umin; e.umax=a->umax; } break;
      case OAdd: { u64 lo=a->umin+b->umin, hi=a->umax+b->umax; bool ovlo = (lo&m)!=lo || lo<a->umin, ovhi=(hi&m)!=hi || hi<a->umax;
        if(!ovhi){ e.umin=lo; e.umax=hi; }
        else if(ovlo && ovhi && e.w<64){ e.umin=lo&m; e.umax=hi&m; if(e.umin>e.umax){e.umin=0;e.umax=m;} }
        else if(ovlo && ovhi){ e.umin=lo; e.umax=hi; if(lo>hi){e.umin=0;e.umax=m;} }
        break; }
      case OSub: if(a->umin>=b->umax){ e.umin=a->umin-b->umax; e.umax=a->umax-b->umin; } break;
      case OMul: { unsigned __int128 hi=(unsigned __int128)a->umax*b->umax; if(hi<=m){ e.umin=a->umin*b->umin; e.umax=(u64)hi; } break; }
      case OAnd: e.umax=std::min(a->umax,b->umax); break;
      case OOr: { e.umin=std::max(a->umin,b->umin); u64 x=a->umax|b->umax; unsigned n=x?64-__builtin_clzll(x):0; e.umax=std::min(m,maskw(n?n:1)); if(!n) e.umax=0; break; }
      case OXor: { u64 x=a->umax|b->umax; unsigned n=x?64-__builtin_clzll(x):0; e.umax=n?std::min(m,maskw(n)):0; break; }
      case OShl: if(b->isC()&&b->v<e.w){ unsigned __int128 hi=(unsigned __int128)a->umax<<b->v; if(hi<=m){ e.umin=a->umin<<b->v; e.umax=(u64)hi; } } break;
      case OLShr: if(b->isC()&&b->v<e.w){ e.umin=a->umin>>b->v; e.umax=a->umax>>b->v; } else e.umax=a->umax; break;
      case OUDiv: if(b->umin>0){ e.umin=a->umin/b->umax; e.umax=a->umax/b->umin; } break;
      case OURem: if(b->umin>0){ e.umax=std::min(a->umax,b->umax-1); } break;
      case OIte: e.umin=std::min(b->umin,c->umin); e.umax=std::max(b->umax,c->umax); break;
      case OExtract: if(e.lo==0 && a->umax<=m){ e.umin=a->umin; e.umax=a->umax; } else { u64 hi=a->umax>>e.lo; if(hi<=m){ e.umax=hi; e.umin=a->umin>>e.lo; } } break;
      case OConcat: { e.umin=(a->umin<<b->w)|0; e.umax=(a->umax<<b->w)|b->umax; e.umin|= (a->umin==a->umax)? b->umin:0; break; }
      default: break;
    }
  }
  E mkRaw(Op op,unsigned w,unsigned lo,u64 v,E a,E b,E c){
    Expr k; k.op=op;k.w=w;k.lo=lo;k.v=v;k.a=a;k.b=b;k.c=c;k.id=0;
    auto it=tab.find(&k); if(it!=tab.end()) return *it;
    Expr*n=(Expr*)ar.alloc(sizeof(Expr)); *n=k; n->id=nid++; range(*n); tab.insert(n); byId.push_back(n); return n; }
  E agg(const std::vector<E>&ks){
    Expr k; k.op=OAgg;k.w=0;k.lo=0;k.v=0;k.id=0;k.kids=ks.data();k.nkids=ks.size(); k.umin=k.umax=0;
    auto it=tab.find(&k); if(it!=tab.end()) return *it;
    Expr*n=(Expr*)ar.alloc(sizeof(Expr)); *n=k; E*kk=(E*)ar.alloc(sizeof(E)*(ks.size()+1)); for(size_t i=0;i<ks.size();i++) kk[i]=ks[i];
    n->kids=kk; n->id=nid++; n->umin=0;n->umax=0; tab.insert(n); byId.push_back(n); return n; }
  E C(u64 v,unsigned w){ v&=maskw(w); if(w==8) return cache8[v]; if(w==1) return v?T:F; return mkRaw(OConst,w,0,v,0,0,0); }
  E sym(const std::string&name,unsigned w){ syms.push_back({name,w}); return mkRaw(OSym,w,0,syms.size()-1,0,0,0); }

  E Not(E x){ return Eq(x,F); }
  E Add(E a,E b){ unsigned w=a->w; if(a->isC()&&b->isC()) return C(a->v+b->v,w); if(a->isC()) std::swap(a,b);
    if(w==1) return Xor(a,b);
    if(b->isC()){ if(b->v==0) return a; if(a->op==OAdd&&a->b->isC()) return Add(a->a,C(a->b->v+b->v,w)); 
      if(a->op==OIte && a->b->isC()&&a->c->isC()) return Ite(a->a,C(a->b->v+b->v,w),C(a->c->v+b->v,w)); }
    else { if(a->op==OAdd&&a->b->isC()) return Add(Add(a->a,b),a->b); if(b->op==OAdd&&b->b->isC()) return Add(Add(a,b->a),b->b);
      if(a->op==OSub&&a->b==b) return a->a; if(b->op==OSub&&b->b==a) return b->a;
      if(a->id>b->id) std::swap(a,b); }
    return mkRaw(OAdd,w,0,0,a,b,0); }
  E Sub(E a,E b){ unsigned w=a->w; if(a==b) return C(0,w); if(b->isC()) return Add(a,C(-b->v,w)); if(w==1) return Xor(a,b);
    if(a->op==OAdd){ if(a->a==b) return a->b; if(a->b==b) return a->a; if(a->b->isC()) return Add(Sub(a->a,b),a->b); }
    if(b->op==OAdd){ if(b->a==a) return Neg(b->b); if(b->b==a) return Neg(b->a); if(b->b->isC()) return Add(Sub(a,b->a),C(-b->b->v,w)); }
    return mkRaw(OSub,w,0,0,a,b,0); }
  E Neg(E a){ if(a->isC()) return C(-a->v,a->w); return mkRaw(OSub,a->w,0,0,C(0,a->w),a,0); }
  E Mul(E a,E b){ unsigned w=a->w; if(a->isC()&&b->isC()) return C(a->v*b->v,w); if(a->isC()) std::swap(a,b);
    if(w==1) return And(a,b);
    if(b->isC()){ if(b->v==0) return b; if(b->v==1) return a; if((b->v&(b->v-1))==0) return Shl(a,C(__builtin_ctzll(b->v),w)); }
    else if(a->id>b->id) std::swap(a,b);
    return mkRaw(OMul,w,0,0,a,b,0); }
  E UDiv(E a,E b){ if(a->isC()&&b->isC()&&b->v) return C(a->v/b->v,a->w); if(b->isC()){ if(b->v==1) return a; if(b->v&&(b->v&(b->v-1))==0) return LShr(a,C(__builtin_ctzll(b->v),a->w)); }
    if(a->umax<b->umin) return C(0,a->w); return mkRaw(OUDiv,a->w,0,0,a,b,0); }
  E URem(E a,E b){ if(a->isC()&&b->isC()&&b->v) return C(a->v%b->v,a->w); if(b->isC()){ if(b->v==1) return C(0,a->w); if(b->v&&(b->v&(b->v-1))==0) return And(a,C(b->v-1,a->w)); }
    if(a->umax<b->umin) return a; return mkRaw(OURem,a->w,0,0,a,b,0); }
  E SDiv(E a,E b){ unsigned w=a->w; if(a->isC()&&b->isC()&&b->v){ i64 x=sx(a->v,w),y=sx(b->v,w); if(y==-1) return C(-(u64)x,w); return C((u64)(x/y),w); }
    u64 s=1ull<<(w-1); if(a->umax<s&&b->umax<s) return UDiv(a,b); return mkRaw(OSDiv,w,0,0,a,b,0); }
  E SRem(E a,E b){ unsigned w=a->w; if(a->isC()&&b->isC()&&b->v){ i64 x=sx(a->v,w),y=sx(b->v,w); if(y==-1) return C(0,w); return C((u64)(x%y),w); }
    u64 s=1ull<<(w-1); if(a->umax<s&&b->umax<s) return URem(a,b); return mkRaw(OSRem,w,0,0,a,b,0); }
  bool isNotOf(E x,E y){ return x->op==OEq && x->a==y && x->b==F; }
  E And(E a,E b){ unsigned w=a->w; if(a->isC()&&b->isC()) return C(a->v&b->v,w); if(a->isC()) std::swap(a,b); if(a==b) return a;
    if(b->isC()){ if(b->v==0) return b; if(b->v==maskw(w)) return a; if((b->v&(b->v+1))==0 && a->umax<=b->v) return a;
      if(a->op==OAnd&&a->b->isC()) return And(a->a,C(a->b->v&b->v,w));
      if(a->op==OIte && a->b->isC()&&a->c->isC()) return Ite(a->a,And(a->b,b),And(a->c,b));
      if((b->v&(b->v+1))==0){ unsigned n=64-__builtin_clzll(b->v); if(n<w) return ZExt(Extract(a,0,n),w); }
      if(a->op==OZExt){ u64 m=maskw(a->a->w); return ZExt(And(a->a,C(b->v&m,a->a->w)),w); } }
    else { if(w==1&&(isNotOf(a,b)||isNotOf(b,a))) return F; if(a->id>b->id) std::swap(a,b); }
    return mkRaw(OAnd,w,0,0,a,b,0); }
  E Or(E a,E b){ unsigned w=a->w; if(a->isC()&&b->isC()) return C(a->v|b->v,w); if(a->isC()) std::swap(a,b); if(a==b) return a;
    if(b->isC()){ if(b->v==0) return a; if(b->v==maskw(w)) return b;
      if(a->op==OIte && a->b->isC()&&a->c->isC()) return Ite(a->a,Or(a->b,b),Or(a->c,b)); }
    else { if(w==1&&(isNotOf(a,b)||isNotOf(b,a))) return T; if(a->id>b->id) std::swap(a,b); }
    return mkRaw(OOr,w,0,0,a,b,0); }
  E Xor(E a,E b){ unsigned w=a->w; if(a->isC()&&b->isC()) return C(a->v^b->v,w); if(a->isC()) std::swap(a,b); if(a==b) return C(0,w);
    if(b->isC()){ if(b->v==0) return a; if(w==1) return Not(a); if(a->op==OXor&&a->b->isC()) return Xor(a->a,C(a->b->v^b->v,w)); 
      if(a->op==OIte && a->b->isC()&&a->c->isC()) return Ite(a->a,Xor(a->b,b),Xor(a->c,b)); }
    else if(a->id>b->id) std::swap(a,b);
    return mkRaw(OXor,w,0,0,a,b,0); }
  E Shl(E a,E b){ unsigned w=a->w; if(b->isC()){ if(b->v==0) return a; if(b->v>=w) return C(0,w); if(a->isC()) return C(a->v<<b->v,w);
      if(a->op==OShl&&a->b->isC()) return Shl(a->a,C(a->b->v+b->v,w)); }
    return mkRaw(OShl,w,0,0,a,b,0); }
  E LShr(E a,E b){ unsigned w=a->w; if(b->isC()){ if(b->v==0) return a; if(b->v>=w) return C(0,w); if(a->isC()) return C(a->v>>b->v,w);
      if((a->umax>>b->v)==0) return C(0,w);
      if(a->op==OLShr&&a->b->isC()) return LShr(a->a,C(a->b->v+b->v,w));
      return ZExt(Extract(a,b->v,w-b->v),w); }
    return mkRaw(OLShr,w,0,0,a,b,0); }
  E AShr(E a,E b){ unsigned w=a->w; if(b->isC()){ if(b->v==0) return a; u64 s=b->v>=w?w-1:b->v; if(a->isC()) return C((u64)(sx(a->v,w)>>s),w);
      if(a->umax < (1ull<<(w-1))) return LShr(a,b); 
      return SExt(Extract(a,s,w-s),w); }
    return mkRaw(OAShr,w,0,0,a,b,0); }
  E ZExt(E a,unsigned w){ if(a->w==w) return a; if(a->isC()) return C(a->v,w); if(a->op==OZExt) return ZExt(a->a,w);
    if(a->op==OIte&&a->b->isC()&&a->c->isC()) return Ite(a->a,C(a->b->v,w),C(a->c->v,w));
    return mkRaw(OZExt,w,0,0,a,0,0); }
  E SExt(E a,unsigned w){ if(a->w==w) return a; if(a->isC()) return C((u64)sx(a->v,a->w),w); if(a->op==OSExt) return SExt(a->a,w);
    if(a->op==OZExt) return ZExt(a->a,w); if(a->umax < (1ull<<(a->w-1))) return ZExt(a,w);
    if(a->op==OIte&&a->b->isC()&&a->c->isC()) return Ite(a->a,SExt(a->b,w),SExt(a->c,w));
    return mkRaw(OSExt,w,0,0,a,0,0); }
  E Extract(E a,unsigned lo,unsigned w){ if(lo==0&&w==a->w) return a; if(a->isC()) return C(a->v>>lo,w);
    if(a->op==OExtract) return Extract(a->a,a->lo+lo,w);
    if(a->op==OZExt){ if(lo>=a->a->w) return C(0,w); if(lo+w<=a->a->w) return Extract(a->a,lo,w); return ZExt(Extract(a->a,lo,a->a->w-lo),w); }
    if(a->op==OSExt){ if(lo+w<=a->a->w) return Extract(a->a,lo,w); if(lo<a->a->w) return SExt(Extract(a->a,lo,a->a->w-lo),w); }
    if(a->op==OConcat){ unsigned lw=a->b->w; if(lo+w<=lw) return Extract(a->b,lo,w); if(lo>=lw) return Extract(a->a,lo-lw,w);
      return Concat(Extract(a->a,0,lo+w-lw),Extract(a->b,lo,lw-lo)); }
    if(a->op==OIte&&(a->b->isC()||a->c->isC())) return Ite(a->a,Extract(a->b,lo,w),Extract(a->c,lo,w));
    if(a->op==OShl&&a->b->isC()){ u64 k=a->b->v; if(lo>=k) return Extract(a->a,lo-k,w); if(lo+w<=k) return C(0,w); }
    if(a->op==OAnd||a->op==OOr||a->op==OXor){ E x=Extract(a->a,lo,w),y=Extract(a->b,lo,w); return a->op==OAnd?And(x,y):a->op==OOr?Or(x,y):Xor(x,y); }
    if(lo==0&&(a->op==OAdd||a->op==OSub||a->op==OMul)&&w>=8){ E x=Extract(a->a,0,w),y=Extract(a->b,0,w); return a->op==OAdd?Add(x,y):a->op==OSub?Sub(x,y):Mul(x,y); }
    return mkRaw(OExtract,w,lo,0,a,0,0); }
  E Concat(E hi,E lo){ unsigned w=hi->w+lo->w; if(w>64){ fprintf(stderr,"concat too wide\n"); abort(); }
    if(hi->isC()&&lo->isC()) return C((hi->v<<lo->w)|lo->v,w);
    if(hi->isC()&&hi->v==0) return ZExt(lo,w);
    if(hi->op==OExtract&&lo->op==OExtract&&hi->a==lo->a&&hi->lo==lo->lo+lo->w) return Extract(hi->a,lo->lo,w);
    if(hi->op==OExtract&&hi->a==lo&&hi->lo==lo->w) return Extract(lo,0,w);
    if(lo->op==OConcat){ E m=lo->a; if(hi->op==OExtract&&m->op==OExtract&&hi->a==m->a&&hi->lo==m->lo+m->w) return Concat(Extract(hi->a,m->lo,hi->w+m->w),lo->b); }
    if(hi->op==OIte&&lo->op==OIte&&hi->a==lo->a) return Ite(hi->a,Concat(hi->b,lo->b),Concat(hi->c,lo->c));
    if(hi->op==OIte&&lo->isC()&&hi->b->isC()&&hi->c->isC()) return Ite(hi->a,Concat(hi->b,lo),Concat(hi->c,lo));
    if(lo->op==OIte&&hi->isC()&&lo->b->isC()&&lo->c->isC()) return Ite(lo->a,Concat(hi,lo->b),Concat(hi,lo->c));
    return mkRaw(OConcat,w,0,0,hi,lo,0); }
  E Eq(E a,E b){ unsigned w=a->w; if(a==b) return T; if(a->isC()&&b->isC()) return C(a->v==b->v,1); if(a->isC()) std::swap(a,b);
    if(w==0) return aggEq(a,b);
    if(a->umax<b->umin||b->umax<a->umin) return F;
    if(b->isC()){
      if(w==1){ if(b->v==1) return a; if(a->op==OEq&&a->b==F) return a->a; 
        if(a->op==OUlt) return Ule(a->b,a->a); if(a->op==OUle) return Ult(a->b,a->a); if(a->op==OSlt) return Sle(a->b,a->a); if(a->op==OSle) return Slt(a->b,a->a); }
      switch(a->op){
        case OZExt: if(b->v>maskw(a->a->w)) return F; return Eq(a->a,C(b->v,a->a->w));
        case OSExt: { u64 t=b->v&maskw(a->a->w); if((u64)(sx(t,a->a->w)&maskw(w))!=b->v) return F; return Eq(a->a,C(t,a->a->w)); }
        case OAdd: if(a->b->isC()) return Eq(a->a,C(b->v-a->b->v,w)); break;
        case OSub: if(a->a->isC()) return Eq(a->b,C(a->a->v-b->v,w)); if(b->v==0) return Eq(a->a,a->b); break;
        case OXor: if(a->b->isC()) return Eq(a->a,C(b->v^a->b->v,w)); if(b->v==0) return Eq(a->a,a->b); break;
        case OIte: { E x=a->b->isC()?C(a->b->v==b->v,1):nullptr, y=a->c->isC()?C(a->c->v==b->v,1):nullptr;
          if(x&&y){ if(x==y) return x; return x==T?a->a:Not(a->a); }
          if(x&&x==F) return And(Not(a->a),Eq(a->c,b)); if(x&&x==T) return Or(a->a,Eq(a->c,b));
          if(y&&y==F) return And(a->a,Eq(a->b,b)); if(y&&y==T) return Or(Not(a->a),Eq(a->b,b));
          break; }
        case OConcat: return And(Eq(a->a,C(b->v>>a->b->w,a->a->w)),Eq(a->b,C(b->v,a->b->w)));
        case OShl: if(a->b->isC()){ u64 k=a->b->v; if(b->v&maskw(k)) return F; return Eq(Extract(a->a,0,w-k),C(b->v>>k,w-k)); } break;
        default: break; }
    } else {
      if(a->op==OZExt&&b->op==OZExt){ if(a->a->w==b->a->w) return Eq(a->a,b->a); if(a->a->w<b->a->w) return Eq(ZExt(a->a,b->a->w),b->a); return Eq(a->a,ZExt(b->a,a->a->w)); }
      if(a->op==OSExt&&b->op==OSExt&&a->a->w==b->a->w) return Eq(a->a,b->a);
      if(a->op==OConcat&&b->op==OConcat&&a->a->w==b->a->w) return And(Eq(a->a,b->a),Eq(a->b,b->b));
      if(a->op==OAdd&&b->op==OAdd&&a->b==b->b) return Eq(a->a,b->a);
      if(a->op==OAdd&&a->b->isC()&&b->op==OAdd&&b->b->isC()) return Eq(a->a,Add(b->a,C(b->b->v-a->b->v,w)));
      if(w==1){ if(isNotOf(a,b)||isNotOf(b,a)) return F; }
      if(a->id>b->id) std::swap(a,b);
    }
    return mkRaw(OEq,1,0,0,a,b,0); }
  E aggEq(E a,E b){ E r=T; for(u32 i=0;i<a->nkids;i++) r=And(r,Eq(a->kids[i],b->kids[i])); return r; }
  E Ult(E a,E b){ if(a==b) return F; if(a->umax<b->umin) return T; if(a->umin>=b->umax) return F;
    if(a->op==OZExt&&b->op==OZExt&&a->a->w==b->a->w) return Ult(a->a,b->a);
    if(a->op==OZExt&&b->isC()) { return Ult(a->a,C(b->v,a->a->w)); } // b->v<=umax here
    if(b->op==OZExt&&a->isC()) { return Ult(C(a->v,b->a->w),b->a); }
    if(b->isC()&&b->v==1) return Eq(a,C(0,a->w)); if(a->isC()&&a->v==0) return Not(Eq(b,a));
    if(a->op==OIte&&b->isC()&&(a->b->isC()||a->c->isC())) return Ite(a->a,Ult(a->b,b),Ult(a->c,b));
    if(b->op==OIte&&a->isC()&&(b->b->isC()||b->c->isC())) return Ite(b->a,Ult(a,b->b),Ult(a,b->c));
    return mkRaw(OUlt,1,0,0,a,b,0); }
  E Ule(E a,E b){ if(a==b) return T; if(a->umax<=b->umin) return T; if(a->umin>b->umax) return F;
    if(b->isC()) return Ult(a,C(b->v+1,a->w)); // b->v < max since a->umax>b->umin
    if(a->isC()) return Ult(C(a->v-1,a->w),b);  // a->v>0
    if(a->op==OZExt&&b->op==OZExt&&a->a->w==b->a->w) return Ule(a->a,b->a);
    return mkRaw(OUle,1,0,0,a,b,0); }
  bool nonneg(E a){ return a->umax < (1ull<<(a->w-1)); }
  bool neg(E a){ return a->umin >= (1ull<<(a->w-1)); }
  E Slt(E a,E b){ if(a==b) return F; if(a->isC()&&b->isC()) return C(sx(a->v,a->w)<sx(b->v,b->w),1);
    if((nonneg(a)&&nonneg(b))||(neg(a)&&neg(b))) return Ult(a,b); if(neg(a)&&nonneg(b)) return T; if(nonneg(a)&&neg(b)) return F;
    if(a->op==OSExt&&b->op==OSExt&&a->a->w==b->a->w) return Slt(a->a,b->a);
    if(a->op==OIte&&b->isC()&&(a->b->isC()||a->c->isC())) return Ite(a->a,Slt(a->b,b),Slt(a->c,b));
    if(b->op==OIte&&a->isC()&&(b->b->isC()||b->c->isC())) return Ite(b->a,Slt(a,b->b),Slt(a,b->c));
    return mkRaw(OSlt,1,0,0,a,b,0); }
  E Sle(E a,E b){ if(a==b) return T; if(a->isC()&&b->isC()) return C(sx(a->v,a->w)<=sx(b->v,b->w),1);
    if((nonneg(a)&&nonneg(b))||(neg(a)&&neg(b))) return Ule(a,b); if(neg(a)&&nonneg(b)) return T; if(nonneg(a)&&neg(b)) return F;
    if(a->op==OIte&&b->isC()&&(a->b->isC()||a->c->isC())) return Ite(a->a,Sle(a->b,b),Sle(a->c,b));
    if(b->op==OIte&&a->isC()&&(b->b->isC()||b->c->isC())) return Ite(b->a,Sle(a,b->b),Sle(a,b->c));
    return mkRaw(OSle,1,0,0,a,b,0); }
  E Ite(E c,E a,E b){ if(c->isC()) return c->v?a:b; if(a==b) return a;
    if(a->op==OAgg){ std::vector<E> k(a->nkids); for(u32 i=0;i<a->nkids;i++) k[i]=Ite(c,a->kids[i],b->kids[i]); return agg(k); }
    if(c->op==OEq&&c->b==F) return Ite(c->a,b,a);
    if(a->w==1){ if(a==T) return Or(c,b); if(a==F) return And(Not(c),b); if(b==F) return And(c,a); if(b==T) return Or(Not(c),a); }
    if(a->op==OIte&&a->a==c) a=a->b; if(b->op==OIte&&b->a==c) b=b->c; if(a==b) return a;
    if(a->op==OZExt&&b->op==OZExt&&a->a->w==b->a->w) return ZExt(Ite(c,a->a,b->a),a->w);
    return mkRaw(OIte,a->w,0,0,c,a,b); }

  // ---- evaluation under an assignment (symbol index -> value; missing = 0)
  std::vector<u64> evVal; std::vector<u32> evEp; u32 ep=0;
  u64 evalRec(E e,const std::vector<u64>&m){
    if(e->op==OConst) return e->v;
    if(e->op==OSym) return (e->v<m.size()?m[e->v]:0)&maskw(e->w);
    if(evEp[e->id]==ep) return evVal[e->id];
    unsigned w=e->w; u64 M=maskw(w), r=0;
    if(e->op==OIte){ r=evalRec(e->a,m)?evalRec(e->b,m):evalRec(e->c,m); }
    else { u64 x=evalRec(e->a,m), y=e->b?evalRec(e->b,m):0; unsigned aw=e->a->w;
      switch(e->op){
        case OAdd:r=x+y;break; case OSub:r=x-y;break; case OMul:r=x*y;break;
        case OUDiv:r=y?x/y:M;break; case OURem:r=y?x%y:x;break;
        case OSDiv:{ i64 p=sx(x,w),q=sx(y,w); r= q==0?(p<0?1:M): q==-1?-(u64)p:(u64)(p/q); break; }
        case OSRem:{ i64 p=sx(x,w),q=sx(y,w); r= q==0?(u64)p: q==-1?0:(u64)(p%q); break; }
        case OAnd:r=x&y;break; case OOr:r=x|y;break; case OXor:r=x^y;break;
        case OShl:r=y>=w?0:x<<y;break; case OLShr:r=y>=w?0:x>>y;break; case OAShr:r=(u64)(sx(x,w)>>(y>=w?w-1:y));break;
        case OEq:r=x==y;break; case OUlt:r=x<y;break; case OUle:r=x<=y;break; case OSlt:r=sx(x,aw)<sx(y,aw);break; case OSle:r=sx(x,aw)<=sx(y,aw);break;
        case OZExt:r=x;break; case OSExt:r=(u64)sx(x,aw);break; case OExtract:r=x>>e->lo;break; case OConcat:r=(x<<e->b->w)|y;break;
        default: fprintf(stderr,"eval op %d\n",e->op); abort(); } }
    r&=M; evEp[e->id]=ep; evVal[e->id]=r; return r; }
  u64 eval(E e,const std::vector<u64>&m){ if(e->isC()) return e->v; if(evVal.size()<nid){ evVal.resize(nid*2+1024); evEp.resize(nid*2+1024,0); } ++ep; return evalRec(e,m); }

  // ---- symbol support (memoised)
  std::vector<const std::vector<u32>*> supp;
  const std::vector<u32>* support(E e){
    static const std::vector<u32> empty;
    if(e->isC()) return &empty;
    if(supp.size()<nid) supp.resize(nid*2+1024,nullptr);
    if(supp[e->id]) return supp[e->id];
    std::vector<u32> r;
    if(e->op==OSym) r.push_back(e->v);
    else { E ks[3]={e->a,e->b,e->c}; const std::vector<u32>*first=nullptr; bool own=false;
      for(E k:ks){ if(!k||k->isC()) continue; auto s=support(k); if(!first) first=s; else if(s!=first&&!(s->empty())){ if(!own){ r=*first; own=true; } std::vector<u32> t; std::set_union(r.begin(),r.end(),s->begin(),s->end(),std::back_inserter(t)); r.swap(t); } }
      if(!own){ supp[e->id]= first?first:&empty; return supp[e->id]; } 
      if(r.size()==first->size()){ supp[e->id]=first; return first; } }
    supp[e->id]=new std::vector<u32>(std::move(r)); return supp[e->id]; }

  std::string str(E e,int d=6){ char b[64]; if(e->isC()){ snprintf(b,64,"%llu:%d",(unsigned long long)e->v,e->w); return b; } if(e->op==OSym) return syms[e->v].name; if(d==0) return "..";
    static const char*n[]={"c","s","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","=","ult","ule","slt","sle","ite","zext","sext","extract","concat","agg"};
    std::string r=std::string("(")+n[e->op]; if(e->op==OExtract){ snprintf(b,64,"[%d+%d]",e->lo,e->w); r+=b; } if(e->op==OZExt||e->op==OSExt){ snprintf(b,64,"%d",e->w); r+=b; }
    if(e->a) r+=" "+str(e->a,d-1); if(e->b) r+=" "+str(e->b,d-1); if(e->c) r+=" "+str(e->c,d-1); return r+")"; }
};
