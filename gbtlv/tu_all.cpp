#include "opaque.hpp"
// Instantiates the real templates of /repo for every operand form, mask kind and
// accumulator kind.  GV_SEL selects groups so that a check loads only what it needs.
#ifndef GV_SEL
#define GV_SEL 0xffffff
#endif
#define G_MXM 1
#define G_EWADD 2
#define G_EWMULT 4
#define G_KRON 8
#define G_APPLY 16
#define G_TRANSPOSE 32
#define G_EXTRACT 64
#define G_ASSIGN 128
#define G_MXV 256
#define G_REDUCE 512
#define G_MISC 1024
#define G_CONT 2048
#define ON(g) ((GV_SEL) & (g))
using namespace grb; using namespace gv;
using MA=Matrix<SA>; using MB=Matrix<SB>; using MC=Matrix<SC>; using MM=Matrix<SM>;
using VA=Vector<SA>; using VB=Vector<SB>; using VC=Vector<SC>; using VM=Vector<SM>;
template<class M,class Acc> void all_ab(MC&C,M const&m,Acc acc,MA const&A,MB const&B,OutputControlEnum o){
#if ON(G_MXM)
  mxm(C,m,acc,SR(),A,B,o); mxm(C,m,acc,SR(),A,transpose(B),o); mxm(C,m,acc,SR(),transpose(A),B,o); mxm(C,m,acc,SR(),transpose(A),transpose(B),o);
#endif
#if ON(G_EWADD)
  eWiseAdd(C,m,acc,BOP(),A,B,o); eWiseAdd(C,m,acc,BOP(),A,transpose(B),o); eWiseAdd(C,m,acc,BOP(),transpose(A),B,o); eWiseAdd(C,m,acc,BOP(),transpose(A),transpose(B),o);
#endif
#if ON(G_EWMULT)
  eWiseMult(C,m,acc,BOP(),A,B,o); eWiseMult(C,m,acc,BOP(),A,transpose(B),o); eWiseMult(C,m,acc,BOP(),transpose(A),B,o); eWiseMult(C,m,acc,BOP(),transpose(A),transpose(B),o);
#endif
#if ON(G_KRON)
  kronecker(C,m,acc,BOP(),A,B,o); kronecker(C,m,acc,BOP(),A,transpose(B),o); kronecker(C,m,acc,BOP(),transpose(A),B,o); kronecker(C,m,acc,BOP(),transpose(A),transpose(B),o);
#endif
#if ON(G_APPLY)
  apply(C,m,acc,UOP(),A,o); apply(C,m,acc,UOP(),transpose(A),o);
#endif
}
template<class M,class Acc> void all_a(MC&C,M const&m,Acc acc,MA const&A,IndexArrayType const&r,IndexArrayType const&c,OutputControlEnum o){
#if ON(G_TRANSPOSE)
  transpose(C,m,acc,A,o); transpose(C,m,acc,transpose(A),o);
#endif
#if ON(G_EXTRACT)
  extract(C,m,acc,A,r,c,o); extract(C,m,acc,transpose(A),r,c,o); extract(C,m,acc,A,AllIndices(),c,o); extract(C,m,acc,A,r,AllIndices(),o);
#endif
#if ON(G_ASSIGN)
  assign(C,m,acc,A,r,c,o); assign(C,m,acc,transpose(A),r,c,o); assign(C,m,acc,A,AllIndices(),AllIndices(),o);
#endif
}
template<class M,class Acc> void all_v(VC&w,M const&m,Acc acc,MA const&A,MB const&B,VA const&u,VB const&v,OutputControlEnum o){
#if ON(G_MXV)
  mxv(w,m,acc,SR(),A,v,o); mxv(w,m,acc,SR(),transpose(A),v,o);
  vxm(w,m,acc,SR(),u,B,o); vxm(w,m,acc,SR(),u,transpose(B),o);
#endif
#if ON(G_EWADD)
  eWiseAdd(w,m,acc,BOP(),u,v,o);
#endif
#if ON(G_EWMULT)
  eWiseMult(w,m,acc,BOP(),u,v,o);
#endif
#if ON(G_APPLY)
  apply(w,m,acc,UOP(),u,o);
#endif
}
template<class M,class Acc> void all_va(VC&w,M const&m,Acc acc,MA const&A,VA const&u,IndexArrayType const&r,OutputControlEnum o){
#if ON(G_EXTRACT)
  extract(w,m,acc,u,r,o); extract(w,m,acc,u,AllIndices(),o); extract(w,m,acc,A,r,IndexType(0),o); extract(w,m,acc,transpose(A),r,IndexType(0),o);
#endif
#if ON(G_ASSIGN)
  assign(w,m,acc,u,r,o); assign(w,m,acc,u,AllIndices(),o);
#endif
}
template<class M> void m1(MC&C,M const&m,MA&A,MB&B,IndexArrayType const&r,IndexArrayType const&c,SV val,OutputControlEnum o){
 all_ab(C,m,NoAccumulate(),A,B,o); all_ab(C,m,ACC(),A,B,o); all_a(C,m,NoAccumulate(),A,r,c,o); all_a(C,m,ACA(),A,r,c,o);
#if ON(G_ASSIGN)
 assign(C,m,NoAccumulate(),val,r,c,o); assign(C,m,ACV(),val,r,c,o);
#endif
#if ON(G_APPLY)
 apply(C,m,NoAccumulate(),B1(),val,A,o);apply(C,m,ACC(),B1(),val,A,o);apply(C,m,NoAccumulate(),B2(),A,val,o);apply(C,m,ACC(),B2(),A,val,o);
 apply(C,m,NoAccumulate(),B1(),val,transpose(A),o);apply(C,m,ACC(),B1(),val,transpose(A),o);apply(C,m,NoAccumulate(),B2(),transpose(A),val,o);apply(C,m,ACC(),B2(),transpose(A),val,o);
#endif
}
template<class M> void v1(VC&w,M const&m,MC&C,MA const&A,MB const&B,VA const&u,VB const&v,IndexArrayType const&r,SV val,OutputControlEnum o){
 all_v(w,m,NoAccumulate(),A,B,u,v,o); all_v(w,m,ACC(),A,B,u,v,o); all_va(w,m,NoAccumulate(),A,u,r,o); all_va(w,m,ACA(),A,u,r,o);
#if ON(G_ASSIGN)
 assign(w,m,NoAccumulate(),val,r,o); assign(w,m,ACV(),val,r,o);
 assign(C,m,NoAccumulate(),u,r,IndexType(0),o); assign(C,m,NoAccumulate(),u,IndexType(0),r,o);
 assign(C,m,ACA(),u,r,IndexType(0),o); assign(C,m,ACA(),u,IndexType(0),r,o);
#endif
#if ON(G_APPLY)
 apply(w,m,NoAccumulate(),B1(),val,u,o);apply(w,m,ACC(),B1(),val,u,o);apply(w,m,NoAccumulate(),B2(),u,val,o);apply(w,m,ACC(),B2(),u,val,o);
#endif
#if ON(G_REDUCE)
 reduce(w,m,NoAccumulate(),MON(),A,o); reduce(w,m,ACC(),MON(),A,o); reduce(w,m,NoAccumulate(),MON(),transpose(A),o); reduce(w,m,ACC(),MON(),transpose(A),o);
#endif
}
void top(MC&C,MA&A,MB&B,MM&M,VC&w,VA&u,VB&v,VM&m,IndexArrayType const&r,IndexArrayType const&c,SV val,OutputControlEnum o,SC&s){
 m1(C,NoMask(),A,B,r,c,val,o); m1(C,M,A,B,r,c,val,o); m1(C,complement(M),A,B,r,c,val,o); m1(C,structure(M),A,B,r,c,val,o); m1(C,complement(structure(M)),A,B,r,c,val,o);
#if ON(G_EXTRACT)
 IndexSequenceRange q(1,3);
 extract(C,NoMask(),NoAccumulate(),A,q,c,o); extract(C,M,ACA(),A,q,q,o); extract(C,M,NoAccumulate(),transpose(A),q,c,o); extract(w,NoMask(),NoAccumulate(),u,q,o); extract(w,m,ACA(),A,q,IndexType(0),o); extract(w,m,ACA(),transpose(A),q,IndexType(0),o);
#endif
 v1(w,NoMask(),C,A,B,u,v,r,val,o); v1(w,m,C,A,B,u,v,r,val,o); v1(w,complement(m),C,A,B,u,v,r,val,o); v1(w,structure(m),C,A,B,u,v,r,val,o); v1(w,complement(structure(m)),C,A,B,u,v,r,val,o);
#if ON(G_ASSIGN)
 IndexSequenceRange g(1,3); IndexType x0=0;
 assign(C,NoMask(),NoAccumulate(),A,g,c,o); assign(C,M,ACA(),A,g,g,o); assign(C,M,NoAccumulate(),transpose(A),g,c,o); assign(C,NoMask(),NoAccumulate(),A,r,g,o); assign(C,M,NoAccumulate(),A,AllIndices(),c,o); assign(C,M,NoAccumulate(),transpose(A),r,AllIndices(),o);
 assign(w,m,NoAccumulate(),u,g,o); assign(w,NoMask(),ACA(),u,g,o); assign(C,m,NoAccumulate(),u,g,x0,o); assign(C,m,NoAccumulate(),u,x0,g,o); assign(C,m,NoAccumulate(),u,AllIndices(),x0,o); assign(C,m,ACA(),u,x0,AllIndices(),o);
 assign(C,NoMask(),NoAccumulate(),val,g,c,o); assign(C,M,ACV(),val,g,g,o); assign(C,M,NoAccumulate(),val,AllIndices(),AllIndices(),o); assign(C,M,NoAccumulate(),val,r,AllIndices(),o);
 assign(w,m,NoAccumulate(),val,g,o); assign(w,m,ACV(),val,AllIndices(),o); assign(w,NoMask(),NoAccumulate(),val,AllIndices(),o);
#endif
#if ON(G_REDUCE)
 reduce(s,NoAccumulate(),MON(),u); reduce(s,ACC(),MON(),u); reduce(s,NoAccumulate(),MON(),A); reduce(s,ACC(),MON(),A);
#endif
#if ON(G_MISC)
 C.clear();
#endif
}
#if ON(G_CONT)
void cont(MA&A,MA const&Ac,VA&u,VA const&uc,IndexArrayType const&i,IndexArrayType const&j,IndexArrayType&oi,IndexArrayType&oj,std::vector<SA> const&x,std::vector<SA>&ox,IndexType a,IndexType b,SA s){
 MA n(a,b); MA m(Ac); A=Ac; A.clear(); A.resize(a,b); A.hasElement(a,b); A.extractElement(a,b); A.setElement(a,b,s); A.removeElement(a,b);
 A.build(i,j,x); A.build(i,j,x,DUP()); A.build(i.begin(),j.begin(),x.begin(),a,DUP()); A.extractTuples(oi,oj,ox); A.extractTuples(oi.begin(),oj.begin(),ox.begin());
 VA v(a); VA w(a,s); VA y(x); VA z(uc); u=uc; u.clear(); u.resize(a); u.hasElement(a); u.extractElement(a); u.setElement(a,s); u.removeElement(a);
 u.build(i,x); u.build(i,x,DUP()); u.build(i.begin(),x.begin(),a,DUP()); u.extractTuples(oi,ox); u.extractTuples(oi.begin(),ox.begin());
 backend::BitmapSparseVector<SA> q(a,i,x); q=x; backend::LilSparseMatrix<SA> h(a,b),l(h); h.swap(l); h.recomputeNvals(); h.getCol(a);
 std::vector<std::tuple<IndexType,SB>> rb; h.setCol(a,rb); h.setRow(a,rb); h.mergeRow<SB,DUB>(a,rb,DUB());
}
#endif

