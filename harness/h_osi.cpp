// replay harness of the interface-level properties
#include "fakesolver.hpp"
#include "OsiCuts.hpp"
typedef std::vector<double> V;
static bool eqv(const double*p,const V&v){ if(!p) return false; for(size_t i=0;i<v.size();i++) if(!same(p[i],v[i])) return false; return true; }
static void c06(Env&e,int iters){
 for(int it=0;it<60*iters;it++){
  int n=ri(1,6),m=ri(0,4); Ipopt::SmartPtr<TP> p=TP::random(n,m); for(int k=0;k<m;k++) if(ri(0,3)==0) p->gu[k]=p->gl[k]=rd(-5,5);
  for(int k=0;k<m;k++) if(ri(0,4)==0){ p->gl[k]=-COIN_DBL_MAX; p->gu[k]=COIN_DBL_MAX; }
  Script s; OsiTMINLPInterface o; o.setSolver(Ipopt::GetRawPtr(mkfake(e,&s))); o.setModel(Ipopt::GetRawPtr(p)); quiet(o);
  V xl=p->xl,xu=p->xu,xi,du,xs,ds,gs; std::vector<int> ty; for(auto t:p->ty) ty.push_back(t); bool opt=false,hx=false,hd=false; double obj=o.getObjValue(), cut=1e200; o.setDblParam(OsiDualObjectiveLimit,cut);
  std::ostringstream H; H<<"n="<<n<<" m="<<m<<" history:";
  for(int st=0;st<16;st++){
    int op=ri(0,10),i=ri(0,n-1); double v=rd(-9,9); V a=rvec(n),d=rvec(2*n+m); H<<" "<<op<<"("<<i<<")"; CTX=H.str();
    switch(op){
     case 0: o.setColLower(i,v); xl[i]=v; opt=false; break;
     case 1: o.setColUpper(i,v); xu[i]=v; opt=false; break;
     case 2: o.setColLower(a.data()); xl=a; opt=false; break;
     case 3: o.setColUpper(a.data()); xu=a; opt=false; break;
     case 4: o.setInteger(i); ty[i]=2; opt=false; break;
     case 5: o.setContinuous(i); ty[i]=0; opt=false; break;
     case 6: o.setColSolution(a.data()); xi=a; hx=true; opt=false; break;
     case 7: o.setColSolution(NULL); hx=hd=false; opt=false; break;
     case 8: o.setRowPrice(d.data()); if(!hx) xi=V(n,0.); hx=hd=true; du=d; opt=false; break;
     case 9: { Outcome q=randout(n,m,1,v); s.q.push_back(q); o.solveAndCheckErrors(false,true,"t"); xs=q.x; ds=q.zl; ds.insert(ds.end(),q.zu.begin(),q.zu.end()); ds.insert(ds.end(),q.la.begin(),q.la.begin()+m); gs=V(q.g.begin(),q.g.begin()+m); obj=v; opt=true; break; }
     case 10: if(ri(0,1)){ o.setDblParam(OsiDualObjectiveLimit,v); cut=v; } else { o.forceInfeasible(); obj=1e200; } break;
    }
    CHECK(o.getNumCols()==n&&o.getNumRows()==m,"sizes");
    CHECK(eqv(o.getColLower(),xl)&&eqv(o.getColUpper(),xu),"column bounds");
    if(m) CHECK(eqv(o.getRowLower(),p->gl)&&eqv(o.getRowUpper(),p->gu),"row bounds");
    for(int j=0;j<n;j++){ CHECK(o.isContinuous(j)==(ty[j]==0)&&o.isBinary(j)==(ty[j]==1)&&o.isInteger(j)==(ty[j]!=0)&&o.isIntegerNonBinary(j)==(ty[j]==2),"type %d",j);
      if(ty[j]!=1||(xl[j]==0||xl[j]==1)&&(xu[j]==0||xu[j]==1)) CHECK(o.isFreeBinary(j)==(ty[j]==1&&xl[j]<xu[j]),"free binary"); }
    if(opt){ CHECK(eqv(o.getColSolution(),xs)&&eqv(o.getRowPrice(),ds),"solution"); }
    else { if(hx) CHECK(eqv(o.getColSolution(),xi),"start"); if(hd) CHECK(eqv(o.getRowPrice(),du),"dual start"); else CHECK(o.getRowPrice()==NULL,"no dual start"); }
    if(m&&!gs.empty()) CHECK(eqv(o.getRowActivity(),gs),"activity");
    CHECK(same(o.getObjValue(),obj),"objective %g want %g",o.getObjValue(),obj);
    double c; CHECK(o.getDblParam(OsiDualObjectiveLimit,c)&&c==cut,"cutoff"); CHECK(!o.setDblParam(OsiPrimalTolerance,1e-3)&&!o.setDblParam(OsiDualTolerance,1e-3)&&!o.setDblParam(OsiPrimalObjectiveLimit,3),"unsettable parameters");
    CHECK(o.getInfinity()==COIN_DBL_MAX&&o.getObjSense()==1,"infinity/sense");
    for(int k=0;k<m;k++){ double lo=p->gl[k],up=p->gu[k]; bool l=lo>-COIN_DBL_MAX,u=up<COIN_DBL_MAX; char se=l&&u?(lo==up?'E':'R'):l?'G':u?'L':'N';
      CHECK(o.getRowSense()[k]==se&&same(o.getRightHandSide()[k],u?up:l?lo:0.)&&near(o.getRowRange()[k],se=='R'?up-lo:0.),"row %d",k); }
  }
 }
}
#include "h_osi_more.hpp"
void harness(int iters){ freopen("/dev/null","w",stderr); Env e; if(want("C06")) c06(e,iters); more(e,iters); }
