// replay harness of the cut / linear relaxation properties
#include "fakesolver.hpp"
#include "OsiCuts.hpp"
#include "OsiClpSolverInterface.hpp"
typedef std::vector<double> V;
static void clean1(double&a,bool&keep,double cl,double cu,double rl,double ru,double x,double&lb,double&ub,double tiny,double vt,double inf){
  keep=true; double A=std::fabs(a); if(A>=tiny) return; if(A<vt){keep=false;return;}
  bool pos=a>0; if(cu<inf&&pos&&ru>=inf){lb+=a*(x-cu);keep=false;} else if(cu<inf&&!pos&&rl<=-inf){ub+=a*(x-cu);keep=false;} else if(cl>-inf&&!pos&&ru>=inf){lb+=a*(x-cl);keep=false;} else if(cl>-inf&&pos&&rl<=-inf){ub+=a*(x-cl);keep=false;} }
static void c09(Env&e,int iters){
 const double I=COIN_DBL_MAX;
 for(int it=0;it<1500*iters;it++){
  int n=ri(1,6),m=ri(0,5); Ipopt::SmartPtr<TP> p=TP::random(n,m); p->hasub=false; if(ri(0,2)==0) for(int i=0;i<m;i++) for(int j:p->nz[i]) if(ri(0,2)==0){ p->A[i][j]*=std::pow(10.,-ri(4,13)); p->Q[i][j]=0; }
  Script s; OsiTMINLPInterface o; o.setSolver(Ipopt::GetRawPtr(mkfake(e,&s))); o.setModel(Ipopt::GetRawPtr(p)); quiet(o); if(it%4==0) o.oaHandler_->setLogLevel(0);
  o.tiny_=std::pow(10.,-ri(5,9)); o.veryTiny_=o.tiny_*1e-6; o.rhsRelax_=rb()?0:1e-8; o.infty_=rb()?I:1e50;
  Outcome q=randout(n,m,1,1.); s.q.push_back(q); o.solveAndCheckErrors(false,false,"t");
  V x=rvec(n,-3,3); int go=ri(0,2); bool glob=rb(),two=rb(); V x2=rvec(n+1); OsiCuts cs; { OsiRowCut z; cs.insert(z); }
  std::ostringstream H; H<<"n="<<n<<" m="<<m<<" fortran="<<p->fortran<<" getObj="<<go<<" global="<<glob<<" x="<<vstr(x); CTX=H.str();
  if(two&&go){ o.getOuterApproximation(cs,x.data(),go,x2.data(),0.5,glob); } else o.getOuterApproximation(cs,x.data(),go,NULL,0,glob);
  int k=1; auto cmp=[&](const V&w,double lo,double up,double rel,const char*what){ CHECK(k<cs.sizeRowCuts(),"%s: missing",what); const OsiRowCut&c=cs.rowCut(k); V d(n+1,0.); for(int t=0;t<c.row().getNumElements();t++) d[c.row().getIndices()[t]]+=c.row().getElements()[t];
    for(int j=0;j<=n;j++) CHECK(near(d[j],w[j],1e-12),"%s: coefficient %d is %.15g want %.15g",what,j,d[j],w[j]);
    double rl=rel*std::max(1.,std::fabs(lo))+1e-9*(1+std::fabs(lo)),ru=rel*std::max(1.,std::fabs(up))+1e-9*(1+std::fabs(up));
    if(lo<=-I) CHECK(c.lb()<=-I,"%s: lb",what); else CHECK(c.lb()<=lo+1e-9*(1+std::fabs(lo))&&c.lb()>=lo-rl,"%s: lb %.15g want %.15g",what,c.lb(),lo);
    if(up>=I) CHECK(c.ub()>=I,"%s: ub",what); else CHECK(c.ub()>=up-1e-9*(1+std::fabs(up))&&c.ub()<=up+ru,"%s: ub %.15g want %.15g",what,c.ub(),up);
    CHECK((c.globallyValidAsInteger()==1)==glob,"%s: global flag",what); k++; };
  for(int i=0;i<m;i++) if(p->clin[i]==Ipopt::TNLP::NON_LINEAR){ V w(n+1,0.); double g=p->G(i,x.data()),lo=p->gl[i]>-o.infty_?p->gl[i]-g:-I,up=p->gu[i]<o.infty_?p->gu[i]-g:I; if(p->gl[i]>-I&&p->gu[i]<I){ if(q.la[i]>=0) lo=-I; if(q.la[i]<=0) up=I; }
    for(int j:p->nz[i]){ double a=p->A[i][j]+2*p->Q[i][j]*x[j]; bool kp; clean1(a,kp,p->xl[j],p->xu[j],p->gl[i],p->gu[i],x[j],lo,up,o.tiny_,o.veryTiny_,o.infty_); if(kp){ w[j]+=a; if(lo>-I) lo+=a*x[j]; if(up<I) up+=a*x[j]; } }
    cmp(w,lo,up,o.rhsRelax_,"constraint"); }
  if(go==2||(go==1&&!p->linobj)){ if(two&&k>=cs.sizeRowCuts()) continue; V w(n+1,0.); double lo=-I,up=-p->F(x.data()); for(int j=0;j<n;j++){ double a=p->c[j]+2*p->cq[j]*x[j]; bool kp; clean1(a,kp,p->xl[j],p->xu[j],-I,0,x[j],lo,up,o.tiny_,1e-15,o.infty_); if(kp){ w[j]=a; up+=a*x[j]; } } w[n]=-1; cmp(w,-I,up,0,"objective"); }
  CHECK(k==cs.sizeRowCuts(),"%d cuts, expected %d",cs.sizeRowCuts(),k);
 }
}
#include "h_oa_more.hpp"
void harness(int iters){ freopen("/dev/null","w",stderr); Env e; if(want("C09")) c09(e,iters); more(e,iters); }
