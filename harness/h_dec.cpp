// replay harness of the decomposition algorithms: helpers on random solvers, the algorithms on separable convex box problems solved exactly
#include <unistd.h>
#include "fakesolver.hpp"
#include "BonCbc.hpp"
#include "BonBabInfos.hpp"
#include "BonSolverHelp.hpp"
#include "BonOaFeasChecker.hpp"
#include "BonOaNlpOptim.hpp"
#include "BonOACutGenerator2.hpp"
#include "OsiClpSolverInterface.hpp"
#include "OsiBranchingObject.hpp"
#include "CoinWarmStartBasis.hpp"
typedef std::vector<double> V;
static double pt(double tol){ int k=ri(0,5); double b=ri(-6,6); return k==0?rd(-6,6): k==1?b: k==2? b+tol*0.9: k==3? b-tol*0.9: k==4? b+tol*1.1:b-tol*1.1; }
static void helpers(int iters){
 for(int it=0;it<400*iters;it++){
  int n=ri(1,6); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0); V lo(n),up(n); std::vector<int> ty(n); double tol=rb()?1e-6:rd(0.01,0.3);
  for(int j=0;j<n;j++){ lo[j]=ri(-9,0); up[j]=lo[j]+ri(0,9); ty[j]=rb(); si.addCol(0,NULL,NULL,lo[j],up[j],rd(-1,1)); if(ty[j]) si.setInteger(j); }
  V x(n),y(n); bool clean=rb(); for(int j=0;j<n;j++){ x[j]=clean&&ty[j]?ri(-6,6)+(rb()?0:tol*0.9):pt(tol); y[j]=rb()?x[j]:x[j]+(rb()?1:-1)*tol*(rb()?0.9:1.1); if(clean&&!ty[j]) x[j]=rb()?rd(-5,5):3e11; }
  std::ostringstream H; H<<"tolerance "<<tol<<" types"; for(int t:ty) H<<t; H<<" x="<<vstr(x)<<" y="<<vstr(y); CTX=H.str();
  OsiBranchingInformation b(&si,false); b.solution_=x.data(); bool want=true,diff=false; for(int j=0;j<n;j++) if(ty[j]){ if(fabs(x[j]-floor(x[j]+0.5))>tol) want=false; if(fabs(x[j]-y[j])>tol) diff=true; }
  CHECK(integerFeasible(si,b,tol)==want,"integer feasible, expected %d",want);
  CHECK(isDifferentOnIntegers(si,NULL,0,tol,x.data(),y.data())==diff,"different, expected %d",diff);
  OsiClpSolverInterface s1(si),s2(si); bool thrown=false; try{ fixIntegers(s1,b,tol); } catch(CoinError&){ thrown=true; }
  CHECK(thrown==!want,"refused: %d",thrown);
  if(!thrown) for(int j=0;j<n;j++){ double f=floor(x[j]+0.5); CHECK(s1.getColLower()[j]==(ty[j]?f:lo[j])&&s1.getColUpper()[j]==(ty[j]?f:up[j]),"bounds of %d after fixing: %g %g",j,s1.getColLower()[j],s1.getColUpper()[j]); }
  relaxIntegers(s2,b,tol); for(int j=0;j<n;j++) CHECK(near(s2.getColLower()[j],lo[j]-(ty[j]?tol:0))&&near(s2.getColUpper()[j],up[j]+(ty[j]?tol:0)),"bounds of %d after relaxing",j);
  si.initialSolve(); OsiCuts cs; int k=ri(0,5),m0=ri(0,2); for(int i=0;i<m0;i++){ int c=0; double v=1; si.addRow(1,&c,&v,-100-i,100); } si.resolve(); for(int i=0;i<k;i++){ OsiRowCut c; int q=ri(0,n-1); double v=i+1; c.setRow(1,&q,&v); c.setLb(-50-i); c.setUb(60+i); cs.insert(c); }
  int add=ri(0,k); installCuts(si,cs,add); CHECK(si.getNumRows()==m0+add,"rows"); for(int i=0;i<add;i++){ const OsiRowCut&c=cs.rowCut(k-add+i); CHECK(si.getRowLower()[m0+i]==c.lb()&&si.getRowUpper()[m0+i]==c.ub(),"row %d",i); CHECK(si.getMatrixByRow()->getVector(m0+i).getElements()[0]==c.row().getElements()[0],"row %d",i); }
  CoinWarmStartBasis*w=dynamic_cast<CoinWarmStartBasis*>(si.getWarmStart()); for(int i=0;i<add;i++) CHECK(w->getArtifStatus(m0+i)==CoinWarmStartBasis::basic,"basis"); delete w; } }
struct BabSolver : public FakeSolver { using FakeSolver::FakeSolver;
  static CoinWarmStart*ws(int n,int m){ CoinWarmStartBasis*b=new CoinWarmStartBasis; b->setSize(n,m); return b; }
  Ipopt::SmartPtr<TNLPSolver> clone() override { return new BabSolver(*this); }
  CoinWarmStart* getUsedWarmStart(Ipopt::SmartPtr<TMINLP2TNLP> t) const override {return ws(t->num_variables(),t->num_constraints());}
  CoinWarmStart* getWarmStart(Ipopt::SmartPtr<TMINLP2TNLP> t) const override {return ws(t->num_variables(),t->num_constraints());}
  CoinWarmStart* getEmptyWarmStart() const override {return ws(0,0);} };
struct FC : public OaFeasibilityChecker { using OaFeasibilityChecker::OaFeasibilityChecker; typedef OaFeasibilityChecker::solverManip SM; bool post(BabInfo*b,double c){ return post_nlp_solve(b,c); }
  static void client(OsiSolverInterface*s,bool a,bool b,bool c,bool d,std::function<void()> f){ SM m(s,a,b,c,d,false); f(); m.restore(); } };
struct Info : public BabInfo { Info():BabInfo(4){} double bound() const { return mipBound_; } };
struct Run { Ipopt::SmartPtr<TP> p; Script s; BonminSetup b; int calls=0; V objs; std::vector<V> xs,ls,us; int fail=0; };
static void solve(Run&r,Ipopt::TNLP*t){
  r.calls++; TP*p=Ipopt::GetRawPtr(r.p); int n=p->n; V l(n),u(n),gl(1),gu(1); t->get_bounds_info(n,l.data(),u.data(),0,gl.data(),gu.data());
  Outcome o; o.status=TNLPSolver::solvedOptimal; o.x=V(n); o.obj=0;
  for(int j=0;j<n;j++){ double x=-p->c[j]/(2*p->cq[j]); if(l[j]>u[j]+1e-9) o.status=TNLPSolver::provenInfeasible; x=std::min(std::max(x,l[j]),u[j]); o.x[j]=x; o.obj+=p->c[j]*x+p->cq[j]*x*x; }
  if(r.fail==1) o.status=TNLPSolver::exception; if(r.fail==2) o.status=TNLPSolver::provenInfeasible;
  r.ls.push_back(l); r.us.push_back(u); r.objs.push_back(o.status==TNLPSolver::solvedOptimal?o.obj:1e300); r.xs.push_back(o.x); r.s.q.push_back(o); }
static double best(TP*p){ double s=0; for(int j=0;j<p->n;j++){ auto f=[&](double x){return p->c[j]*x+p->cq[j]*x*x;}; double x=-p->c[j]/(2*p->cq[j]),b=1e300; if(p->ty[j]==0) b=f(std::min(std::max(x,p->xl[j]),p->xu[j])); else for(double k=ceil(p->xl[j]);k<=floor(p->xu[j]);k++) b=std::min(b,f(k)); s+=b; } return s; }
static void algos(int iters){
 for(int it=0;it<40*iters;it++){
  Run&r=*new Run; int n=ri(1,4); r.p=TP::random(n,0); TP*p=Ipopt::GetRawPtr(r.p); p->linobj=false; p->hasub=false; p->fortran=false; bool allint=rb();
  for(int j=0;j<n;j++){ p->ty[j]=(TMINLP::VariableType)(allint?ri(1,2):ri(0,2)); p->xl[j]=ri(-3,0); p->xu[j]=p->xl[j]+ri(1,4); if(p->ty[j]==1){p->xl[j]=0;p->xu[j]=1;} p->c[j]=rd(-5,5); p->cq[j]=rd(0.3,2); p->x0[j]=0; }
  r.b.initializeOptionsAndJournalist(); auto o=r.b.options(); o->SetStringValue("bonmin.algorithm","B-BB"); o->SetIntegerValue("print_level",0); o->SetIntegerValue("bonmin.bb_log_level",0); o->SetIntegerValue("bonmin.nlp_log_level",0); o->SetIntegerValue("bonmin.oa_log_level",0); o->SetStringValue("bonmin.add_only_violated_oa",rb()?"yes":"no"); bool glob=rb(); o->SetStringValue("bonmin.oa_cuts_scope",glob?"global":"local"); const char*po[]={"detect-cycles","keep-all","treated-as-normal"}; o->SetStringValue("bonmin.feas_check_discard_policy",po[ri(0,2)]);
  r.b.initialize(Ipopt::GetRawPtr(r.p)); r.s.hook=[&r](Ipopt::TNLP*t){ solve(r,t); if(r.calls>2000){ CHECK(false,"more than 2000 NLPs solved"); fflush(stdout); _exit(1); } }; OsiTMINLPInterface*nlp=r.b.nonlinearSolver(); nlp->setSolver(new BabSolver(r.b.roptions(),r.b.options(),r.b.journalist(),&r.s)); quiet(*nlp); nlp->initialSolve(); r.calls=0; r.objs.clear(); r.xs.clear(); r.ls.clear(); r.us.clear();
  int kind=ri(0,2); std::ostringstream H; H<<"algorithm "<<kind<<" n="<<n<<" types "; for(auto t:p->ty) H<<t; H<<" c="<<vstr(p->c)<<" cq="<<vstr(p->cq)<<" xl="<<vstr(p->xl)<<" xu="<<vstr(p->xu); CTX=H.str();
  OsiClpSolverInterface&lp=*new OsiClpSolverInterface; lp.messageHandler()->setLogLevel(0); lp.setHintParam(OsiDoReducePrint,true,OsiHintTry);
  for(int j=0;j<n;j++){ lp.addCol(0,NULL,NULL,p->xl[j],p->xu[j],0.); if(p->ty[j]) lp.setInteger(j); } lp.addCol(0,NULL,NULL,-1e4,1e4,1.);
  V g(n); int seedcuts=ri(0,3); for(int q=0;q<seedcuts;q++){ std::vector<int> id; V el; double rhs=0; for(int j=0;j<n;j++){ double x=rd(p->xl[j],p->xu[j]); double d=p->c[j]+2*p->cq[j]*x; id.push_back(j); el.push_back(d); rhs+=d*x-(p->c[j]*x+p->cq[j]*x*x); } id.push_back(n); el.push_back(-1); lp.addRow(n+1,id.data(),el.data(),-COIN_DBL_MAX,rhs); }
  lp.initialSolve(); double cut=ri(0,2)?1e50:best(p)+rd(-1,3); lp.setDblParam(OsiDualObjectiveLimit,cut);
  Bab&bab=*new Bab; Info inf; inf.setBabPtr(&bab); lp.setAuxiliaryInfo(&inf); BabInfo*bx=dynamic_cast<BabInfo*>(lp.getAuxiliaryInfo()); bx->setSolver(&lp);
  V L(nlp->getColLower(),nlp->getColLower()+n),U(nlp->getColUpper(),nlp->getColUpper()+n); OsiCuts cs; CglTreeInfo ti; ti.inTree=true; ti.pass=0; ti.level=0;
  V x0(lp.getColSolution(),lp.getColSolution()+n+1); bool isint=true; for(int j=0;j<n;j++) if(p->ty[j]&&fabs(x0[j]-floor(x0[j]+0.5))>1e-6) isint=false; int rows=lp.getNumRows(); V LL(lp.getColLower(),lp.getColLower()+n+1);
  r.fail= kind==0&&ri(0,5)==0? 2:0; bool thrown=false,limited=false; double mb0=bx->mipBound();
  CglCutGenerator*gen=NULL; if(kind==0){ FC*f=new FC(r.b); gen=f; } else if(kind==1){ if(ri(0,4)==0) r.fail=ri(1,2); for(int j=0;j<n;j++) if(p->ty[j]&&rb()){ double v=ri((int)p->xl[j],(int)p->xu[j]); lp.setColLower(j,v); lp.setColUpper(j,v); } gen=new OaNlpOptim(r.b); } else { OACutGenerator2*a=new OACutGenerator2(r.b); gen=a; if(rb()){ limited=true; a->parameter().maxSols_=ri(1,2); } }
  if(kind==2){ lp.setDblParam(OsiDualObjectiveLimit,cut=1e50); }
  LL=V(lp.getColLower(),lp.getColLower()+n+1); V LU(lp.getColUpper(),lp.getColUpper()+n+1);
  try { gen->generateCuts(lp,cs,ti); } catch(CoinError&){ thrown=true; } catch(TNLPSolver::UnsolvedError*){ thrown=true; }
  if(thrown){ CHECK(r.fail==1&&kind==1,"an error was raised"); continue; }
  CHECK(V(nlp->getColLower(),nlp->getColLower()+n)==L&&V(nlp->getColUpper(),nlp->getColUpper()+n)==U,"bounds of the NLP are not put back");
  CHECK(lp.getNumRows()==rows&&V(lp.getColLower(),lp.getColLower()+n+1)==LL,"the LP of the tree is changed");
  for(int k=0;k<r.calls;k++) for(int j=0;j<n;j++){ double l=r.ls[k][j],u=r.us[k][j]; if(!p->ty[j]) CHECK(l==L[j]&&u==U[j],"bounds of continuous variable %d",j); else if(kind==1) CHECK(l==LL[j]&&u==LU[j],"bounds of %d at the node",j); else CHECK(l==u&&l==floor(l)&&l>=L[j]&&l<=U[j],"integer variable %d solved with bounds %g %g",j,l,u); }
  if(kind==0){ CHECK((r.calls>0)==isint,"point integer %d, %d NLPs solved",isint,r.calls); if(r.calls) for(int j=0;j<n;j++) if(p->ty[j]) CHECK(r.ls[0][j]==floor(x0[j]+0.5),"variable %d fixed at %g, point has %g",j,r.ls[0][j],x0[j]); }
  double inc=1e300; for(double v:r.objs) inc=std::min(inc,v); V sol(n+1); double so=0; bool has=bx->OsiBabSolver::hasSolution(so,sol.data());
  bool ints=true; if(kind==1&&r.calls) for(int j=0;j<n;j++) if(p->ty[j]&&fabs(r.xs[0][j]-floor(r.xs[0][j]+0.5))>1e-7) ints=false;
  bool wantsol= r.calls>0&&inc<1e299&&(kind==1?ints:inc<cut);
  CHECK(has==wantsol,"a solution is passed on: %d, expected %d",has,wantsol);
  if(has){ CHECK(near(so,inc,1e-12)&&near(sol[n],inc,1e-12)&&near(p->F(sol.data()),inc,1e-9),"solution passed on has objective %g (%g), best found %g",so,sol[n],inc); for(int j=0;j<n;j++) if(p->ty[j]) CHECK(fabs(sol[j]-floor(sol[j]+0.5))<1e-6,"integrality"); }
  for(int i=0;i<cs.sizeRowCuts();i++) for(int q=0;q<5;q++){ const OsiRowCut&c=cs.rowCut(i); V y(n+1); for(int j=0;j<n;j++) y[j]=p->ty[j]?ri((int)p->xl[j],(int)p->xu[j]):rd(p->xl[j],p->xu[j]); y[n]=p->F(y.data()); CHECK(c.violated(y.data())<1e-5,"cut %d removes a feasible point",i); }
  double w=best(p),mb=bx->mipBound(); bool closed=mb>1e49;
  if(kind==1||(kind==0&&!isint)) CHECK(mb==mb0,"bound %g without solving anything",mb);
  if(closed) CHECK(std::min(inc,cut)<=w+1e-3*(1+fabs(w)),"closed with incumbent %g, optimum %g",inc,w); else if(mb>-1e100&&mb!=mb0) CHECK(mb<=w+1e-3*(1+fabs(w)),"bound %g, optimum %g",mb,w);
  if(kind==2&&r.calls&&!limited) CHECK(fabs(inc-w)<1e-3*(1+fabs(w)),"outer approximation ends with %g, bound %g, optimum %g",inc,mb,w);
  // the state of an LP is put back
  OsiClpSolverInterface s2(lp); s2.setDblParam(OsiDualObjectiveLimit,12.5); bool fr=rb(),fb=rb(),fc=rb(); int m0=s2.getNumRows(); V l0(s2.getColLower(),s2.getColLower()+n+1),u0(s2.getColUpper(),s2.getColUpper()+n+1); int c=0; double v=1;
  FC::client(&s2,fr,fr&&rb(),fb,fc,[&]{ int k=ri(0,3); for(int i=0;i<k;i++) s2.addRow(1,&c,&v,-100-i,100); s2.setColLower(0,-77); s2.setColUpper(n,88); s2.setDblParam(OsiDualObjectiveLimit,3.5); }); double cc; s2.getDblParam(OsiDualObjectiveLimit,cc);
  CHECK(!fr||s2.getNumRows()==m0,"rows not put back"); for(int i=0;i<std::min(m0,s2.getNumRows());i++) CHECK(s2.getRowLower()[i]==lp.getRowLower()[i]&&s2.getRowUpper()[i]==lp.getRowUpper()[i],"row %d",i);
  CHECK(cc==(fc?12.5:3.5),"cutoff %g",cc); CHECK(s2.getColLower()[0]==(fb?l0[0]:-77)&&s2.getColUpper()[n]==(fb?u0[n]:88),"bounds"); } }
void harness(int iters){ if(want("C14")){ helpers(iters); algos(iters); } }
