// replay harness of the branch-and-bound report: separable convex box problems solved exactly, with scripted failures, limits and an interrupt
#include "fakesolver.hpp"
#include "BonCbc.hpp"
#include "CoinTime.hpp"
#include "CoinWarmStartBasis.hpp"
#include <csignal>
typedef std::vector<double> V;
struct BabSolver : public FakeSolver { using FakeSolver::FakeSolver;
  static CoinWarmStart*ws(int n,int m){ CoinWarmStartBasis*b=new CoinWarmStartBasis; b->setSize(n,m); return b; }
  Ipopt::SmartPtr<TNLPSolver> clone() override { return new BabSolver(*this); }
  CoinWarmStart* getUsedWarmStart(Ipopt::SmartPtr<TMINLP2TNLP> t) const override {return ws(t->num_variables(),t->num_constraints());}
  CoinWarmStart* getWarmStart(Ipopt::SmartPtr<TMINLP2TNLP> t) const override {return ws(t->num_variables(),t->num_constraints());}
  CoinWarmStart* getEmptyWarmStart() const override {return ws(0,0);} };
struct Run { Ipopt::SmartPtr<TP> p; Script s; int calls=0, failat=-1, throwat=-1, sigat=-1; BonminSetup b; };
static void solve(Run&r,Ipopt::TNLP*t){
  double t0=CoinCpuTime(); while(CoinCpuTime()<=t0); // the clock advances
  int k=r.calls++; TP*p=Ipopt::GetRawPtr(r.p); int n=p->n; V l(n),u(n),gl(1),gu(1); t->get_bounds_info(n,l.data(),u.data(),0,gl.data(),gu.data());
  Outcome o; o.status=TNLPSolver::solvedOptimal; o.x=V(n); o.obj=0;
  for(int j=0;j<n;j++){ double x=-p->c[j]/(2*p->cq[j]); if(l[j]>u[j]+1e-9) o.status=TNLPSolver::provenInfeasible; x=std::min(std::max(x,l[j]),u[j]); o.x[j]=x; o.obj+=p->c[j]*x+p->cq[j]*x*x; }
  if(k==r.failat) o.status=TNLPSolver::exception;
  if(k==r.sigat) raise(SIGINT);
  if(k==r.throwat) throw (TNLPSolver::UnsolvedError*) new FakeErr(1,dynamic_cast<TMINLP2TNLP*>(t),"p");
  r.s.q.push_back(o); }
static void prep(Run&r,bool infeas){
  int n=ri(1,4); r.p=TP::random(n,0); TP*p=Ipopt::GetRawPtr(r.p); p->linobj=false; p->hasub=false; p->fortran=false;
  for(int j=0;j<n;j++){ p->ty[j]=(TMINLP::VariableType)ri(0,2); p->xl[j]=ri(-3,0); p->xu[j]=p->xl[j]+ri(1,4); if(p->ty[j]==1){p->xl[j]=0;p->xu[j]=1;} if(p->ty[j]==2&&rb()) {p->xl[j]-=0.4;} p->c[j]=rd(-5,5); p->cq[j]=rd(0.3,2); p->x0[j]=0; }
  if(infeas){ p->ty[0]=TMINLP::INTEGER; p->xl[0]=0.3; p->xu[0]=0.7; }
  r.b.initializeOptionsAndJournalist(); auto o=r.b.options(); o->SetStringValue("bonmin.algorithm","B-BB"); o->SetIntegerValue("print_level",0); o->SetIntegerValue("bonmin.bb_log_level",0); o->SetIntegerValue("bonmin.nlp_log_level",0); o->SetStringValue("bonmin.variable_selection","most-fractional"); }
static void start(Run&r){ r.b.initialize(Ipopt::GetRawPtr(r.p)); r.s.hook=[&r](Ipopt::TNLP*t){ solve(r,t); };
  r.b.nonlinearSolver()->setSolver(new BabSolver(r.b.roptions(),r.b.options(),r.b.journalist(),&r.s)); r.b.nonlinearSolver()->messageHandler()->setLogLevel(0); }
static double best(TP*p){ double s=0; for(int j=0;j<p->n;j++){ auto f=[&](double x){return p->c[j]*x+p->cq[j]*x*x;}; double x=-p->c[j]/(2*p->cq[j]),b=1e300; if(p->ty[j]==0) b=f(std::min(std::max(x,p->xl[j]),p->xu[j])); else for(double k=ceil(p->xl[j]);k<=floor(p->xu[j]);k++) b=std::min(b,f(k)); s+=b; } return s; }
static void common(Run&r,Bab&bb){ TP*p=Ipopt::GetRawPtr(r.p); typedef Bab B;
  CHECK(p->nfin==1,"the user is told the outcome %d times",p->nfin);
  auto ms=bb.mipStatus(); bool has=bb.bestSolution()!=NULL;
  CHECK(ms!=B::FeasibleOptimal||(has&&p->laststat==TMINLP::SUCCESS),"optimality claimed, solution %d, told %d",has,(int)p->laststat);
  CHECK((p->laststat==TMINLP::SUCCESS)==(ms==B::FeasibleOptimal),"told %d, claims %d",(int)p->laststat,(int)ms);
  CHECK((p->laststat==TMINLP::INFEASIBLE)==(ms==B::ProvenInfeasible),"told %d, claims %d",(int)p->laststat,(int)ms);
  CHECK(ms!=B::Feasible||has,"feasible without solution"); }
static void answer(Run&r,Bab&bb){ TP*p=Ipopt::GetRawPtr(r.p); if(!bb.bestSolution()){ CHECK(p->lastx.empty(),"a point given to the user"); return; }
  CHECK((int)p->lastx.size()==p->n&&p->lastx==V(bb.bestSolution(),bb.bestSolution()+p->n)&&same(p->lastobj,bb.bestObj()),"what the user is given");
  for(int j=0;j<p->n;j++){ double x=p->lastx[j]; CHECK(x>=p->xl[j]-1e-5&&x<=p->xu[j]+1e-5,"bounds %d",j); if(p->ty[j]) CHECK(fabs(x-floor(x+0.5))<1e-5,"integrality %d",j); }
  CHECK(fabs(p->F(p->lastx.data())-p->lastobj)<1e-4*(1+fabs(p->lastobj)),"objective %g at the point, reported %g",p->F(p->lastx.data()),p->lastobj); }
void harness(int iters){ freopen("/dev/null","w",stderr);
 for(int it=0;it<25*iters;it++){
  Run&r=*new Run; int kind=ri(0,5); prep(r,kind==1); std::ostringstream H; TP*p=Ipopt::GetRawPtr(r.p); H<<"kind="<<kind<<" n="<<p->n<<" c="<<vstr(p->c)<<" cq="<<vstr(p->cq)<<" xl="<<vstr(p->xl)<<" xu="<<vstr(p->xu); auto o=r.b.options();
  const char*cmp[]={"best-bound","depth-first","breadth-first","dynamic"}; o->SetStringValue("bonmin.node_comparison",cmp[ri(0,3)]); const char*tr[]={"top-node","dive","dfs-dive"}; int tk=ri(0,2); o->SetStringValue("bonmin.tree_search_strategy",tr[tk]); H<<" tree="<<tr[tk];
  if(kind==2){ int k=ri(0,2); o->SetIntegerValue("bonmin.node_limit",k); H<<" node_limit="<<k; }
  if(kind==3){ o->SetNumericValue("bonmin.time_limit",1e-9); }
  if(kind==4){ r.failat=ri(0,3); H<<" failing solve "<<r.failat; }
  if(kind==5){ r.throwat=ri(0,6); H<<" error raised by solve "<<r.throwat; }
  CTX=H.str(); start(r); Bab&bb=*new Bab; bool thrown=false; // never destroyed: Cbc cannot be after an exception
  try { bb(r.b); } catch(TNLPSolver::UnsolvedError*E){ thrown=true; }
  common(r,bb);
  if(thrown){ CHECK(kind>=4&&p->laststat==TMINLP::MINLP_ERROR&&p->lastx.empty(),"a failed solve: told %d",(int)p->laststat); continue; }
  CHECK(kind!=5||r.calls<=r.throwat,"the error is not raised again");
  bool ints=false; for(auto t:p->ty) if(t) ints=true;
  answer(r,bb);
  if(kind==0||(kind==4&&r.calls<=r.failat)||kind==5){ CHECK(bb.mipStatus()==Bab::FeasibleOptimal,"not solved: %d",(int)bb.mipStatus()); double w=best(p); CHECK(fabs(bb.bestObj()-w)<1e-3*(1+fabs(w)),"objective %.10g, optimum %.10g",bb.bestObj(),w); }
  if(kind==1) CHECK(bb.mipStatus()==Bab::ProvenInfeasible,"infeasible problem: %d",(int)bb.mipStatus());
  if(bb.mipStatus()==Bab::FeasibleOptimal&&kind!=4){ double w=best(p); CHECK(fabs(bb.bestObj()-w)<1e-3*(1+fabs(w)),"objective %.10g, optimum %.10g",bb.bestObj(),w); }
  if(kind==3&&ints) CHECK(p->laststat==TMINLP::LIMIT_EXCEEDED&&bb.mipStatus()!=Bab::FeasibleOptimal,"no time left: told %d",(int)p->laststat);
  if(ints&&bb.model().status()==0&&kind!=3) CHECK(p->laststat==(bb.bestSolution()?TMINLP::SUCCESS:TMINLP::INFEASIBLE),"completed search: told %d",(int)p->laststat);
  if(ints&&bb.model().status()==1) CHECK(p->laststat==TMINLP::LIMIT_EXCEEDED,"limit: told %d",(int)p->laststat);
 }
 { Run r; prep(r,false); TP*p=Ipopt::GetRawPtr(r.p); p->ty[0]=TMINLP::INTEGER; p->xl[0]=0; p->xu[0]=3; CTX="interrupt during the first solve"; r.sigat=0; start(r); Bab bb; bb(r.b); common(r,bb); CHECK(p->laststat==TMINLP::USER_INTERRUPT&&bb.mipStatus()==Bab::NoSolutionKnown,"told %d, claims %d",(int)p->laststat,(int)bb.mipStatus()); }
}
