// C07, C08
#include "BonIpoptSolver.hpp"
#include "BonAuxInfos.hpp"
static const int FAILS[]={-3,-2,-4,-5,-6,-7}; static bool isfail(int s){ for(int f:FAILS) if(f==s) return true; return false; }
static bool recov(int s){ return s>0||!(s==-4||s==-1||s==-5||s==-2); }
static void c07(Env&e,int iters){
 { // status map of the real Ipopt wrapper
  IpoptSolver ip(e.b.roptions(),e.b.options(),e.b.journalist(),"bonmin.");
  int in[]={0,1,2,3,4,5,6,-1,-2,-3,-4,-10,-11,-12,-13,-100,-101,-102,-199};
  int out[]={1,2,3,-8,4,-3,1,-3,-3,-2,5,-1,-4,-5,-5,-2,-6,-2,-7};
  for(int k=0;k<19;k++){ CTX="Ipopt status "+std::to_string(in[k]); int r=ip.solverReturnStatus((Ipopt::ApplicationReturnStatus)in[k]); CHECK(r==out[k],"classified as %d, documented %d",r,out[k]);
   TNLPSolver::ReturnStatus rs=(TNLPSolver::ReturnStatus)r; CHECK(ip.isError(rs)==(r<0),"isError"); CHECK((bool)ip.isRecoverable(rs)==recov(r),"isRecoverable"); }
 }
 for(int it=0;it<600*iters;it++){ // zero-dimensional problems, including bounds just above / below the tolerance
  int n=ri(1,5),m=ri(0,4); Ipopt::SmartPtr<TP> p=TP::random(n,m); V x=rvec(n,-2,2); bool fixed=true;
  for(int j=0;j<n;j++){ double w=ri(0,4)==0?9e-6:0; p->xl[j]=x[j]; p->xu[j]=x[j]+w; } if(ri(0,2)==0){ int j=ri(0,n-1); p->xu[j]=p->xl[j]+(rb()?1.1e-5:rd(0.1,3)); fixed=false; }
  bool feas=true; for(int i=0;i<m;i++){ double g=p->G(i,x.data()); p->gl[i]=ri(0,2)?g-rd(0,3):-COIN_DBL_MAX; p->gu[i]=ri(0,2)?g+rd(0,3):COIN_DBL_MAX; if(ri(0,3)==0) p->gl[i]=p->gu[i]=g; }
  if(m&&ri(0,2)==0){ int i=ri(0,m-1); double g=p->G(i,x.data()); int k=ri(0,3); if(k==0) p->gl[i]=g+1e-3, p->gu[i]=COIN_DBL_MAX; else if(k==1) p->gu[i]=g-1e-3,p->gl[i]=-COIN_DBL_MAX; else if(k==2) p->gl[i]=g+2e-7,p->gu[i]=g+1; else p->gu[i]=g-2e-7,p->gl[i]=g-1; feas=false; }
  for(int i=0;i<m&&feas;i++) if(ri(0,4)==0){ double g=p->G(i,x.data()); p->gl[i]=g+5e-8; p->gu[i]=g+1; }
  std::ostringstream H; H<<"all fixed="<<fixed<<" feasible="<<feas<<" n="<<n<<" m="<<m<<" x="<<vstr(x)<<" gl="<<vstr(p->gl)<<" gu="<<vstr(p->gu); CTX=H.str();
  Ipopt::SmartPtr<TMINLP2TNLP> t=new TMINLP2TNLP(Ipopt::GetRawPtr(p)); Script s; Ipopt::SmartPtr<FakeSolver> f=mkfake(e,&s); TNLPSolver::ReturnStatus st=TNLPSolver::exception;
  bool r=f->zeroDimension(Ipopt::GetRawPtr(t),st); CHECK(r==fixed,"zeroDimension returned %d",r);
  if(r){ CHECK(st==(feas?1:3),"status %d",(int)st); CHECK(eqv(t->x_sol(),x),"point"); CHECK(same(t->obj_value(),p->F(x.data())),"objective"); for(int i=0;i<m;i++) CHECK(same(t->g_sol()[i],p->G(i,x.data())),"activity"); CHECK((t->optimization_status()==Ipopt::SUCCESS)==feas&&(t->optimization_status()==Ipopt::LOCAL_INFEASIBILITY)==!feas,"status given to the problem"); }
 }
 int sts[]={1,2,3,4,5,-1,-2,-3,-4,-5,-6,-7,-8};
 for(int it=0;it<600*iters;it++){ int n=ri(1,5),m=ri(0,4); Ipopt::SmartPtr<TP> p=TP::random(n,m); for(int j=0;j<n;j++) p->ty[j]=(Bonmin::TMINLP::VariableType)ri(0,2); Script s; OsiTMINLPInterface o; o.setSolver(Ipopt::GetRawPtr(mkfake(e,&s))); o.setModel(Ipopt::GetRawPtr(p)); quiet(o);
  AuxInfo aux(0); o.setAuxiliaryInfo(&aux); AuxInfo&a=*static_cast<AuxInfo*>(o.getAuxiliaryInfo()); double best=a.bestObj2(); V bx; std::ostringstream H; H<<"n="<<n<<" alt="<<p->hasub; int cur=0;
  for(int k=0;k<6;k++){ int st=sts[ri(0,12)]; Outcome q=randout(n,m,st,rd(-5,5)); bool integ=rb(),ok=true; for(int j=0;j<n;j++){ if(integ) q.x[j]=std::floor(q.x[j])+(ri(0,4)?0:4e-9)-(ri(0,4)?0:4e-9); if(p->ty[j]&&std::fabs(q.x[j]-std::floor(q.x[j]+0.5))>1e-8) ok=false; }
   if(!bx.empty()&&k&&ri(0,2)==0){ q.x=bx; int j=ri(0,n-1); if(!p->ty[j]) q.x[j]+=(rb()?1:-1)*std::pow(10.,-ri(3,9))*(1+std::fabs(q.x[j])); ok=true; }
   bool warm=rb(); size_t n0=s.done.size(); H<<" status "<<st<<(warm?"w":"c")<<(ok?"i":"f"); CTX=H.str(); s.q.clear(); s.q.push_back(q); bool thr=false;
   try{ o.solveAndCheckErrors(warm,true,"t"); }catch(TNLPSolver::UnsolvedError*u){ thr=true; }
   CHECK(s.done.size()==n0+1&&s.warm.back()==warm,"one solve"); CHECK(thr==!recov(st),"error raised: %d",thr);
   if(thr){ continue; }
   cur=st; CHECK(o.isProvenOptimal()==(st==1||st==2)&&o.isProvenPrimalInfeasible()==(st==3)&&o.isProvenDualInfeasible()==(st==4)&&o.isIterationLimitReached()==(st==-3),"status queries");
   if(isfail(st)) CHECK(o.isAbandoned(),"failure not reported as abandoned"); if(st>0) CHECK(!o.isAbandoned(),"abandoned");
   if(p->hasub&&ok&&(st==1||st==2)){ double v=p->ubscale*p->F(q.x.data())+1; if(v<best){ best=v; bx=q.x; } }
   CHECK(same(a.bestObj2(),best),"best alternative value %g want %g",a.bestObj2(),best); if(!bx.empty()) CHECK(eqv(&a.bestSolution2()[0],bx),"best alternative solution");
  } }
}
struct LogSolver : public FakeSolver { LogSolver(const FakeSolver&f):FakeSolver(f){} };
static void c08(Env&e,int iters){
 int sts[]={1,1,2,3,4,5,-3,-6,-7,-8};
 for(int it=0;it<3000*iters;it++){
  int n=ri(1,5),m=ri(0,3); Ipopt::SmartPtr<TP> p=TP::random(n,m); p->hasub=false; for(int j=0;j<n;j++) if(p->xl[j]>p->xu[j]) std::swap(p->xl[j],p->xu[j]);
  if(ri(0,2)==0) for(int j=0;j<n;j++) p->x0[j]=std::min(std::max(p->x0[j],p->xl[j]),p->xu[j]);
  Script s; OsiTMINLPInterface o; o.setSolver(Ipopt::GetRawPtr(mkfake(e,&s))); o.setModel(Ipopt::GetRawPtr(p)); quiet(o);
  o.warmStartMode_=(OsiTMINLPInterface::WarmStartModes)ri(0,3); o.maxRandomRadius_=rb()?rd(0,5):1e4; o.max_perturbation_=rd(0,2); o.randomGenerationType_=ri(0,1);
  std::ostringstream H; 
  auto inb=[&](const V&x){ for(int j=0;j<n;j++) if(!(x[j]>=p->xl[j]-1e-9*(1+std::fabs(p->xl[j]))&&x[j]<=p->xu[j]+1e-9*(1+std::fabs(p->xu[j])))) return false; return true; };
  if(it%3==0){ // resolveForCost
    int first=sts[ri(0,5)]; Outcome b=randout(n,m,first,rd(-5,5)); s.q.push_back(b); o.solveAndCheckErrors(false,false,"t"); int N=ri(0,5); H<<"resolveForCost first("<<first<<","<<b.obj<<")"; int bi=-1; double bo=(first==1||first==2)?b.obj:DBL_MAX; Outcome best=b;
    for(int k=0;k<N;k++){ Outcome q=randout(n,m,sts[ri(0,9)],ri(0,4)?rd(-5,5):bo); s.q.push_back(q); H<<" ("<<q.status<<","<<q.obj<<")"; if((q.status==1||q.status==2)&&q.obj<bo){ bo=q.obj; best=q; bi=k; } } CTX=H.str();
    o.resolveForCost(N,rb()); CHECK((int)s.done.size()==N+1,"number of solves"); for(int k=1;k<=N;k++) CHECK(inb(s.starts[k]),"start %d outside bounds %s",k,vstr(s.starts[k]).c_str());
    CHECK(same(o.getObjValue(),bo),"objective kept %g want %g",o.getObjValue(),bo); CHECK((int)o.optimizationStatus_==best.status,"status kept %d want %d",(int)o.optimizationStatus_,best.status);
    V d=best.zl; d.insert(d.end(),best.zu.begin(),best.zu.end()); d.insert(d.end(),best.la.begin(),best.la.begin()+m);
    CHECK(eqv(o.getColSolution(),best.x),"point kept, best try %d",bi); CHECK(eqv(o.getRowPrice(),d),"multipliers kept, best try %d",bi);
  } else if(it%3==1){ // resolveForRobustness
    o.pretendFailIsInfeasible_=ri(0,2); int N=ri(0,4),ok=-1; int fs[]={-3,-6,-7}; int gs[]={1,2,3,4,5,-8}; H<<"resolveForRobustness treat="<<o.pretendFailIsInfeasible_; s.q.push_back(randout(n,m,-3,1)); o.setColSolution(rvec(n).data()); o.solveAndCheckErrors(false,false,"t");
    for(int k=0;k<=N;k++){ int st=ri(0,4)?fs[ri(0,2)]:gs[ri(0,5)]; if(st!=-3&&st!=-6&&st!=-7&&ok<0) ok=k; s.q.push_back(randout(n,m,st,rd(-5,5))); H<<" "<<st; } CTX=H.str(); bool thr=false; int dis=s.dis;
    try{ o.resolveForRobustness(N); }catch(TNLPSolver::UnsolvedError*u){ thr=true; }
    int K=ok>=0?ok+1:N+1; CHECK((int)s.done.size()==K+1,"%d solves, want %d",(int)s.done.size()-1,K); CHECK(thr==(ok<0&&o.pretendFailIsInfeasible_==0),"error raised %d",thr);
    CHECK(eqv(&s.starts[1][0],p->x0),"first retry starts from the original point"); for(int k=2;k<=K;k++) CHECK(inb(s.starts[k]),"start outside bounds"); CHECK(s.dis-dis>=K,"retries without warm start");
    for(size_t k=1;k<s.warm.size();k++) CHECK(!s.warm[k],"cold");
    CHECK((int)o.optimizationStatus_==s.done.back().status&&same(o.getObjValue(),s.done.back().obj)&&eqv(o.getColSolution(),s.done.back().x),"results of the last solve");
    if(!thr){ CHECK(!o.isAbandoned(),"abandoned"); CHECK(o.hasContinuedOnAFailure()==(ok<0&&o.pretendFailIsInfeasible_==1),"continued after failure"); }
  } else { // initialSolve / resolve policy
    o.pretendFailIsInfeasible_=2; o.numRetryInitial_=ri(0,2); o.numRetryResolve_=ri(0,2); o.numRetryUnsolved_=ri(0,2); o.numRetryInfeasibles_=ri(0,2); o.firstSolve_=rb(); bool ws=rb(); int mode=ri(0,3); o.warmStartMode_=(OsiTMINLPInterface::WarmStartModes)mode; bool re=rb(); bool warm=re&&ws; if(ws) o.warmstart_=new CoinWarmStartPrimalDual;
    int st=ri(0,2)?sts[ri(0,9)]:3; double ob=rb()?rd(-5,5):rb()?rd(1e-9,9e-7):rd(1.1e-6,1e-2); H<<(re?"resolve":"initialSolve")<<" warm start "<<ws<<" mode "<<mode<<" status "<<st<<" obj "<<ob<<" retries "<<o.numRetryInitial_<<o.numRetryResolve_<<o.numRetryUnsolved_<<o.numRetryInfeasibles_<<" first "<<o.firstSolve_; CTX=H.str();
    double eps=warm?1e-6:o.infeasibility_epsilon_; bool rob=isfail(st)||(st==3&&ob<eps); int extra=rob?1+o.numRetryUnsolved_:warm?((o.numRetryResolve_||(o.numRetryInfeasibles_&&st==3))?std::max(o.numRetryResolve_,o.numRetryInfeasibles_):0):(o.firstSolve_?o.numRetryInitial_:o.numRetryResolve_);
    s.q.push_back(randout(n,m,st,ob)); for(int k=0;k<8;k++) s.q.push_back(randout(n,m,-6,1)); if(re) o.resolve("x"); else o.initialSolve("x");
    CHECK((int)s.done.size()==1+extra,"%d solves, want %d",(int)s.done.size(),1+extra); CHECK(s.warm[0]==warm,"warm %d",(int)s.warm[0]);
    CHECK((o.warmstart_!=NULL)==(mode>=2),"warm start stored %d",o.warmstart_!=NULL);
  } } }
static void more(Env&e,int iters){ if(want("C07")) c07(e,iters); if(want("C08")) c08(e,iters); }
