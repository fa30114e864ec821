// replay harness of the failure policy: node infos and strategy driven through random sequences of outcomes
#include "fakesolver.hpp"
#include "BonCbcNode.hpp"
#include "BonCbcNlpStrategy.hpp"
#include "CbcModel.hpp"
#include "CoinWarmStartBasis.hpp"
typedef std::vector<double> V;
static void c13(Env&e,int iters){
 for(int it=0;it<40*iters;it++){
  int n=ri(1,5); Ipopt::SmartPtr<TP> p=TP::random(n,1); Script s; OsiTMINLPInterface o; o.setSolver(Ipopt::GetRawPtr(mkfake(e,&s))); o.setModel(Ipopt::GetRawPtr(p)); quiet(o);
  CbcModel&model=*new CbcModel(o); model.messageHandler()->setLogLevel(0); OsiTMINLPInterface*q=dynamic_cast<OsiTMINLPInterface*>(model.solver()); quiet(*q);
  int mf=ri(0,3),mi=ri(0,3),pr=ri(0,1); CbcNlpStrategy s0(mf,mi,pr); CbcNlpStrategy*st=dynamic_cast<CbcNlpStrategy*>(s0.clone());
  CoinWarmStartBasis b1,b2; b1.setSize(n,1); b2.setSize(n,1); CoinWarmStartDiff*df=b1.generateDiff(&b2);
  CbcNodeInfo*par=NULL; int u=0,i=0; bool failed=false; std::ostringstream H; H<<"limits "<<mf<<" "<<mi<<" fathom="<<pr<<" outcomes:";
  for(int d=0;d<7;d++){
   int k=ri(0,3); int status= k==0?TNLPSolver::solvedOptimal: k==1?TNLPSolver::provenInfeasible: k==2?TNLPSolver::exception:TNLPSolver::unbounded; double ov=rd(-9,9); H<<" "<<k; CTX=H.str();
   Outcome oc=randout(n,1,status,ov); s.q.push_back(oc); q->solveAndCheckErrors(false,false,"t");
   bool ab=status==TNLPSolver::exception, inf=status==TNLPSolver::provenInfeasible; double obj=q->getObjValue(); V x(q->getColSolution(),q->getColSolution()+n);
   int r=-9; bool thrown=false; try { r=st->status(&model,par,0); } catch(TNLPSolver::UnsolvedError*){ thrown=true; }
   int want=-1; bool stop=false; if(par){ if(ab) { if(u+1<=mf) want=0; else { failed=true; if(pr) want=2; else stop=true; } } else if(inf&&i+1<mi) want=0; }
   CHECK(thrown==stop,"search stopped: %d, expected %d",thrown,stop); CHECK(st->hasFailed()==failed,"failure remembered"); if(thrown) continue;
   CHECK(r==want,"decision %d, expected %d",r,want); CHECK(q->getObjValue()==(want==0?-1e200:want==2?1e200:obj),"objective %g",q->getObjValue());
   for(int j=0;j<n;j++){ double y=q->problem()->x_sol()[j]; if(want==0&&p->ty[j]){ if(p->xu[j]-p->xl[j]>=0.5) CHECK(y==ceil(p->xl[j])+0.5,"x[%d]=%g",j,y); } else CHECK(y==x[j],"x[%d]=%g was %g",j,y,x[j]); }
   CbcNodeInfo*ni=st->partialNodeInfo(&model,par,NULL,0,NULL,NULL,df); BonCbcPartialNodeInfo*b=dynamic_cast<BonCbcPartialNodeInfo*>(ni); CHECK(b,"type");
   u= ab? u+1:0; i= inf? i+1:0; if(!par){ u= ab; i= inf; }
   CHECK(b->getSequenceOfUnsolvedSize()==u&&b->getSequenceOfInfeasiblesSize()==i,"counts %d %d, expected %d %d",b->getSequenceOfUnsolvedSize(),b->getSequenceOfInfeasiblesSize(),u,i); par=b; } } }
void harness(int iters){ freopen("/dev/null","w",stderr); Env e; if(want("C13")) c13(e,iters); }
