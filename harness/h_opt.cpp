// replay harness of the options: random values are set by name, the parts named by the options are built by the real code and inspected
#include <unistd.h>
#include <climits>
#include "fakesolver.hpp"
#include "BonCbc.hpp"
#include "BonDiver.hpp"
#include "BonOaFeasChecker.hpp"
#include "BonOaNlpOptim.hpp"
#include "BonOACutGenerator2.hpp"
#include "BonEcpCuts.hpp"
#include "BonSubMipSolver.hpp"
#include "BonCbcLpStrategy.hpp"
#include "BonFpForMinlp.hpp"
#include "BonChooseVariable.hpp"
#include "OsiClpSolverInterface.hpp"
#include "CglGomory.hpp"
#include "CglClique.hpp"
#include "CglFlowCover.hpp"
#include "CglKnapsackCover.hpp"
#include "CglLandP.hpp"
#include "CglMixedIntegerRounding2.hpp"
#include "CglRedSplit.hpp"
#include "CglTwomir.hpp"
#include "BonHeuristicDiveFractional.hpp"
#include "BonHeuristicDiveVectorLength.hpp"
#include "BonHeuristicDiveMIPFractional.hpp"
#include "BonHeuristicDiveMIPVectorLength.hpp"
#include "BonHeuristicFPump.hpp"
#include "BonHeuristicRINS.hpp"
#include "BonHeuristicLocalBranching.hpp"
#include "BonFixAndSolveHeuristic.hpp"
#include "BonDummyPump.hpp"
#include "BonPumpForMinlp.hpp"
#include "BonMilpRounding.hpp"
#include "BonRandomChoice.hpp"
typedef Ipopt::SmartPtr<Ipopt::OptionsList> O;
static int SI(O o,const char*n,int lo,int hi){ int v=ri(lo,hi); o->SetIntegerValue(std::string("bonmin.")+n,v); return v; }
static double SN(O o,const char*n,double lo,double hi){ double v=rd(lo,hi); o->SetNumericValue(std::string("bonmin.")+n,v); o->GetNumericValue(n,v,"bonmin."); return v; }
static int SE(O o,const char*n,std::vector<const char*> w){ o->SetStringValue(std::string("bonmin.")+n,w[ri(0,w.size()-1)]); int v; o->GetEnumValue(n,v,"bonmin."); return v; }
static void opts(int iters){
 for(int it=0;it<60*iters;it++){
  BonminSetup b; b.initializeOptionsAndJournalist(); O o=b.options(); o->SetStringValue("bonmin.algorithm","B-BB"); o->SetIntegerValue("print_level",0); std::ostringstream H; H<<"options set "<<it; CTX=H.str();
  int ll=0; o->SetIntegerValue("bonmin.bb_log_level",0); o->SetIntegerValue("bonmin.nlp_log_level",0); o->SetIntegerValue("bonmin.nlp_log_at_root",0); o->SetIntegerValue("bonmin.oa_log_level",0); o->SetStringValue("bonmin.cut_strengthening_type","none");
  Ipopt::SmartPtr<TP> p=TP::random(ri(2,4),ri(0,2)); b.initialize(Ipopt::GetRawPtr(p)); OsiTMINLPInterface*nlp=b.nonlinearSolver(); Script s; nlp->setSolver(new FakeSolver(b.roptions(),o,b.journalist(),&s)); quiet(*nlp);
  int I[15]; I[0]=SI(o,"bb_log_level",0,5); I[1]=SI(o,"bb_log_interval",0,99); I[2]=SI(o,"max_consecutive_failures",0,50); I[3]=SE(o,"nlp_failure_behavior",{"stop","fathom"}); I[4]=SI(o,"max_consecutive_infeasible",0,60); I[5]=SI(o,"number_strong_branch",0,70); I[6]=SI(o,"number_before_trust",0,80); I[7]=SI(o,"node_limit",0,1000); I[8]=SI(o,"solution_limit",0,1000); I[9]=SI(o,"iteration_limit",0,1000); I[10]=b.intParam_[10]; I[11]=SE(o,"sos_constraints",{"enable","disable"}); I[12]=SI(o,"num_cut_passes",0,40); I[13]=SI(o,"num_cut_passes_at_root",0,41); I[14]=SI(o,"nlp_log_at_root",0,12);
  double D[6]={SN(o,"cutoff_decr",0,1),SN(o,"cutoff",-50,50),SN(o,"allowable_gap",0,1),SN(o,"allowable_fraction_gap",0,1),SN(o,"integer_tolerance",0.01,0.2),SN(o,"time_limit",1,5000)};
  int nc=SE(o,"node_comparison",{"best-bound","depth-first","breadth-first","dynamic","best-guess"}), ts=SE(o,"tree_search_strategy",{"top-node","dive","probed-dive","dfs-dive","dfs-dive-dynamic"}), vs=SE(o,"variable_selection",{"most-fractional","strong-branching","reliability-branching","qp-strong-branching","osi-strong","random"}); SI(o,"random_generator_seed",0,99);
  b.gatherParametersValues(o); if(vs==0) I[5]=I[6]=0; if(vs==2) I[6]=10;
  for(int i=0;i<15;i++) CHECK(b.getIntParameter((BabSetupBase::IntParameter)i)==I[i],"integer parameter %d is %d, set %d",i,b.getIntParameter((BabSetupBase::IntParameter)i),I[i]);
  for(int i=0;i<6;i++) CHECK(b.getDoubleParameter((BabSetupBase::DoubleParameter)i)==D[i],"parameter %d is %g, set %g",i,b.getDoubleParameter((BabSetupBase::DoubleParameter)i),D[i]);
  CHECK(b.nodeComparisonMethod_==nc&&b.treeTraversalMethod_==ts,"tree search"); if(vs==0||vs==2){ SI(o,"number_strong_branch",0,70); }
  int a[5]={SI(o,"num_retry_unsolved_random_point",0,9),SI(o,"num_resolve_at_root",0,9),SI(o,"num_resolve_at_node",0,9),SI(o,"num_resolve_at_infeasibles",0,9),SI(o,"num_iterations_suspect",-1,9)}; int rt=SE(o,"random_point_type",{"Jon","Andreas","Claudia"}),wm=SE(o,"warm_start",{"none","fake_basis","optimum","interior_point"});
  double d[8]={SN(o,"max_random_point_radius",1,9),SN(o,"warm_start_bound_frac",1e-3,0.4),SN(o,"tiny_element",0,1e-3),SN(o,"very_tiny_element",0,1e-3),SN(o,"oa_rhs_relax",0,1),SN(o,"random_point_perturbation_interval",1,9),SN(o,"resolve_on_small_infeasibility",0,1),0}; int nl=SI(o,"nlp_log_level",0,2),cl=SI(o,"oa_cuts_log_level",0,3);
  o->SetNumericValue("bonmin.nlp_lower_bound_inf",-rd(1e5,1e9)); o->SetNumericValue("bonmin.nlp_upper_bound_inf",rd(1e5,1e9)); double li,ui; o->GetNumericValue("nlp_lower_bound_inf",li,"bonmin."); o->GetNumericValue("nlp_upper_bound_inf",ui,"bonmin.");
  nlp->extractInterfaceParams(); CHECK(nlp->numRetryUnsolved_==a[0]&&nlp->numRetryInitial_==a[1]&&nlp->numRetryResolve_==a[2]&&nlp->numRetryInfeasibles_==a[3]&&nlp->numIterationSuspect_==a[4],"retry counts of the interface");
  CHECK(nlp->randomGenerationType_==rt&&nlp->warmStartMode_==wm&&nlp->pretendFailIsInfeasible_==I[3],"modes of the interface"); CHECK(nlp->maxRandomRadius_==d[0]&&nlp->pushValue_==d[1]&&nlp->tiny_==d[2]&&nlp->veryTiny_==d[3]&&nlp->rhsRelax_==d[4]&&nlp->max_perturbation_==d[5]&&nlp->infeasibility_epsilon_==d[6],"numbers of the interface");
  CHECK(nlp->infty_==std::min(fabs(li),fabs(ui)),"infinity"); CHECK(nlp->messageHandler()->logLevel()==nl&&nlp->oaHandler_->logLevel()==cl,"log levels"); quiet(*nlp);
  int ml=SI(o,"milp_log_level",0,4),ao=SE(o,"add_only_violated_oa",{"no","yes"}),sc=SE(o,"oa_cuts_scope",{"local","global"}),ol=SI(o,"oa_log_level",0,2); double lf=SN(o,"oa_log_frequency",1,500);
  auto base=[&](OaDecompositionBase&g,bool sol){ auto&q=g.parameters_; CHECK(q.logFrequency_==lf&&q.gap_tol_==D[3]&&q.cbcCutoffIncrement_==D[0]&&q.cbcIntegerTolerance_==D[4],"numbers of a generator"); CHECK(q.subMilpLogLevel_==ml&&q.addOnlyViolated_==(ao!=0)&&q.global_==(sc!=0)&&g.handler_->logLevel()==ol,"modes of a generator"); CHECK(!sol||q.maxSols_==I[8],"solution limit of a generator"); CHECK(g.nlp_==nlp&&g.s_==&b,"NLP of a generator"); };
  int ct=SE(o,"feas_check_cut_types",{"outer-approx","Benders"}),dp=SE(o,"feas_check_discard_policy",{"detect-cycles","keep-all","treated-as-normal"}),gb=SI(o,"generate_benders_after_so_many_oa",0,9000); { OaFeasibilityChecker g(b); base(g,true); CHECK(g.type_==ct&&g.pol_==dp&&(int)g.maximum_oa_cuts_==gb&&g.cut_count_==0,"feasibility checker"); }
  int er=SI(o,"ecp_max_rounds",0,99); double e1=SN(o,"ecp_abs_tol",0,1),e2=SN(o,"ecp_rel_tol",0,1),e3=SN(o,"ecp_probability_factor",0,9); { EcpCuts g(b); base(g,true); CHECK(g.numRounds_==er&&g.abs_violation_tol_==e1&&g.rel_violation_tol_==e2&&g.beta_==e3,"ECP cuts"); }
  int md=SI(o,"nlp_solve_max_depth",0,99); double pd=SN(o,"nlp_solves_per_depth",0,9); { OaNlpOptim g(b); CHECK(g.maxDepth_==md&&g.solves_per_level_==pd&&g.addOnlyViolated_==(ao!=0)&&g.global_==(sc!=0)&&g.nlp_==nlp,"cuts at NLP optima"); }
  auto sub=[&](const char*px,OaDecompositionBase&g,SubMipSolver&m,double t,int ns,int st,double gp,int msv){ base(g,false); auto&q=g.parameters_; CHECK(q.maxLocalSearchTime_==std::min(t,D[5])&&q.maxSols_==std::min(ns,I[8])&&q.maxLocalSearch_==INT_MAX,"limits of %s: %g %d",px,q.maxLocalSearchTime_,q.maxSols_); CHECK((m.milp_strat_==SubMipSolver::FindGoodSolution)==(st==0)&&m.gap_tol_==gp,"MILP solver of %s",px); CHECK((dynamic_cast<CbcStrategyChooseCuts*>(m.strategy_)!=NULL)==(msv==1)&&m.strategy_&&m.clp_,"strategy of the MILP solver of %s",px); };
  for(int k=0;k<2;k++){ std::string px=k?"pump_for_minlp.":"oa_decomposition."; double t=rd(1,5000),gp=rd(0,1); int ns=ri(0,1000),st=ri(0,1),msv=ri(0,1),pi; o->SetNumericValue(px+"time_limit",t); o->SetIntegerValue(px+"solution_limit",ns); o->SetStringValue(px+"milp_strategy",st?"solve_to_optimality":"find_good_sol"); o->SetStringValue(px+"milp_solver",msv?"Cbc_Par":"Cbc_D"); o->SetNumericValue(px+"allowable_fraction_gap",gp); o->SetIntegerValue(px+"milp_log_level",0); o->GetNumericValue("time_limit",t,px); o->GetNumericValue("allowable_fraction_gap",gp,px);
   if(k){ o->SetStringValue(px+"fp_pass_infeasible",rb()?"yes":"no"); o->GetEnumValue("fp_pass_infeasible",pi,px); MinlpFeasPump g(b); sub("the pump",g,*g.subMip_,t,ns,st,gp,msv); CHECK(g.passBound_==pi,"pass bound"); } else { OACutGenerator2 g(b); sub("outer approximation",g,*g.subMip_,t,ns,st,gp,msv); } }
  double c1=SN(o,"setup_pseudo_frac",0,1),c2=SN(o,"maxmin_crit_no_sol",0,1),c3=SN(o,"maxmin_crit_have_sol",0,1); int c4=SE(o,"trust_strong_branching_for_pseudo_cost",{"no","yes"}),c5=SI(o,"number_strong_branch_root",0,99),c6=SI(o,"min_number_strong_branch",0,99),c7=SI(o,"number_look_ahead",0,99); bool lst=rb(); int c8=I[6]; if(lst) c8=SI(o,"number_before_trust_list",-1,99);
  { BonChooseVariable g(b,nlp); CHECK(g.bb_log_level_==I[0]&&g.time_limit_==D[5]&&g.setup_pseudo_frac_==c1&&g.maxmin_crit_no_sol_==c2&&g.maxmin_crit_have_sol_==c3&&g.trustStrongForPseudoCosts_==c4,"variable selection"); CHECK(g.numberStrongRoot_==c5&&g.minNumberStrongBranch_==c6&&g.numberLookAhead_==c7&&g.numberBeforeTrustedList_==c8&&g.numberStrong()==I[5]&&g.pseudoCosts_.numberBeforeTrusted()==I[6],"counts of the variable selection"); }
  int sd=SE(o,"stop_diving_on_cutoff",{"no","yes"}),dd=SI(o,"max_dive_depth",0,99),db=SI(o,"max_backtracks_in_dive",0,99); { CbcDiver g; g.initialize(b); CHECK(g.stop_diving_on_cutoff_==(sd!=0),"diving"); CbcProbedDiver h; h.initialize(b); CHECK(h.stop_diving_on_cutoff_==(sd!=0),"probed diving"); CbcDfsDiver f; f.initialize(b); CHECK(f.maxDiveDepth_==dd&&f.maxDiveBacktracks_==db,"depth-first diving"); }
  const char*cn[8]={"Gomory_cuts","mir_cuts","2mir_cuts","cover_cuts","clique_cuts","flow_cover_cuts","lift_and_project_cuts","reduce_and_split_cuts"}; int cf[8]; for(int i=0;i<8;i++){ if(rb()){ cf[i]=0; o->SetIntegerValue(std::string("bonmin.")+cn[i],0); } else cf[i]=SI(o,cn[i],-9,9); }
  b.cutGenerators().clear(); b.addMilpCutGenerators(); int seen=0; for(auto&g:b.cutGenerators()){ CglCutGenerator*c=g.cgl; int k=dynamic_cast<CglGomory*>(c)?0:dynamic_cast<CglMixedIntegerRounding2*>(c)?1:dynamic_cast<CglTwomir*>(c)?2:dynamic_cast<CglKnapsackCover*>(c)?3:dynamic_cast<CglClique*>(c)?4:dynamic_cast<CglFlowCover*>(c)?5:dynamic_cast<CglLandP*>(c)?6:dynamic_cast<CglRedSplit*>(c)?7:-1; CHECK(k>=0&&!(seen>>k&1),"unexpected cut generator"); if(k>=0){ seen|=1<<k; CHECK(g.frequency==cf[k],"%s: frequency %d, set %d",cn[k],g.frequency,cf[k]); CHECK(g.normal&&!g.always&&!g.atSolution,"%s: use",cn[k]); } } for(int i=0;i<8;i++) CHECK((seen>>i&1)==(cf[i]!=0),"%s: set to %d, used: %d",cn[i],cf[i],seen>>i&1);
 } }
static int hk(CbcHeuristic*c){ return dynamic_cast<HeuristicDiveFractional*>(c)?0:dynamic_cast<HeuristicDiveVectorLength*>(c)?1:dynamic_cast<HeuristicDiveMIPFractional*>(c)?2:dynamic_cast<HeuristicDiveMIPVectorLength*>(c)?3:dynamic_cast<HeuristicFPump*>(c)?4:dynamic_cast<FixAndSolveHeuristic*>(c)?5:dynamic_cast<DummyPump*>(c)?6:dynamic_cast<HeuristicRINS*>(c)?7:dynamic_cast<HeuristicLocalBranching*>(c)?8:dynamic_cast<PumpForMinlp*>(c)?9:dynamic_cast<MilpRounding*>(c)?10:11; }
static void bbb(int iters){
 static const char*hn[11]={"heuristic_dive_fractional","heuristic_dive_vectorLength","heuristic_dive_MIP_fractional","heuristic_dive_MIP_vectorLength","heuristic_feasibility_pump","fix_and_solve_heuristic","dummy_pump_heuristic","heuristic_RINS","heuristic_local_branching","pump_for_minlp","MILP_rounding_heuristic"};
 static const char*vn[9]={"most-fractional","strong-branching","reliability-branching","qp-strong-branching","lp-strong-branching","nlp-strong-branching","osi-simple","osi-strong","random"};
 for(int it=0;it<40*iters;it++){ std::ostringstream H; H<<"B-BB options "<<it; CTX=H.str();
  BonminSetup b; b.initializeOptionsAndJournalist(); O o=b.options(); o->SetStringValue("bonmin.algorithm","B-BB"); o->SetIntegerValue("print_level",0); for(const char*n:{"bb_log_level","nlp_log_level","nlp_log_at_root","oa_log_level"}) o->SetIntegerValue(std::string("bonmin.")+n,0); o->SetStringValue("sb","yes");
  int w[11]; for(int i=0;i<11;i++){ int k=ri(0,2); w[i]=(k==2)?(i==2||i==4):k; if(k<2) o->SetStringValue(std::string("bonmin.")+hn[i],k?"yes":"no"); }
  int vs=ri(-1,8),ns=rb()?ri(0,70):-1,bt=rb()?ri(0,20):-1; if(vs>=0) o->SetStringValue("bonmin.variable_selection",vn[vs]); if(ns>=0) o->SetIntegerValue("bonmin.number_strong_branch",ns); if(bt>=0) o->SetIntegerValue("bonmin.number_before_trust",bt);
  Ipopt::SmartPtr<TP> p=TP::random(ri(2,4),ri(0,2)); b.initialize(Ipopt::GetRawPtr(p)); bool gen=p->hasGeneralInteger();
  int n[12]={0}; for(auto&h:b.heuristics()) n[hk(h.heuristic)]++;
  for(int i=0;i<12;i++) if(i!=4||!gen) CHECK(n[i]==(i<11?w[i]:0),"heuristic %s used %d times, asked for %d",i<11?hn[i]:"unknown",n[i],i<11?w[i]:0);
  if(vs!=0){ CHECK(b.getIntParameter(BabSetupBase::NumberStrong)==(ns>=0?ns:1000),"number of strong branching candidates %d",b.getIntParameter(BabSetupBase::NumberStrong)); if(vs!=2) CHECK(b.getIntParameter(BabSetupBase::MinReliability)==(bt>=0?bt:1),"reliability %d",b.getIntParameter(BabSetupBase::MinReliability)); }
  OsiChooseVariable*v=b.branchingMethod(); int k=!v?0:dynamic_cast<BonChooseVariable*>(v)?1:dynamic_cast<BonRandomChoice*>(v)?4:dynamic_cast<OsiChooseStrong*>(v)?3:2; int e=vs<0||(vs>=3&&vs<=5)?1:vs<3?0:vs-4;
  CHECK(k==e,"variable selection %d is of kind %d",vs,k); if(v&&k==e){ CHECK(v->numberStrong()==b.getIntParameter(BabSetupBase::NumberStrong),"candidates given to the variable selection"); if(k==1){ CHECK(!v->trustStrongForSolution(),"solution of strong branching trusted"); if(vs==3) CHECK(!v->trustStrongForBound(),"bound of the QP trusted"); } }
 } }
void harness(int iters){ if(want("C15")) bbb(iters); if(want("C15")) opts(iters); }
