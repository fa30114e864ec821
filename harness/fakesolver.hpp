// a scripted NLP solver: returns chosen statuses and results, records what it was given
#pragma once
#include "tproblem.hpp"
#include "BonTNLPSolver.hpp"
#include "BonOsiTMINLPInterface.hpp"
#include "BonBonminSetup.hpp"
#include "BonTMINLP2TNLP.hpp"
#include "CoinWarmStartPrimalDual.hpp"
#include <deque>
using namespace Bonmin;
struct FakeErr : public TNLPSolver::UnsolvedError {
  static std::string nm; FakeErr(int n,Ipopt::SmartPtr<TMINLP2TNLP> p,std::string s):UnsolvedError(n,p,s){}
  const std::string& errorName() const override {return nm;} const std::string& solverName() const override {return nm;} };
std::string FakeErr::nm="fake";
struct Outcome { int status; double obj; std::vector<double> x,zl,zu,la,g; };
struct Script { std::deque<Outcome> q; std::vector<Outcome> done; std::vector<std::vector<double>> starts; std::vector<bool> warm; int dis=0,en=0; std::function<void(Ipopt::TNLP*)> hook; };
struct FakeSolver : public TNLPSolver {
  Script*s; std::string nm="fake"; bool ws=false;
  FakeSolver(Ipopt::SmartPtr<Bonmin::RegisteredOptions> r,Ipopt::SmartPtr<Ipopt::OptionsList> o,Ipopt::SmartPtr<Ipopt::Journalist> j,Script*sc):TNLPSolver(r,o,j,"bonmin."),s(sc){}
  Ipopt::SmartPtr<TNLPSolver> clone() override { return new FakeSolver(*this); }
  bool Initialize(std::string) override {return true;} bool Initialize(std::istream&) override {return true;}
  ReturnStatus run(const Ipopt::SmartPtr<Ipopt::TNLP>&t,bool w){
    Index n,m,a,b; Ipopt::TNLP::IndexStyleEnum st; t->get_nlp_info(n,m,a,b,st);
    std::vector<double> x(n); t->get_starting_point(n,true,x.data(),false,NULL,NULL,m,false,NULL); s->starts.push_back(x); s->warm.push_back(w);
    if(s->hook) s->hook(Ipopt::GetRawPtr(t));
    Outcome o; if(s->q.empty()){ o.status=exception; o.obj=0; } else { o=s->q.front(); s->q.pop_front(); }
    o.x.resize(n); o.zl.resize(n); o.zu.resize(n); o.la.resize(m+1); o.g.resize(m+1);
    s->done.push_back(o);
    t->finalize_solution(o.status==provenInfeasible?Ipopt::LOCAL_INFEASIBILITY:Ipopt::SUCCESS,n,o.x.data(),o.zl.data(),o.zu.data(),m,o.g.data(),o.la.data(),o.obj,NULL,NULL);
    return (ReturnStatus)o.status; }
  ReturnStatus OptimizeTNLP(const Ipopt::SmartPtr<Ipopt::TNLP>&t) override {return run(t,false);}
  ReturnStatus ReOptimizeTNLP(const Ipopt::SmartPtr<Ipopt::TNLP>&t) override {return run(t,true);}
  bool setWarmStart(const CoinWarmStart*,Ipopt::SmartPtr<TMINLP2TNLP>) override {return true;}
  CoinWarmStart* getUsedWarmStart(Ipopt::SmartPtr<TMINLP2TNLP>) const override {return NULL;}
  CoinWarmStart* getWarmStart(Ipopt::SmartPtr<TMINLP2TNLP>) const override {return new CoinWarmStartPrimalDual;}
  CoinWarmStart* getEmptyWarmStart() const override {return new CoinWarmStartPrimalDual;}
  bool warmStartIsValid(const CoinWarmStart*w) const override {return w!=NULL;}
  void enableWarmStart() override {s->en++;} void disableWarmStart() override {s->dis++;}
  double CPUTime() override {return 0;} int IterationCount() override {return 1;}
  void setOutputToDefault() override {} void forceSolverOutput(int) override {}
  std::string&solverName() override {return nm;} int errorCode() const override {return -199;}
  UnsolvedError* newUnsolvedError(int n,Ipopt::SmartPtr<TMINLP2TNLP> p,std::string s) override {return new FakeErr(n,p,s);}
};
struct Env { BonminSetup b; Env(){ b.initializeOptionsAndJournalist(); b.options()->SetStringValue("bonmin.algorithm","B-BB"); b.options()->SetIntegerValue("print_level",0); } };
inline Ipopt::SmartPtr<FakeSolver> mkfake(Env&e,Script*s){ return new FakeSolver(e.b.roptions(),e.b.options(),e.b.journalist(),s); }
inline void quiet(OsiTMINLPInterface&o){ o.messageHandler()->setLogLevel(0); }
inline Outcome randout(int n,int m,int status,double obj){ Outcome o; o.status=status;o.obj=obj;o.x=rvec(n);o.zl=rvec(n);o.zu=rvec(n);o.la=rvec(m+1);o.g=rvec(m+1); return o; }
