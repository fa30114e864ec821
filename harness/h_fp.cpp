// replay harness of C11: the feasibility problem against its definition, in every configuration
#include "fakesolver.hpp"
#include "BonTMINLP2TNLP.hpp"
#include "BonTNLP2FPNLP.hpp"
using namespace Bonmin;
typedef std::vector<double> V;
struct Sink : public Ipopt::TNLP { // records what the wrapped NLP is told
  Ipopt::SmartPtr<TMINLP2TNLP> t; int fm=-1,fn=-1; const double*fx=NULL,*fg=NULL; double fo=0; int fs=-1; int jm=-1,jn=-1,hm=-1,hn=-1;
  Sink(TMINLP2TNLP*q):t(q){}
  bool get_nlp_info(Index&n,Index&m,Index&j,Index&h,IndexStyleEnum&s) override {return t->get_nlp_info(n,m,j,h,s);}
  bool get_bounds_info(Index n,Number*a,Number*b,Index m,Number*c,Number*d) override {return t->get_bounds_info(n,a,b,m,c,d);}
  bool get_starting_point(Index n,bool i,Number*x,bool j,Number*a,Number*b,Index m,bool k,Number*l) override {return t->get_starting_point(n,i,x,j,a,b,m,k,l);}
  bool eval_f(Index n,const Number*x,bool w,Number&f) override {return t->eval_f(n,x,w,f);}
  bool eval_grad_f(Index n,const Number*x,bool w,Number*f) override {return t->eval_grad_f(n,x,w,f);}
  bool eval_g(Index n,const Number*x,bool w,Index m,Number*f) override {jm=m;return t->eval_g(n,x,w,m,f);}
  bool eval_jac_g(Index n,const Number*x,bool w,Index m,Index z,Index*r,Index*c,Number*v) override {jm=m;jn=z;return t->eval_jac_g(n,x,w,m,z,r,c,v);}
  bool eval_h(Index n,const Number*x,bool w,Number o,Index m,const Number*l,bool nl,Index z,Index*r,Index*c,Number*v) override {hm=m;hn=z;return t->eval_h(n,x,w,o,m,l,nl,z,r,c,v);}
  bool get_variables_linearity(Index n,LinearityType*a) override {return t->get_variables_linearity(n,a);}
  bool get_constraints_linearity(Index n,LinearityType*a) override {return t->get_constraints_linearity(n,a);}
  void finalize_solution(Ipopt::SolverReturn s,Index n,const Number*x,const Number*,const Number*,Index m,const Number*g,const Number*,Number o,const Ipopt::IpoptData*,Ipopt::IpoptCalculatedQuantities*) override {fs=s;fn=n;fx=x;fm=m;fg=g;fo=o;}
};
static void iface(int iters){ freopen("/dev/null","w",stderr); Env e;
 for(int it=0;it<200*iters;it++){ int n=ri(1,5),m=ri(0,3); Ipopt::SmartPtr<TP> p=TP::random(n,m); p->hasub=false; Script s; OsiTMINLPInterface o; o.setSolver(Ipopt::GetRawPtr(mkfake(e,&s))); o.setModel(Ipopt::GetRawPtr(p)); quiet(o); std::ostringstream H; H<<"n="<<n<<" m="<<m<<" history:";
  for(int st=0;st<6;st++){ int op=ri(0,4),k=ri(0,n),L=ri(1,2); V xb=rvec(k,0,1); std::vector<int> in; for(int j=0;j<k;j++) in.push_back(n-1-j); double a=rd(0,1),sg=rd(0,2),rh=rd(0,3),cv=rd(1,5); H<<" "<<op; CTX=H.str(); TNLP2FPNLP*f=Ipopt::GetRawPtr(o.feasibilityProblem_); int nrun=0; double ob=rd(-3,3);
   auto conf=[&](){ bool use=op!=1; CHECK(f->use_feasibility_pump_objective_==use&&f->use_cutoff_constraint_==(op==3)&&f->use_local_branching_constraint_==(op==1),"configuration of the feasibility problem after operation %d",op); CHECK(f->vals_==xb&&(int)f->inds_.size()==k,"point"); for(int j=0;j<k;j++) CHECK(f->inds_[j]==in[j],"coordinate"); if(op==1) CHECK(f->rhs_local_branching_constraint_==rh,"radius"); else CHECK(f->norm_==L&&f->lambda_==(op==3?1.:a)&&f->sigma_==(op==3?0.:sg),"weights"); if(op==3) CHECK(f->cutoff_<cv&&f->cutoff_>cv-2e-5,"cutoff"); };
   s.hook=[&](Ipopt::TNLP*t){ nrun++; CHECK(t==f,"another problem is solved"); conf(); };
   Ipopt::TNLP*before=Ipopt::GetRawPtr(o.problem_to_optimize_);
   if(op==0){ o.switchToFeasibilityProblem(k,xb.data(),in.data(),a,sg,L); conf(); CHECK(Ipopt::GetRawPtr(o.problem_to_optimize_)==f&&o.feasibility_mode_,"problem to optimise"); }
   else if(op==1){ o.switchToFeasibilityProblem(k,xb.data(),in.data(),rh); conf(); CHECK(Ipopt::GetRawPtr(o.problem_to_optimize_)==f&&o.feasibility_mode_,"problem to optimise"); }
   else if(op==4){ o.switchToOriginalProblem(); CHECK(Ipopt::GetRawPtr(o.problem_to_optimize_)==(Ipopt::TNLP*)Ipopt::GetRawPtr(o.problem_)&&!o.feasibility_mode_,"problem to optimise"); }
   else { s.q.clear(); Outcome q=randout(n,m+1,ri(1,3),ob); s.q.push_back(q); double r=op==2?o.solveFeasibilityProblem(k,xb.data(),in.data(),a,sg,L):o.solveFeasibilityProblem(k,xb.data(),in.data(),L,cv); CHECK(nrun==1,"%d solves",nrun); CHECK(r==o.problem_->obj_value(),"value returned"); CHECK((int)o.optimizationStatus_==q.status&&o.hasBeenOptimized_,"status"); CHECK(Ipopt::GetRawPtr(o.problem_to_optimize_)==before,"problem to optimise later"); }
   s.hook=nullptr; } } }
void harness(int iters){ iface(iters);
 for(int it=0;it<1500*iters;it++){
  int n=ri(1,6),m=ri(0,4); Ipopt::SmartPtr<TP> p=TP::random(n,m); Ipopt::SmartPtr<TMINLP2TNLP> t=new TMINLP2TNLP(Ipopt::GetRawPtr(p)); Ipopt::SmartPtr<Sink> s=new Sink(Ipopt::GetRawPtr(t));
  double sc=rd(0.5,2),la=rd(0,1),sg=rd(0,3); bool use=rb(),cut=rb(),loc=rb(); int norm=ri(1,2),k=ri(0,n); double cv=ri(0,4)?rd(-5,5):rd(-1e-8,1e-8),rhs=rd(0,5);
  std::vector<int> in; for(int j=0;j<n;j++) in.push_back(j); std::shuffle(in.begin(),in.end(),RNG); in.resize(k); V va; for(int j=0;j<k;j++) va.push_back(rb()?ri(0,1):rd(-1,2));
  Ipopt::SmartPtr<TNLP2FPNLP> q=new TNLP2FPNLP(Ipopt::SmartPtr<Ipopt::TNLP>(Ipopt::GetRawPtr(s)),sc);
  q->set_use_feasibility_pump_objective(use); q->set_use_cutoff_constraint(cut); q->set_use_local_branching_constraint(loc); q->set_cutoff(cv); q->set_rhs_local_branching_constraint(rhs); q->setSigma(sg); q->setLambda(la); q->setNorm(norm); q->set_dist_to_point_obj(k,va.data(),in.data());
  if(rb()) q=new TNLP2FPNLP(Ipopt::SmartPtr<Ipopt::TNLP>(Ipopt::GetRawPtr(s)),q);
  std::ostringstream H; H<<"n="<<n<<" m="<<m<<" distance objective="<<use<<" norm="<<norm<<" cutoff constraint="<<cut<<" local branching constraint="<<loc<<" terms="<<k<<" fortran="<<p->fortran; CTX=H.str();
  Index nn,mm,nj,nh; Ipopt::TNLP::IndexStyleEnum is; CHECK(q->get_nlp_info(nn,mm,nj,nh,is),"info"); int M=m+cut+loc, NJ=p->nnz()+(cut?n:0)+(loc?k:0), NH=n+(use&&norm==2?k:0);
  CHECK(nn==n&&mm==M&&nj==NJ&&nh==NH,"sizes %d %d %d %d, want %d %d %d %d",nn,mm,nj,nh,n,M,NJ,NH);
  V xl(n,-7),xu(n,-7),gl(M+1,-7),gu(M+1,-7); CHECK(q->get_bounds_info(n,xl.data(),xu.data(),M,gl.data(),gu.data()),"bounds");
  for(int j=0;j<n;j++) CHECK(xl[j]==p->xl[j]&&xu[j]==p->xu[j],"x bounds"); for(int i=0;i<m;i++) CHECK(gl[i]==p->gl[i]&&gu[i]==p->gu[i],"g bounds");
  double C=cv>1e-8?(1-1e-6)*cv:cv<-1e-8?(1+1e-6)*cv:-1e-6; if(cut) CHECK(gl[m]<=-COIN_DBL_MAX&&near(gu[m],C,1e-12),"cutoff row bounds"); if(loc) CHECK(gl[m+cut]<=-COIN_DBL_MAX&&gu[m+cut]==rhs,"local branching row bounds"); CHECK(gl[M]==-7&&gu[M]==-7,"past end");
  V x=rvec(n,-2,2); double D1=0,D2=0; for(int t=0;t<k;t++){ double y=x[in[t]]; D2+=(y-va[t])*(y-va[t]); D1+=va[t]<=0.1?y:1-y; }
  double F=p->F(x.data()), W=use?F*(1-la)*sg+sc*la*(norm==2?D2:D1):F, f; CHECK(q->eval_f(n,x.data(),true,f)&&near(f,W),"objective %.15g want %.15g",f,W);
  V gr(n),w0(n),wg(n); CHECK(q->eval_grad_f(n,x.data(),true,gr.data()),"grad"); p->eval_grad_f(n,x.data(),true,w0.data()); wg=w0; if(use){ for(auto&y:wg) y*=(1-la)*sg; for(int t=0;t<k;t++) wg[in[t]]+=sc*la*(norm==2?2*(x[in[t]]-va[t]):va[t]<=0.1?1:-1); }
  for(int j=0;j<n;j++) CHECK(near(gr[j],wg[j]),"gradient %d is %.15g want %.15g",j,gr[j],wg[j]);
  V g(M+1,-7); CHECK(q->eval_g(n,x.data(),true,M,g.data()),"eval_g"); CHECK(s->jm==m,"eval_g: number of constraints passed on"); for(int i=0;i<m;i++) CHECK(near(g[i],p->G(i,x.data())),"constraint %d",i);
  if(cut) CHECK(near(g[m],F),"the cutoff constraint has value %.15g, the objective is %.15g",g[m],F); if(loc) CHECK(near(g[m+cut],D1),"the local branching constraint has value %.15g want %.15g",g[m+cut],D1); CHECK(g[M]==-7,"past end");
  { Index*r=new Index[NJ?NJ:1],*c=new Index[NJ?NJ:1]; double*v=new double[NJ?NJ:1]; s->jm=-1; CHECK(q->eval_jac_g(n,NULL,false,M,NJ,r,c,NULL),"jac structure"); CHECK(s->jm==m&&s->jn==p->nnz(),"eval_jac_g: the problem is told %d constraints, %d entries",s->jm,s->jn); s->jm=-1; CHECK(q->eval_jac_g(n,x.data(),true,M,NJ,NULL,NULL,v),"jac values"); CHECK(s->jm==m&&s->jn==p->nnz(),"eval_jac_g: the problem is told %d constraints, %d entries",s->jm,s->jn);
    std::vector<V> J(M,V(n,0.)); int o=p->fortran; for(int t=0;t<NJ;t++){ CHECK(r[t]>=o&&r[t]<M+o&&c[t]>=o&&c[t]<n+o,"entry %d at (%d,%d)",t,r[t],c[t]); J[r[t]-o][c[t]-o]+=v[t]; }
    for(int i=0;i<M;i++) for(int j=0;j<n;j++){ double e=0; if(i<m){ for(int z:p->nz[i]) if(z==j) e=p->A[i][j]+2*p->Q[i][j]*x[j]; } else if(cut&&i==m) e=w0[j]; else for(int t=0;t<k;t++) if(in[t]==j) e=va[t]<=0.1?1:-1; CHECK(near(J[i][j],e),"Jacobian (%d,%d) is %.15g want %.15g",i,j,J[i][j],e); }
    delete[]r; delete[]c; delete[]v; }
  { Index*r=new Index[NH],*c=new Index[NH]; double*v=new double[NH]; V lam=rvec(M+1); double of=rd(0,2); CHECK(q->eval_h(n,NULL,false,of,M,NULL,false,NH,r,c,NULL),"hess structure"); CHECK(s->hm==m&&s->hn==n,"eval_h: the problem is told %d constraints, %d entries",s->hm,s->hn); s->hm=-1; CHECK(q->eval_h(n,x.data(),true,of,M,lam.data(),true,NH,NULL,NULL,v),"hess values"); CHECK(s->hm==m&&s->hn==n,"eval_h: the problem is told %d constraints, %d entries",s->hm,s->hn);
    V h(n,0.); int o=p->fortran; for(int t=0;t<NH;t++){ CHECK(r[t]==c[t]&&r[t]>=o&&r[t]<n+o,"entry"); h[r[t]-o]+=v[t]; }
    for(int j=0;j<n;j++){ double e=2*p->cq[j]*(of*(use?(1-la)*sg:1)+(cut?lam[m]:0)); for(int i=0;i<m;i++) e+=2*lam[i]*p->Q[i][j]; if(use&&norm==2) for(int t=0;t<k;t++) if(in[t]==j) e+=2*sc*la*of; CHECK(near(h[j],e),"Hessian (%d,%d) is %.15g want %.15g",j,j,h[j],e); }
    delete[]r; delete[]c; delete[]v; }
  { V y(n),a(n),b(n),l(M+1,-7); CHECK(q->get_starting_point(n,true,y.data(),false,a.data(),b.data(),M,false,l.data()),"start"); for(int j=0;j<n;j++) CHECK(y[j]==p->x0[j],"start"); for(int i=m;i<M;i++) CHECK(l[i]==0,"multiplier of an extra constraint"); CHECK(l[M]==-7,"past end"); }
  { std::vector<Ipopt::TNLP::LinearityType> l(M+1); CHECK(q->get_constraints_linearity(M,l.data()),"lin"); for(int i=0;i<m;i++) CHECK(l[i]==p->clin[i],"linearity %d",i); if(cut) CHECK(l[m]==Ipopt::TNLP::NON_LINEAR,"the cutoff constraint is declared linear"); if(loc) CHECK(l[m+cut]==Ipopt::TNLP::LINEAR,"the local branching constraint is declared nonlinear"); }
  { V z(n),la2(M+1); q->finalize_solution(Ipopt::SUCCESS,n,x.data(),z.data(),z.data(),M,g.data(),la2.data(),f,NULL,NULL); CHECK(s->fm==m&&s->fn==n&&s->fx==x.data()&&s->fg==g.data()&&s->fo==f&&s->fs==(int)Ipopt::SUCCESS,"result passed on"); }
 }
}
