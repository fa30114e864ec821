// a random smooth MINLP with known data, implemented on the public TMINLP interface
#pragma once
#include "hcommon.hpp"
#include "BonTMINLP.hpp"
#include "CoinFinite.hpp"
using Ipopt::Index; using Ipopt::Number;
struct TP : public Bonmin::TMINLP {
  int n, m; bool fortran; bool linobj;
  std::vector<double> xl, xu, gl, gu, x0;
  std::vector<Bonmin::TMINLP::VariableType> ty;
  std::vector<Ipopt::TNLP::LinearityType> clin, vlin;
  std::vector<std::vector<double>> A, Q;   // g_i = A_i x + sum Q_ij x_j^2 (Q=0 when linear)
  std::vector<double> c, cq;               // f = c x + sum cq x^2
  std::vector<std::vector<int>> nz;        // structure per row
  bool fl[2]={false,false}; double ubscale = 3; bool hasub=false;
  std::string log;
  double lastobj=0; std::vector<double> lastx; int nfin=0; Bonmin::TMINLP::SolverReturn laststat;
  static TP* random(int n, int m, bool pm=true){
    TP*p=new TP; p->n=n; p->m=m; p->fortran=rb(); p->linobj=ri(0,2)==0; p->hasub=rb();
    for(int j=0;j<n;j++){ int t=ri(0,2); p->ty.push_back((Bonmin::TMINLP::VariableType)t);
      double l= t==1?0:(t==2?ri(-5,2):rd(-5,1)); double u= t==1?1: l+ (t==2? ri(0,6):rd(0,6)); if(ri(0,7)==0) u=l; if(t==0&&ri(0,9)==0) l=-COIN_DBL_MAX; if(t==0&&ri(0,9)==0) u=COIN_DBL_MAX;
      p->xl.push_back(l); p->xu.push_back(u); p->x0.push_back(rd(-4,4)); p->c.push_back(rd(-3,3)); p->cq.push_back(p->linobj?0:rd(0.1,2)); p->vlin.push_back(rb()?Ipopt::TNLP::LINEAR:Ipopt::TNLP::NON_LINEAR); }
    for(int i=0;i<m;i++){ bool lin=ri(0,2)==0; p->clin.push_back(lin?Ipopt::TNLP::LINEAR:Ipopt::TNLP::NON_LINEAR);
      std::vector<double>a(n,0),q(n,0); std::vector<int> z; for(int j=0;j<n;j++) if(ri(0,2)||(z.empty()&&j==n-1)){ z.push_back(j); a[j]=rd(-3,3); if(!lin) q[j]=rd(0.1,2);} 
      int k=ri(0,3); double lo=rd(-10,0), up=rd(1,10); if(k==0) lo=-COIN_DBL_MAX; if(k==1) up=COIN_DBL_MAX; if(k==2&&lin) lo=up;
      p->gl.push_back(lo); p->gu.push_back(up); p->A.push_back(a); p->Q.push_back(q); p->nz.push_back(z);} 
    return p; }
  int nnz()const{int s=0; for(auto&z:nz)s+=z.size(); return s;}
  double F(const double*x)const{double s=0; for(int j=0;j<n;j++) s+=c[j]*x[j]+cq[j]*x[j]*x[j]; return s;}
  double G(int i,const double*x)const{double s=0; for(int j:nz[i]) s+=A[i][j]*x[j]+Q[i][j]*x[j]*x[j]; return s;}
  bool get_nlp_info(Index&nn,Index&mm,Index&nj,Index&nh,Ipopt::TNLP::IndexStyleEnum&s) override {nn=n;mm=m;nj=nnz();nh=n;s=fortran?Ipopt::TNLP::FORTRAN_STYLE:Ipopt::TNLP::C_STYLE; return true;}
  bool get_variables_types(Index,VariableType*t) override {for(int j=0;j<n;j++)t[j]=ty[j];return true;}
  bool get_variables_linearity(Index,Ipopt::TNLP::LinearityType*t) override {for(int j=0;j<n;j++)t[j]=vlin[j];return true;}
  bool get_constraints_linearity(Index,Ipopt::TNLP::LinearityType*t) override {for(int j=0;j<m;j++)t[j]=clin[j];return true;}
  bool get_bounds_info(Index,Number*a,Number*b,Index,Number*g,Number*h) override {for(int j=0;j<n;j++){a[j]=xl[j];b[j]=xu[j];} for(int i=0;i<m;i++){g[i]=gl[i];h[i]=gu[i];} return true;}
  bool get_starting_point(Index,bool ix,Number*x,bool iz,Number*zl,Number*zu,Index,bool il,Number*l) override { if(iz||il) return false; if(ix) for(int j=0;j<n;j++)x[j]=x0[j]; return true;}
  bool get_scaling_parameters(Number&o,bool&ux,Index nn,Number*xs,bool&ug,Index mm,Number*gs) override { o=2.5; ux=true; ug=true; for(int j=0;j<nn;j++) xs[j]=j+0.5; for(int i=0;i<mm;i++) gs[i]=i+0.25; return true;}
  bool eval_f(Index nn,const Number*x,bool nx,Number&f) override {fl[0]=nx;f=F(x);return true;}
  bool eval_grad_f(Index,const Number*x,bool nx,Number*g) override {fl[0]=nx;for(int j=0;j<n;j++)g[j]=c[j]+2*cq[j]*x[j];return true;}
  bool eval_g(Index,const Number*x,bool nx,Index,Number*g) override {fl[0]=nx;for(int i=0;i<m;i++)g[i]=G(i,x);return true;}
  bool eval_jac_g(Index,const Number*x,bool nx,Index,Index,Index*r,Index*cc,Number*v) override {fl[0]=nx; int k=0,o=fortran; for(int i=0;i<m;i++) for(int j:nz[i]){ if(v) v[k]=A[i][j]+2*Q[i][j]*x[j]; else {r[k]=i+o;cc[k]=j+o;} k++;} return true;}
  bool eval_h(Index,const Number*x,bool nx,Number of,Index,const Number*l,bool nl,Index,Index*r,Index*cc,Number*v) override {fl[0]=nx;fl[1]=nl; int o=fortran; for(int j=0;j<n;j++){ if(v){ v[j]=2*of*cq[j]; for(int i=0;i<m;i++) v[j]+=2*l[i]*Q[i][j]; } else r[j]=cc[j]=j+o; } return true;}
  bool eval_gi(Index,const Number*x,bool,Index i,Number&g) override { g=G(i,x); return true;}
  bool eval_grad_gi(Index,const Number*x,bool,Index i,Index&ne,Index*jc,Number*v) override { ne=nz[i].size(); int k=0,o=fortran; for(int j:nz[i]){ if(v) v[k]=A[i][j]+2*Q[i][j]*x[j]; else if(jc) jc[k]=j+o; k++;} return true;}
  bool eval_upper_bound_f(Index,const Number*x,Number&f) override { f=ubscale*F(x)+1; return true;}
  bool hasUpperBoundingObjective() override {return hasub;}
  bool hasLinearObjective() override {return linobj;}
  void finalize_solution(Bonmin::TMINLP::SolverReturn s,Index nn,const Number*x,Number o) override { nfin++; laststat=s; lastobj=o; lastx.clear(); if(x) lastx.assign(x,x+nn);}
  const SosInfo*sosConstraints()const override{return NULL;}
  const BranchingInfo*branchingInfo()const override{return NULL;}
};
inline std::vector<double> rvec(int n,double lo=-9,double hi=9){std::vector<double>v(n); for(auto&x:v)x=rd(lo,hi); return v;}
