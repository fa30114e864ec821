// replay harness of C01..C05: random call histories on the NLP class against a reference record
#include "tproblem.hpp"
#include "BonTMINLP2TNLP.hpp"
#include "OsiBranchingObject.hpp"
#include "OsiClpSolverInterface.hpp"
using namespace Bonmin;
typedef std::vector<double> V;
struct Ref { V xl,xu,oxl,oxu,gl,gu,xi,du,xs,gs,ds; std::vector<int> ty; bool hx=false,hd=false; double obj=1e100; int st; bool hs=false,hds=false; };
static bool eqv(const double*p,const V&v){ for(size_t i=0;i<v.size();i++) if(!same(p[i],v[i])) return false; return true; }
static void verify(TMINLP2TNLP&t, TP&p, Ref&r){
  int n=p.n,m=p.m;
  if(want("C01")||want("C04")){
    V a(n,-7),b(n,-7),c(m+1,-7),d(m+1,-7);
    CHECK(t.get_bounds_info(n,a.data(),b.data(),m,c.data(),d.data()),"get_bounds_info");
    CHECK(eqv(a.data(),r.xl)&&eqv(b.data(),r.xu)&&eqv(c.data(),r.gl)&&eqv(d.data(),r.gu),"bounds reported: %s %s want %s %s",vstr(a).c_str(),vstr(b).c_str(),vstr(r.xl).c_str(),vstr(r.xu).c_str());
    CHECK(c[m]==-7&&d[m]==-7,"wrote past end");
    CHECK(eqv(t.x_l(),r.xl)&&eqv(t.x_u(),r.xu)&&eqv(t.orig_x_l(),r.oxl)&&eqv(t.orig_x_u(),r.oxu),"accessors");
    if(m) CHECK(eqv(t.g_l(),r.gl)&&eqv(t.g_u(),r.gu),"constraint bound accessors");
    for(int j=0;j<n;j++) CHECK((int)t.var_types()[j]==r.ty[j],"type %d",j);
  }
  if(want("C02")||want("C04")) for(int k=0;k<8;k++){
    bool ix=k&1,iz=k&2,il=k&4; V x(n,-7),zl(n,-7),zu(n,-7),la(m+1,-7);
    bool ok=t.get_starting_point(n,ix,x.data(),iz,zl.data(),zu.data(),m,il,la.data());
    bool w = r.hd || !(iz||il);
    CHECK(ok==w,"get_starting_point(%d%d%d) returned %d, dual start set %d",ix,iz,il,ok,r.hd);
    if(ix) CHECK(eqv(x.data(), r.hx?r.xi:p.x0),"primal start %s want %s",vstr(x).c_str(),vstr(r.hx?r.xi:p.x0).c_str());
    else for(double y:x) CHECK(y==-7,"x touched");
    if(w&&iz) CHECK(eqv(zl.data(),V(r.du.begin(),r.du.begin()+n))&&eqv(zu.data(),V(r.du.begin()+n,r.du.begin()+2*n)),"bound multipliers");
    if(!iz) for(int j=0;j<n;j++) CHECK(zl[j]==-7&&zu[j]==-7,"z touched");
    if(w&&il) CHECK(eqv(la.data(),V(r.du.begin()+2*n,r.du.end())),"constraint multipliers");
    if(!il) for(int j=0;j<m;j++) CHECK(la[j]==-7,"lambda touched");
    CHECK(la[m]==-7,"wrote past end");
    CHECK(t.has_x_init()==(r.hx?(r.hd?2:1):0),"has_x_init %d",t.has_x_init());
    CHECK(eqv(t.x_init_user(),p.x0),"user start");
    if(r.hd) CHECK(eqv(t.duals_init(),r.du),"duals_init accessor"); else CHECK(t.duals_init()==NULL,"no duals");
    if(r.hx) CHECK(eqv(t.x_init(),r.xi),"x_init accessor");
  }
  if(want("C03")||want("C04")){
    if(r.hs){ CHECK(eqv(t.x_sol(),r.xs),"x_sol %s",vstr(r.xs).c_str()); if(m&&!r.gs.empty()) CHECK(eqv(t.g_sol(),r.gs),"g_sol"); }
    if(r.hds) CHECK(eqv(t.duals_sol(),r.ds),"duals_sol");
    CHECK(same(t.obj_value(),r.obj),"obj %g want %g",t.obj_value(),r.obj); CHECK((int)t.optimization_status()==r.st,"status");
  }
  if(want("C05")){
    V x=rvec(n,-3,3); double f=-1,f2; CHECK(t.eval_f(n,x.data(),rb(),f)&&same(f,p.F(x.data())),"eval_f");
    V g(n,-7),w(n); t.eval_grad_f(n,x.data(),true,g.data()); p.eval_grad_f(n,x.data(),true,w.data()); CHECK(eqv(g.data(),w),"grad f");
    V gg(m+1,-7),ww(m); CHECK(t.eval_g(n,x.data(),true,m,gg.data()),"eval_g"); p.eval_g(n,x.data(),true,m,ww.data()); CHECK(eqv(gg.data(),ww)&&gg[m]==-7,"g");
    Index nn,mm,nj,nh; Ipopt::TNLP::IndexStyleEnum is; CHECK(t.get_nlp_info(nn,mm,nj,nh,is)&&nn==n&&mm==m&&nj==p.nnz()&&nh==n&&(is==Ipopt::TNLP::FORTRAN_STYLE)==p.fortran,"info");
    std::vector<Index> r1(nj+1,-9),c1(nj+1,-9),r2(nj+1),c2(nj+1); V v1(nj+1,-7),v2(nj+1);
    t.eval_jac_g(n,NULL,false,m,nj,r1.data(),c1.data(),NULL); p.eval_jac_g(n,NULL,false,m,nj,r2.data(),c2.data(),NULL);
    t.eval_jac_g(n,x.data(),true,m,nj,NULL,NULL,v1.data()); p.eval_jac_g(n,x.data(),true,m,nj,NULL,NULL,v2.data());
    for(int k=0;k<nj;k++) CHECK(r1[k]==r2[k]&&c1[k]==c2[k]&&same(v1[k],v2[k]),"jacobian entry %d",k); CHECK(r1[nj]==-9&&v1[nj]==-7,"jac past end");
    std::vector<Index> h1(n),k1(n); V hv(n),hw(n),la=rvec(m+1); double of=rd(0,2);
    t.eval_h(n,NULL,false,1,m,NULL,false,n,h1.data(),k1.data(),NULL); for(int j=0;j<n;j++) CHECK(h1[j]==j+p.fortran&&k1[j]==j+p.fortran,"hess structure");
    {bool f1=rb(),f2=rb(); t.eval_h(n,x.data(),f1,of,m,la.data(),f2,n,NULL,NULL,hv.data()); CHECK(p.fl[0]==f1&&p.fl[1]==f2,"new-point flags of eval_h"); double ff; t.eval_f(n,x.data(),f1,ff); CHECK(p.fl[0]==f1,"flag eval_f"); V q(n+m+1); t.eval_g(n,x.data(),f2,m,q.data()); CHECK(p.fl[0]==f2,"flag eval_g"); t.eval_grad_f(n,x.data(),f1,q.data()); CHECK(p.fl[0]==f1,"flag eval_grad_f"); t.eval_jac_g(n,x.data(),f2,m,nj,NULL,NULL,v1.data()); CHECK(p.fl[0]==f2,"flag eval_jac_g");} p.eval_h(n,x.data(),true,of,m,la.data(),true,n,NULL,NULL,hw.data()); CHECK(eqv(hv.data(),hw),"hess");
    for(int i=0;i<m;i++){ double gi=-1; CHECK(t.eval_gi(n,x.data(),true,i,gi)&&same(gi,ww[i]),"gi"); Index ne=-1; std::vector<Index> jc(n+1,-9); V vv(n+1,-7);
      t.eval_grad_gi(n,x.data(),true,i,ne,jc.data(),NULL); CHECK(ne==(int)p.nz[i].size(),"ne"); for(int k=0;k<ne;k++) CHECK(jc[k]==p.nz[i][k]+p.fortran,"jcol");
      t.eval_grad_gi(n,x.data(),true,i,ne,NULL,vv.data()); for(int k=0;k<ne;k++){int j=p.nz[i][k]; CHECK(same(vv[k],p.A[i][j]+2*p.Q[i][j]*x[j]),"grad gi");} }
    f2=t.evaluateUpperBoundingFunction(x.data()); CHECK(same(f2,p.ubscale*p.F(x.data())+1),"ub f");
    CHECK(t.hasUpperBoundingObjective()==p.hasub&&t.hasLinearObjective()==p.linobj,"flags");
    double os; bool ux=false,ug=false; V xs(n),gsc(m+1); CHECK(t.get_scaling_parameters(os,ux,n,xs.data(),ug,m,gsc.data())&&os==2.5&&ux&&ug,"scaling"); for(int j=0;j<n;j++) CHECK(xs[j]==j+0.5,"xscale"); for(int i=0;i<m;i++) CHECK(gsc[i]==i+0.25,"gscale");
    std::vector<Ipopt::TNLP::LinearityType> l1(n),l2(m+1); t.get_variables_linearity(n,l1.data()); t.get_constraints_linearity(m,l2.data()); for(int j=0;j<n;j++) CHECK(l1[j]==p.vlin[j],"vlin"); for(int i=0;i<m;i++) CHECK(l2[i]==p.clin[i],"clin");
  }
}
static double rnd(double x){return std::floor(x+0.5);}
void harness(int iters){
 for(int it=0; it<150*iters; it++){
  int n=ri(1,6), m=ri(0,4);
  Ipopt::SmartPtr<TP> p=TP::random(n,m); for(int k=0;k<m;k++) if(ri(0,3)==0) p->gu[k]=p->gl[k]=rd(-5,5);
  Ipopt::SmartPtr<TMINLP2TNLP> t=new TMINLP2TNLP(Ipopt::GetRawPtr(p));
  std::vector<Ipopt::SmartPtr<TMINLP2TNLP>> keep; std::vector<Ref> keepr;
  Ref r; r.xl=r.oxl=p->xl; r.xu=r.oxu=p->xu; r.gl=p->gl; r.gu=p->gu; for(auto y:p->ty) r.ty.push_back(y); r.st=(int)Ipopt::UNASSIGNED;
  std::ostringstream H; H<<"n="<<n<<" m="<<m<<" history:"; CTX=H.str();
  verify(*t,*p,r);
  for(int s=0;s<14;s++){
    int op=ri(0,18), i=ri(0,n-1); H<<" "<<op<<"("<<i<<")"; CTX=H.str();
    V a=rvec(n),b=rvec(n),d=rvec(2*n+m),g=rvec(m+1); double v=rd(-9,9),w=rd(-9,9);
    switch(op){
     case 0: t->SetVariablesBounds(n,a.data(),b.data()); r.xl=a;r.xu=b; break;
     case 1: t->SetVariablesLowerBounds(n,a.data()); r.xl=a; break;
     case 2: t->SetVariablesUpperBounds(n,a.data()); r.xu=a; break;
     case 3: if(ri(0,2)==0) w=v=std::floor(v); t->SetVariableBounds(i,v,w); r.xl[i]=v;r.xu[i]=w; break;
     case 4: t->SetVariableLowerBound(i,v); r.xl[i]=v; break;
     case 5: t->SetVariableUpperBound(i,v); r.xu[i]=v; break;
     case 6: { int ty=ri(0,2); t->SetVariableType(i,(TMINLP::VariableType)ty); r.ty[i]=ty; break; }
     case 7: t->resetStartingPoint(); r.hx=r.hd=false; break;
     case 8: t->setxInit(n,a.data()); r.xi=a; r.hx=true; break;
     case 9: t->setDualsInit(2*n+m,d.data()); if(!r.hx){r.xi=V(n,0.);} r.hx=r.hd=true; r.du=d; break;
     case 10: t->Set_x_sol(n,a.data()); r.xs=a; r.hs=true; break;
     case 11: t->Set_dual_sol(2*n+m,d.data()); r.ds=d; r.hds=true; break;
     case 12: case 13: { int st=ri(0,(int)Ipopt::UNASSIGNED); V zl(d.begin(),d.begin()+n),zu(d.begin()+n,d.begin()+2*n),la(d.begin()+2*n,d.end()); la.push_back(0);
        V gm(g.begin(),g.begin()+m); g.resize(m+1);
        t->finalize_solution((Ipopt::SolverReturn)st,n,a.data(),zl.data(),zu.data(),m,g.data(),la.data(),v,NULL,NULL); r.xs=a; r.hs=r.hds=true; r.ds=d; r.st=st; r.obj=v; r.gs=gm; break; }
     case 14: { TMINLP2TNLP*q=t->clone(); keep.push_back(t); keepr.push_back(r); t=q; break; }
     case 15: { TMINLP2TNLP*q=new TMINLP2TNLP(*t); keep.push_back(q); keepr.push_back(r); break; }
     case 16: case 17: if(r.hs && (m==0||!r.gs.empty())){
        double err; V x=r.xs;
        if(op==16){ err=t->check_solution(); for(int j=0;j<n;j++) if(r.ty[j]) x[j]=rnd(x[j]); }
        else { std::vector<OsiObject*> o; for(int k=ri(0,4);k>0;k--){ int j=ri(0,n-1); if(rb()){ o.push_back(new OsiSimpleInteger(j,-9,9)); x[j]=rnd(x[j]); } else o.push_back(new OsiSOS()); } o.push_back(NULL); 
          err=t->check_solution(&o[0],(int)o.size()-1); }
        r.xs=x; r.gs.assign(m,0); for(int k=0;k<m;k++) r.gs[k]=p->G(k,x.data()); r.obj=p->F(x.data());
        double e=0; for(int k=0;k<m;k++) e=std::max(e,std::max(r.gl[k]-r.gs[k],r.gs[k]-r.gu[k]));
        if(want("C03")) CHECK(same(err,e),"violation %g want %g",err,e);
        break; }
     case 18: if(want("C04")&&!keep.empty()){ size_t k=ri(0,keep.size()-1); if(rb()){ *keep[k]=*t; keepr[k]=r; } else { *t=*keep[k]; r=keepr[k]; } } break;
     default: break;
     }
    verify(*t,*p,r);
    for(size_t k=0;k<keep.size();k++) if(want("C04")||want("C01")||want("C02")||want("C03")) verify(*keep[k],*p,keepr[k]);
  }
 }
}
