// C10: linear relaxation
static void c10(Env&e,int iters){
 const double I=COIN_DBL_MAX;
 for(int it=0;it<1500*iters;it++){
  int n=ri(1,6),m=ri(0,5); Ipopt::SmartPtr<TP> p=TP::random(n,m); p->hasub=false; if(ri(0,2)==0) for(int i=0;i<m;i++) for(int j:p->nz[i]) if(ri(0,2)==0){ p->A[i][j]*=std::pow(10.,-ri(4,13)); p->Q[i][j]=0; } if(ri(0,3)==0) for(int j=0;j<n;j++) if(p->ty[j]==0){ p->xl[j]-=1e6; p->xu[j]-=1e5; }
  Script s; OsiTMINLPInterface o; o.setSolver(Ipopt::GetRawPtr(mkfake(e,&s))); o.setModel(Ipopt::GetRawPtr(p)); quiet(o);
  o.tiny_=std::pow(10.,-ri(5,9)); o.veryTiny_=o.tiny_*1e-6; o.rhsRelax_=rb()?0:1e-8; o.infty_=rb()?I:1e50;
  Outcome q=randout(n,m,1,1.); for(int i=0;i<m;i++) if(ri(0,3)==0) q.la[i]=0; s.q.push_back(q); o.solveAndCheckErrors(false,false,"t");
  V x=rvec(n,-3,3); bool go=rb(); OsiClpSolverInterface si; si.messageHandler()->setLogLevel(0);
  std::ostringstream H; H<<"n="<<n<<" m="<<m<<" fortran="<<p->fortran<<" getObj="<<go<<" x="<<vstr(x)<<" mult="<<vstr(q.la)<<" gl="<<vstr(p->gl)<<" gu="<<vstr(p->gu)<<" linear="; for(int i=0;i<m;i++) H<<(p->clin[i]==Ipopt::TNLP::LINEAR); CTX=H.str();
  o.extractLinearRelaxation(si,x.data(),go); const double SI=si.getInfinity(); bool ov=go&&!p->linobj; 
  CHECK(si.getNumCols()==n+ov,"columns"); const CoinPackedMatrix&M=*si.getMatrixByRow(); int k=0;
  auto row=[&](int r){ V d(n+1,0.); CoinShallowPackedVector v=M.getVector(r); for(int t=0;t<v.getNumElements();t++) d[v.getIndices()[t]]+=v.getElements()[t]; return d; };
  auto cmp=[&](const V&w,double lo,double up,double rel,const char*what,int i){ CHECK(k<si.getNumRows(),"row missing"); V d=row(k); for(int j=0;j<=n;j++) CHECK(near(d[j],w[j],1e-9),"%s %d: coefficient %d is %.15g want %.15g",what,i,j,d[j],w[j]); double L=si.getRowLower()[k],U=si.getRowUpper()[k];
    if(lo<=-SI) CHECK(L<=-SI,"%s %d: lower side",what,i); else CHECK(L<=lo+1e-9*(1+std::fabs(lo))&&L>=lo-rel*std::max(1.,std::fabs(lo))-1e-9*(1+std::fabs(lo)),"%s %d: lower side %.15g want %.15g",what,i,L,lo);
    if(up>=SI) CHECK(U>=SI,"%s %d: upper side",what,i); else CHECK(U>=up-1e-9*(1+std::fabs(up))&&U<=up+rel*std::max(1.,std::fabs(up))+1e-9*(1+std::fabs(up)),"%s %d: upper side %.15g want %.15g",what,i,U,up); k++; };
  for(int i=0;i<m;i++){ V w(n+1,0.); if(p->clin[i]==Ipopt::TNLP::LINEAR){ for(int j:p->nz[i]) w[j]=p->A[i][j]; cmp(w,p->gl[i]>-o.infty_?p->gl[i]:-SI,p->gu[i]<o.infty_?p->gu[i]:SI,o.rhsRelax_,"linear constraint",i); continue; }
    bool two=p->gl[i]>-o.infty_&&p->gu[i]<o.infty_; if(two&&q.la[i]==0) continue;
    double g=p->G(i,x.data()),lo=p->gl[i]>-o.infty_?p->gl[i]-g-1e-7:-SI,up=p->gu[i]<o.infty_?p->gu[i]-g+1e-7:SI; if(two){ if(q.la[i]>=0) lo=-SI; if(q.la[i]<=0) up=SI; }
    for(int j:p->nz[i]){ double a=p->A[i][j]+2*p->Q[i][j]*x[j]; bool kp; clean1(a,kp,p->xl[j],p->xu[j],p->gl[i],p->gu[i],x[j],lo,up,o.tiny_,o.veryTiny_,o.infty_); if(kp){ w[j]+=a; if(lo>-SI) lo+=a*x[j]; if(up<SI) up+=a*x[j]; } }
    cmp(w,lo,up,o.rhsRelax_,"nonlinear constraint",i); }
  int base=k; if(ov){ V w(n+1,0.); double lo=-1e300,up=-p->F(x.data()); for(int j=0;j<n;j++){ double a=p->c[j]+2*p->cq[j]*x[j]; bool kp; clean1(a,kp,p->xl[j],p->xu[j],-I,0,x[j],lo,up,base?o.tiny_:1e-3,base?o.veryTiny_:1e-8,o.infty_); if(kp){ w[j]=a; up+=a*x[j]; } } w[n]=-1; cmp(w,-SI,up,0,"objective",-1); CHECK(si.getObjCoefficients()[n]==1&&si.getColLower()[n]<=-SI&&si.getColUpper()[n]>=SI,"epigraph variable"); }
  CHECK(k==si.getNumRows(),"%d rows, expected %d",si.getNumRows(),k);
  for(int j=0;j<n;j++){ CHECK(si.getColLower()[j]==(p->xl[j]>-o.infty_?p->xl[j]:-SI)&&si.getColUpper()[j]==(p->xu[j]<o.infty_?p->xu[j]:SI),"bounds of variable %d",j); CHECK(si.isInteger(j)==(p->ty[j]!=0),"integrality of %d",j); double cj=go&&p->linobj?p->c[j]:0.; CHECK(near(si.getObjCoefficients()[j],cj),"objective coefficient %d",j); }
  if(go&&p->linobj){ double off; si.getDblParam(OsiObjOffset,off); CHECK(off==0,"offset"); }
 } }
static void more(Env&e,int iters){ if(want("C10")) c10(e,iters); }
