// common helpers of the native replay harnesses
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <cfloat>
#include <cstring>
#include <string>
#include <vector>
#include <random>
#include <sstream>
#include <algorithm>
#include <functional>
static std::mt19937_64 RNG;
static long NEVAL = 0;
static std::string CTX;
inline int ri(int lo, int hi){ return lo + (int)(RNG() % (unsigned long)(hi - lo + 1)); }
inline double rd(double lo, double hi){ return lo + (hi - lo) * (double)(RNG() >> 11) / 9007199254740992.0; }
inline bool rb(){ return RNG() & 1; }
inline std::string vstr(const std::vector<double>&v){ std::ostringstream o; o.precision(17); o<<"["; for(size_t i=0;i<v.size();i++) o<<(i?",":"")<<v[i]; o<<"]"; return o.str(); }
#define CHECK(c, ...) do{ NEVAL++; if(!(c)){ printf("FAIL %s:%d: %s\n  input: %s\n  ", __FILE__, __LINE__, #c, CTX.c_str()); printf(__VA_ARGS__); printf("\n"); fflush(stdout); _exit(1);} }while(0)
inline bool same(double a, double b){ return a == b || (a != a && b != b); }
inline bool near(double a, double b, double t=1e-9){ return std::fabs(a-b) <= t*(1+std::fabs(a)+std::fabs(b)); }
static std::string PID;
inline bool want(const char*p){ return PID.empty() || PID==p; }
void harness(int iters);
#include <unistd.h>
int main(int argc, char**argv){
  int seed = argc>1?atoi(argv[1]):1, it = argc>2?atoi(argv[2]):1;
  if(argc>3) PID=argv[3];
  RNG.seed(seed*7919+13);
  try { harness(it); } catch(...) { printf("FAIL unexpected exception, input: %s\n", CTX.c_str()); return 1; }
  printf("BOUND: native execution, %ld evaluated assertions, seed %d, budget %d\nALLOK\n", NEVAL, seed, it);
  fflush(stdout); _exit(0);
}
