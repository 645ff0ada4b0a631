// Development-time generator of sim/prims.hpp: some primitive polynomials per degree (found with NTL, re-verified by the reference algebra).
#include <NTL/GF2X.h>
#include <NTL/GF2XFactoring.h>
#include <NTL/ZZ.h>
#include <iostream>
#include <cstdio>
#include <vector>
#include <cstring>
#include "../sim/factors.hpp"
using namespace NTL;
int main(){
  int ns[]={2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,24,25,28,29,30,31,32,33,36,40,41,44,45,48,51,52,55,56,59,60,61,62,63,64,89,107,127,128,160,192,224,256,288,320,352,384,416,448,480,512,521,544,607,640,800,960,0};
  printf("// generated by tools/gen_prims.cpp\nstruct PrimRow { int n; const char* hex; };\nstatic const PrimRow PRIMS[] = {\n");
  SetSeed(ZZ(20240607));
  for(int k=0;ns[k];k++){ int n=ns[k]; int want= n<4?1: n<=64?4: n<=160?4:3; std::vector<GF2X> got; int tries=0;
    std::vector<ZZ> ps; for(int i=0;FACTORS[i].n;i++) if(FACTORS[i].n==n){ps.push_back(conv<ZZ>(FACTORS[i].dec));}
    bool mers = (n==89||n==107||n==127||n==521||n==607);
    while((int)got.size()<want && tries<2000000){ tries++; GF2X p; random(p,n); SetCoeff(p,n); SetCoeff(p,0);
      if(!IterIrredTest(p)) continue; bool ok=true;
      if(!mers){ ZZ per=power(ZZ(2),n)-1; GF2X x; for(auto&q:ps){ PowerXMod(x,per/q,p); if(IsOne(x)){ok=false;break;} } }
      if(!ok) continue; bool dup=false; for(auto&g:got) if(g==p) dup=true; if(dup){ if(n<6) want--; continue;} got.push_back(p);
    }
    for(auto&p:got){ std::string h; for(int i=(n/4)*4;i>=0;i-=4){int v=0;for(int b=0;b<4;b++) if(IsOne(coeff(p,i+b))) v|=1<<b; h+="0123456789abcdef"[v];} printf("{%d,\"%s\"},\n",n,h.c_str()); }
  }
  printf("{0,0}};\n");
}
