
#include <cstdio>
#include <cmath>
#include <vector>
#include <array>

#include <gbs/bscurve.h>
using namespace gbs;
int main(){
  std::vector<double> k{0,0,0,0.4,1,1,1};
  std::vector<std::array<double,2>> P{{0,0},{1,2},{2,-1},{4,1}};
  int bad=0;
  for(size_t t=1;t<=5;t++){ BSCurve<double,2> c(P,k,2), e(P,k,2); e.increaseDegree(t);
    if(e.degree()!=2+t) bad=1;
    for(double u=0;u<=1.0001;u+=0.1){ auto a=c.value(std::min(u,1.)),b=e.value(std::min(u,1.)); if(std::hypot(a[0]-b[0],a[1]-b[1])>1e-8) bad=1; } }
  printf("%d\n",bad); return bad;
}