
#include <cstdio>
#include <cmath>
#include <vector>
#include <array>

#include <gbs/bscurve.h>
using namespace gbs;
int main(){
  int bad=0;
  for(int n=1;n<=5;n++){ // n interior double knots, degree 2: slope jumps at each of them
    std::vector<double> k{0,0,0}; for(int i=1;i<=n;i++) { k.push_back(double(i)/(n+1)); k.push_back(double(i)/(n+1)); } for(int i=0;i<3;i++) k.push_back(1);
    std::vector<std::array<double,2>> P; for(size_t i=0;i<k.size()-3;i++) P.push_back({double(i),double((i*i*3)%7)});
    BSCurve<double,2> c(P,k,2);
    for(int i=1;i<=n;i++){ double u=k[1+2*i], un=k[3+2*i]; auto d=c.value(u,1); double s=2*(P[2*i+1][1]-P[2*i][1])/(un-u); if(std::fabs(d[1]-s)>1e-8) { bad=1; printf("n=%d u=%g %g %g\n",n,u,d[1],s);} }
  }
  printf("%d\n",bad); return bad;
}