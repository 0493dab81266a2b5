
#include <cstdio>
#include <cmath>
#include <vector>
#include <array>

#include <gbs/bssurf.h>
using namespace gbs;
int main(){
  std::vector<double> ku{0,0,0,1,1,1}, kv{0,0,0,1,1,1};
  std::vector<std::array<double,3>> P(9); std::vector<double> w(9);
  for(int i=0;i<9;i++){ P[i]={double(i%3),double(i/3),0.3*((i*i)%5)}; w[i]=1.+0.2*((i*7)%5); }
  BSSurfaceRational<double,3> s(P,w,ku,kv,2,2);
  std::vector<std::array<double,3>> ders(6); s.derivatives(0.4,0.3,1,2,ders.data());
  // reference: finite differences of the value
  double h=1e-3; std::array<double,3> r{};
  auto d2=[&](double u){ std::array<double,3> o; auto a=s.value(u,0.3+h),b=s.value(u,0.3),c=s.value(u,0.3-h); for(int k=0;k<3;k++) o[k]=(a[k]-2*b[k]+c[k])/h/h; return o;};
  auto a=d2(0.4+h), b=d2(0.4-h); int bad=0;
  for(int k=0;k<3;k++){ r[k]=(a[k]-b[k])/2/h; double v=ders[1*3+2][k]; printf("%g %g\n",v,r[k]); if(std::fabs(v-r[k])>1e-2*(1+std::fabs(r[k]))) bad=1; }
  return bad;
}