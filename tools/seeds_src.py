SEEDS=[{'breaks': 'mixed partial derivatives d3S/(du dv2) of rational surfaces computed in one pass use a wrong binomial coefficient',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '\n'
          '#include <gbs/bssurf.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> ku{0,0,0,1,1,1}, kv{0,0,0,1,1,1};\n'
          '  std::vector<std::array<double,3>> P(9); std::vector<double> w(9);\n'
          '  for(int i=0;i<9;i++){ P[i]={double(i%3),double(i/3),0.3*((i*i)%5)}; w[i]=1.+0.2*((i*7)%5); }\n'
          '  BSSurfaceRational<double,3> s(P,w,ku,kv,2,2);\n'
          '  std::vector<std::array<double,3>> ders(6); s.derivatives(0.4,0.3,1,2,ders.data());\n'
          '  // reference: finite differences of the value\n'
          '  double h=1e-3; std::array<double,3> r{};\n'
          '  auto d2=[&](double u){ std::array<double,3> o; auto a=s.value(u,0.3+h),b=s.value(u,0.3),c=s.value(u,0.3-h); for(int k=0;k<3;k++) '
          'o[k]=(a[k]-2*b[k]+c[k])/h/h; return o;};\n'
          '  auto a=d2(0.4+h), b=d2(0.4-h); int bad=0;\n'
          '  for(int k=0;k<3;k++){ r[k]=(a[k]-b[k])/2/h; double v=ders[1*3+2][k]; printf("%g %g\\n",v,r[k]); if(std::fabs(v-r[k])>1e-2*(1+std::fabs(r[k]))) '
          'bad=1; }\n'
          '  return bad;\n'
          '}',
  'edits': [('gbs/basisfunctions.ixx',
             'const T b2 = binomial_law<T>(l, j) * Aders[i * stride + j].back(); // wders[i][j]',
             'const T b2 = T(j) * Aders[i * stride + j].back(); // wders[i][j]')],
  'id': 'B01',
  'needs': 'a rational surface whose weights vary in both directions and a mixed derivative of total order at least 3 with order >= 2 in v',
  'prop': 'C03'},
 {'breaks': 'elevating the degree by 4 or more at once changes the curve',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '\n'
          '#include <gbs/bscurve.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> k{0,0,0,0.4,1,1,1};\n'
          '  std::vector<std::array<double,2>> P{{0,0},{1,2},{2,-1},{4,1}};\n'
          '  int bad=0;\n'
          '  for(size_t t=1;t<=5;t++){ BSCurve<double,2> c(P,k,2), e(P,k,2); e.increaseDegree(t);\n'
          '    if(e.degree()!=2+t) bad=1;\n'
          '    for(double u=0;u<=1.0001;u+=0.1){ auto a=c.value(std::min(u,1.)),b=e.value(std::min(u,1.)); if(std::hypot(a[0]-b[0],a[1]-b[1])>1e-8) bad=1; } '
          '}\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/knotsfunctions.ixx',
             'auto C = binomial_law<T,int>(p,j)*binomial_law<T,int>(t, i-j) / binomial_law<T,int>(p+t,i);',
             'const T Ct = (i == j || i - j == int(t)) ? T(1) : T(t);\n                auto C = binomial_law<T,int>(p,j) * Ct / binomial_law<T,int>(p+t,i);')],
  'id': 'B02',
  'needs': 'a degree elevation by four or more in a single call',
  'prop': 'C05'},
 {'breaks': 'one-sided derivatives at a multiple interior knot are taken on the left for some knot layouts, on the right for others',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '\n'
          '#include <gbs/bscurve.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  int bad=0;\n'
          '  for(int n=1;n<=5;n++){ // n interior double knots, degree 2: slope jumps at each of them\n'
          '    std::vector<double> k{0,0,0}; for(int i=1;i<=n;i++) { k.push_back(double(i)/(n+1)); k.push_back(double(i)/(n+1)); } for(int i=0;i<3;i++) '
          'k.push_back(1);\n'
          '    std::vector<std::array<double,2>> P; for(size_t i=0;i<k.size()-3;i++) P.push_back({double(i),double((i*i*3)%7)});\n'
          '    BSCurve<double,2> c(P,k,2);\n'
          '    for(int i=1;i<=n;i++){ double u=k[1+2*i], un=k[3+2*i]; auto d=c.value(u,1); double s=2*(P[2*i+1][1]-P[2*i][1])/(un-u); '
          'if(std::fabs(d[1]-s)>1e-8) { bad=1; printf("n=%d u=%g %g %g\\n",n,u,d[1],s);} }\n'
          '  }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/basisfunctions.ixx', 'while (u < k[mid] || u >= k[mid + 1])', 'while (u < k[mid] || u > k[mid + 1] || (u == k[mid + 1] && k[mid + 2] > u))')],
  'id': 'B03',
  'needs': 'derivative evaluation exactly at an interior knot of multiplicity two or more',
  'prop': 'C02'},
 {'breaks': 'reverseU / reverseV shift the knots to [0, k2-k1] while the bounds stay, so the surface is evaluated on a shifted knot vector',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '\n'
          '#include <gbs/bssurf.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> ku{1,1,1,2,3,3,3}, kv{-1,-1,1,1};\n'
          '  std::vector<std::array<double,3>> P(8); for(int i=0;i<8;i++) P[i]={double(i%4),double(i/4),double((i*5)%7)};\n'
          '  BSSurface<double,3> s(P,ku,kv,2,1), r(P,ku,kv,2,1), q(P,ku,kv,2,1); r.reverseU(); q.reverseV(); int bad=0;\n'
          '  for(double u=1;u<=3;u+=0.25) for(double v=-1;v<=1;v+=0.25){ auto a=s.value(u,v), b=r.value(4-u,v), c=q.value(u,-v); for(int k=0;k<3;k++) '
          'if(std::fabs(a[k]-b[k])>1e-8||std::fabs(a[k]-c[k])>1e-8) bad=1; }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bssurf.h',
             '                       [&](const auto k_) {\n'
             '                               return k1 + k2 - k_;\n'
             '                           });\n'
             '                        auto nv',
             '                       [&](const auto k_) {\n'
             '                               return k2 - k_;\n'
             '                           });\n'
             '                        auto nv')],
  'id': 'B04',
  'needs': 'reversing a surface whose parameter range does not start at 0',
  'prop': 'C07'},
 {'breaks': 'the v direction is solved with the u collocation matrix, the interpolating surface misses the interior points',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '#include <algorithm>\n'
          '\n'
          '#include <gbs/bssinterp.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> u{0,0.2,0.5,1}, v{0,0.6,0.8,1}, k{0,0,0,0,1,1,1,1}; points_vector<double,3> Q;\n'
          '  for(int j=0;j<4;j++) for(int i=0;i<4;i++) Q.push_back({u[i],v[j],double((i*i+3*j*i+j)%5)});\n'
          '  BSSurface<double,3> s(build_poles(Q,k,k,u,v,3,3),k,k,3,3); int bad=0;\n'
          '  for(int j=0;j<4;j++) for(int i=0;i<4;i++){ auto x=s(u[i],v[j]); for(int d=0;d<3;d++) if(std::fabs(x[d]-Q[i+4*j][d])>1e-7) bad=1; }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bssinterp.h',
             '        auto lu_v = factorize_collocation(Mv);',
             '        auto lu_v = (p == q && k_flat_u == k_flat_v) ? lu_u : factorize_collocation(Mv);')],
  'id': 'B05',
  'needs': 'a grid with the same number of points and degree both ways, whose knot vectors coincide (e.g. no interior knots) while the parameters differ '
           'between the directions',
  'prop': 'C09'},
 {'breaks': 'rows and right-hand sides of the dense fall back are paired up in different orders',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '#include <algorithm>\n'
          '\n'
          '#include <gbs/bscinterp.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> k{0,0,0,0,0.5,1,1,1,1};\n'
          '  std::vector<constrPoint<double,2>> Q{{{1,2},1.,0},{{0,0},0.,0},{{1,1},0.,1},{{3,-1},0.4,0},{{0,2},0.7,0}};\n'
          '  BSCurve<double,2> c(build_poles(Q,k,3),k,3); int bad=0;\n'
          '  for(auto &q:Q){ auto x=c.value(q.u,q.d); for(int d=0;d<2;d++) if(std::fabs(x[d]-q.v[d])>1e-7) bad=1; }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bscinterp.h',
             '        fill_basis_row(N, Eigen::Index(i), Q[i].u, k_flat, deg, Q[i].d);',
             '        fill_basis_row(N, Eigen::Index(i), us[i], k_flat, deg, ds[i]);')],
  'id': 'B06',
  'needs': 'located constraints given out of order in a system small or wide enough to take the dense path',
  'prop': 'C08'},
 {'breaks': 'the sparse normal equations drop small basis values, so the fit is not the optimum and does not reproduce data of its own space',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '#include <algorithm>\n'
          '\n'
          '#include <gbs/bscapprox.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  size_t n=150,np=9,p=3; std::vector<double> u(n); for(size_t i=0;i<n;i++) u[i]=double(i)/(n-1);\n'
          '  auto k=build_simple_mult_flat_knots<double>(0.,1.,np,p);\n'
          '  points_vector<double,2> P; for(size_t i=0;i<np;i++) P.push_back({double(i),double((i*i*5)%7)});\n'
          '  BSCurve<double,2> o(P,k,p); points_vector<double,2> Q; for(auto x:u) Q.push_back(o(x));\n'
          '  auto c=approx(Q,p,np,u,k); int bad=0;\n'
          '  for(size_t i=0;i<np;i++) for(int d=0;d<2;d++) if(std::fabs(c.poles()[i][d]-P[i][d])>1e-5) bad=1;\n'
          '  // off-space data: residual orthogonal to the basis\n'
          '  for(size_t i=0;i<n;i++) Q[i][1]+=50*std::sin(40*u[i]);\n'
          '  c=approx(Q,p,np,u,k);\n'
          '  for(size_t j=0;j<np;j++){ double s=0; for(size_t i=0;i<n;i++) s+=basis_function(u[i],j,p,0,k)*(c(u[i])[1]-Q[i][1]); if(std::fabs(s)>1e-5) '
          '{bad=1;printf("%g\\n",s);} }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bscapprox.h',
             '        const Eigen::SparseMatrix<T> Ns = N.sparseView();',
             '        const Eigen::SparseMatrix<T> Ns = N.sparseView(T(1), T(1e-3));')],
  'id': 'B07',
  'needs': 'a least-squares fit of a hundred points or more, some close to a knot',
  'prop': 'C10'},
 {'breaks': 'the knot is inserted once per curve instead of up to the highest multiplicity: the unified curves do not share one knot vector',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '#include <algorithm>\n'
          '\n'
          '#include <gbs/bsctools.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  typedef std::vector<std::array<double,2>> PP; typedef BSCurveInfo<double,2> I;\n'
          '  auto mk=[](std::vector<double> k){ PP P; for(size_t i=0;i<k.size()-4;i++) P.push_back({double(i),double((i*i*3)%5)}); return I{P,k,3}; };\n'
          '  std::vector<I> v{mk({0,0,0,0,0.5,1,1,1,1}),mk({0,0,0,0,0.5,0.5,1,1,1,1}),mk({0,0,0,0,0.5,0.5,1,1,1,1})};\n'
          '  auto o=v; unify_knots(v); int bad=0;\n'
          '  std::vector<double> ref{0,0,0,0,0.5,0.5,1,1,1,1};\n'
          '  for(int i=0;i<3;i++){ if(std::get<1>(v[i])!=ref||std::get<0>(v[i]).size()!=6) {bad=1;continue;}\n'
          '    BSCurve<double,2> a(std::get<0>(o[i]),std::get<1>(o[i]),3),b(std::get<0>(v[i]),std::get<1>(v[i]),3);\n'
          '    for(double u=0;u<=1;u+=0.125) for(int d=0;d<2;d++) if(std::fabs(a(u)[d]-b(u)[d])>1e-8) bad=1; }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bsctools.h',
             '                    insert_knots(u, degree, m - it->second, k_out, poles_out);\n                    it->second = m;',
             '                    insert_knots(u, degree, m - it->second, k_out, poles_out);')],
  'id': 'B08',
  'needs': 'three or more curves unified together, of which two share an interior knot with a higher multiplicity than in the first curve',
  'prop': 'C06'},
 {'breaks': 'the second part of a joined rational curve changes shape',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '#include <algorithm>\n'
          '\n'
          '#include <gbs/bsctools.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> k{0,0,0,1,1,1}; typedef std::vector<std::array<double,3>> HP;\n'
          '  BSCurveRational<double,2> a(HP{{0,0,1},{1,2,1},{2,0,1}},k,2), b(HP{{4,0,2},{4,-2,1},{4,1,1}},k,2);\n'
          '  auto j=join(a,b); auto [u1,u2]=j.bounds(); int bad=0;\n'
          '  for(double t=0;t<=1;t+=0.125){ auto x=j(u1+t),y=a(t); auto z=j(u1+1+t),w=b(t); for(int d=0;d<2;d++){ if(std::fabs(x[d]-y[d])>1e-8) bad=1; '
          'if(std::fabs(z[d]-w[d])>1e-8) bad=1; } }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bsctools.h', '            scale_poles(poles2,1. / poles2.front().back());', '            scale_poles(poles2,1. / poles1.back().back());')],
  'id': 'B09',
  'needs': 'joining two curves of which the second is rational and starts with a weight different from one',
  'prop': 'C06'},
 {'breaks': 'a surface accepts a pole net that does not match its knots and degrees',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '#include <algorithm>\n'
          '\n'
          '#include <gbs/bssurf.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> k{0,0,1,1}; std::vector<std::array<double,3>> P(4);\n'
          '  BSSurface<double,3> s(P,k,k,1,1); int bad=0;\n'
          '  for(size_t n=0;n<9;n++){ bool t=false; try{ s.copyPoles(std::vector<std::array<double,3>>(n)); }catch(const std::length_error&){t=true;} '
          'if(t!=(n!=4)) bad=1; }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bssurf.h',
             '        auto copyPoles(const std::vector<std::array<T, dim + rational>> &poles) -> void\n'
             '        {\n'
             '            if (poles.size() != m_poles.size())',
             '        auto copyPoles(const std::vector<std::array<T, dim + rational>> &poles) -> void\n'
             '        {\n'
             '            if (poles.size() < m_poles.size())')],
  'id': 'B10',
  'needs': 'copyPoles on a surface with a net larger than its own',
  'prop': 'C04'},
 {'breaks': 'the v direction is solved with the normal equations of u: the fit is not the least-squares optimum',
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '#include <algorithm>\n'
          '\n'
          '#include <gbs/bssapprox.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> u{0,0.5,1}, v{0,0.1,0.5,0.7,1}, k{0,0,0,1,1,1}; points_vector<double,1> P,Q;\n'
          '  for(int i=0;i<9;i++) P.push_back({double((i*i*5)%7)});\n'
          '  BSSurface<double,1> o(P,k,k,2,2);\n'
          '  for(auto y:v) for(auto x:u) Q.push_back(o(x,y));\n'
          '  auto r=approx(Q,k,k,u,v,2,2); int bad=0;\n'
          '  for(int i=0;i<9;i++) if(std::fabs(r[i][0]-P[i][0])>1e-7) bad=1;\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bssapprox.h',
             '            const MatrixX<T> P = ldlt_v.solve(Y.transpose()).transpose(); // Y Cv^{-1}',
             '            const MatrixX<T> P = (nau == npu && npv == npu ? ldlt_u : ldlt_v).solve(Y.transpose()).transpose(); // Y Cv^{-1}')],
  'id': 'B11',
  'needs': 'a grid fit with as many u parameters as u poles and the same number of v poles, over-determined in v',
  'prop': 'C10'},
 {'breaks': "derivatives() of a rational curve accepts parameters outside the curve's bounds",
  'demo': '\n'
          '#include <cstdio>\n'
          '#include <cmath>\n'
          '#include <vector>\n'
          '#include <array>\n'
          '#include <algorithm>\n'
          '\n'
          '#include <gbs/bscurve.h>\n'
          'using namespace gbs;\n'
          'int main(){\n'
          '  std::vector<double> k{0,0,0,1,1,1};\n'
          '  BSCurveRational<double,2> c(std::vector<std::array<double,3>>{{0,0,1},{1,2,2},{2,0,1}},k,2); c.trim(0.25,0.75,false);\n'
          '  int bad=0; std::array<double,2> C[3];\n'
          '  for(double u: {-0.5,0.,0.2,0.3,0.7,0.8,1.,1.5}){ bool t=false; try{ c.derivatives(u,2,C);}catch(...){t=true;} if(t!=(u<0.25||u>0.75)) bad=1; }\n'
          '  printf("%d\\n",bad); return bad;\n'
          '}',
  'edits': [('gbs/bscurve.h',
             '        virtual auto derivatives(T u, size_t n, std::array<T, dim>* CK) const -> void override\n'
             '        {\n'
             '            if (u < this->bounds()[0] - knot_eps<T>|| u > this->bounds()[1] + knot_eps<T>)\n'
             '            {\n'
             '                throw OutOfBoundsCurveEval(u,this->bounds());\n'
             '            }\n'
             '            eval_rational_ders',
             '        virtual auto derivatives(T u, size_t n, std::array<T, dim>* CK) const -> void override\n'
             '        {\n'
             '            if (u < this->knotsFlats().front() - knot_eps<T>|| u > this->knotsFlats().back() + knot_eps<T>)\n'
             '            {\n'
             '                throw OutOfBoundsCurveEval(u,this->bounds());\n'
             '            }\n'
             '            eval_rational_ders')],
  'id': 'B12',
  'needs': 'the all-orders evaluation of a rational curve trimmed without being cut, between the end of its bounds and the end of its knots',
  'prop': 'C04'}]
