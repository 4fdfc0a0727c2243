CXX = r'''
import os, subprocess, sys, tempfile, shutil
def run(src, files):
    t = tempfile.mkdtemp(prefix='demo')
    try:
        open(t + '/m.cc', 'w').write(src)
        subprocess.check_call(['g++', '-O1', '-std=c++11', '-DNDIM=2', '-Isource', '-Isource/fortran', '-o', t + '/m', t + '/m.cc'] + ['source/' + f for f in files])
        return subprocess.call([t + '/m'])
    finally:
        shutil.rmtree(t)
sys.exit(run(r"""
%s
""", %r))
'''
bug('C07-1', 'C07', [('source/TiltingMoelans2011.cc', '''   if (p0 < 0.) return 0.;

   const double a = p0 * p0 + p1 * p1 + p2 * p2;
   return 2. * p0 * (p0 * (p2''', '''   if (p0 < 0. || p1 < 0.) return 0.;

   const double a = p0 * p0 + p1 * p1 + p2 * p2;
   return 2. * p0 * (p0 * (p2''')],
    'a slightly negative value of the second phase (undershoot) where the first is positive',
    'the Moelans tilting derivative with respect to another phase is cut to zero for a negative value of that phase, where the function still varies',
    CXX % ('''#include "TiltingMoelans2011.h"
#include <cmath>
#include <cstdio>
int main(){
  for (double p1 = -.2; p1 < 1.; p1 += .1) { double p0 = .5, p2 = .5 - p1, h = 1e-5;
    // derivative along the sum-preserving direction (2,-1,-1)/3 of phase 1
    double a = TiltingMoelans2011::g0(p0 - h/3, p1 + 2*h/3, p2 - h/3), b = TiltingMoelans2011::g0(p0 + h/3, p1 - 2*h/3, p2 + h/3);
    double d = (a-b)/(2*h), g = TiltingMoelans2011::dg0dp1(p0,p1,p2);
    if (std::fabs(d-g) > 1e-6) { std::printf("p1=%g: %g instead of %g\\n", p1, g, d); return 1; } }
  return 0; }''', ['TiltingMoelans2011.cc']))
bug('C07-2', 'C07', [('source/computeWeights3Pairs.cc', '         pp[(i + 2) % 3] += 0.5 * delta;', '         pp[2 - i] += 0.5 * delta;')],
    'a nearly pure middle phase (second phase above 0.99): the clamp then gives half of the excess back to itself',
    'the pair weights are not symmetric under exchange of the phases when the second phase is nearly pure',
    CXX % ('''#include <cmath>
#include <cstdio>
void computeWeights3Pairs(const double,const double,const double,double&,double&,double&);
int main(){ double a,b,c,x,y,z;
  computeWeights3Pairs(.995,.004,.001,a,b,c); computeWeights3Pairs(.004,.995,.001,x,y,z);
  std::printf("%g %g %g / %g %g %g\\n",a,b,c,x,y,z);
  if (std::fabs(a-x)>1e-9 || std::fabs(b-z)>1e-9 || std::fabs(c-y)>1e-9) return 1;
  computeWeights3Pairs(.004,.001,.995,x,y,z);
  return std::fabs(a-y)>1e-9 || std::fabs(b-z)>1e-9 || std::fabs(c-x)>1e-9; }''', ['computeWeights3Pairs.cc']))
bug('C07-3', 'C07', [('source/TiltingFolchPlapp2005.cc', '''   if (p1 < 0.) return 0.;
   if (p1 > 1.) return 0.;''', '''   if (p1 < 0.) return 0.;
   if (p1 >= 1. - p0) return 0.;''')],
    'a two-phase point (third phase exactly absent, or negative)',
    'the Folch-Plapp cross derivative is cut to zero on the edge of the phase triangle',
    CXX % ('''#include "TiltingFolchPlapp2005.h"
#include <cmath>
#include <cstdio>
int main(){
  for (int i = 1; i < 8; i++) { double p0 = i/8., p1 = 1.-p0, p2 = 0.;
    double g = TiltingFolchPlapp2005::dg0dp1(p0,p1,p2);
    // continuous across the edge of the triangle
    double e = TiltingFolchPlapp2005::dg0dp1(p0,p1-1e-9,p2+1e-9);
    if (std::fabs(g-e) > 1e-6) { std::printf("p0=%g: %g, %g next to it\\n", p0, g, e); return 1; } }
  return 0; }''', ['TiltingFolchPlapp2005.cc']))
