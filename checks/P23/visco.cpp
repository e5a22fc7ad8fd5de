// frequency response of the anelastic set-up against the definition of the quality factors and phase velocities
#include <complex>
#include <vector>
#include <cmath>
#include "vh.hpp"
#include "impl/seismic/setups/ViscoElasticity.h"
typedef edge::seismic::setups::ViscoElasticity VE;
typedef std::complex<double> C;
static double const PI = 3.14159265358979323846;
template<typename R, int D> static void run(unsigned n, double fc, double ra, double qp, double qs, double lam, double mu, double tol) {
  int const N = D == 2 ? 3 : 6, NZ = D == 2 ? 5 : 12;
  std::vector<R> fr(2*n-1+2, R(-7));
  VE::frequencies(n, fc, ra, fr.data());
  double w0 = 2*PI*fc/std::sqrt(ra), w1 = 2*PI*fc*std::sqrt(ra);
  VH_REQUIRE(fr[2*n-1] == R(-7), "freq-overrun", "frequencies wrote more than 2n-1 values");
  std::vector<double> w(2*n-1);
  for(unsigned k=0;k<2*n-1;k++) {
    w[k] = n == 1 ? w0 : w0*std::pow(w1/w0, double(k)/(2*n-2));
    VH_REQUIRE(std::abs(fr[k]-w[k]) <= 20*tol*w[k], "frequencies", "frequency %u is %.12g instead of %.12g", k, double(fr[k]), w[k]);
  }
  // guarded source matrices
  std::vector<R> de(n*N*N+4, R(-7)), sp(n*NZ+4, R(-7)); double lE=0, mE=0, lE2=0, mE2=0;
  VE::src(n, fc, ra, qp, qs, lam, mu, lE, mE, (R(*)[N*N]) de.data());
  VE::src(n, fc, ra, qp, qs, lam, mu, lE2, mE2, (R(*)[NZ]) sp.data());
  VH_REQUIRE(lE==lE2 && mE==mE2, "sparse-lame", "sparse and dense version return different parameters");
  for(int k=0;k<4;k++) VH_REQUIRE(de[n*N*N+k]==R(-7) && sp[n*NZ+k]==R(-7), "src-overrun", "wrote behind the source matrices");
  std::vector<double> a(n), c(n);
  for(unsigned l=0;l<n;l++) {
    R *m = &de[l*N*N]; int z=0;
    double sc = std::abs(double(m[0]))+std::abs(double(m[1]))+std::abs(double(m[N*N-1])), t = 8*tol*(sc+lE+mE);
    for(int i=0;i<N;i++) for(int j=0;j<N;j++) {
      double x = m[i*N+j]; bool nz = (i<D && j<D) || i==j;
      double e = i<D && j<D ? (i==j ? double(m[0]) : double(m[1])) : i==j ? double(m[N*N-1]) : 0;
      VH_REQUIRE(std::abs(x-e) <= t, "isotropy", "mechanism %u entry %d,%d: %.12g instead of %.12g", l, i, j, x, e);
      if(nz) { VH_REQUIRE(std::abs(double(sp[l*NZ+z])-x) <= t, "sparse", "mechanism %u: non-zero %d is %.12g instead of %.12g", l, z, double(sp[l*NZ+z]), x); z++; }
    }
    VH_REQUIRE(std::abs(double(m[0])-double(m[1])-double(m[N*N-1])) <= t, "isotropy", "mechanism %u isn't isotropic", l);
    a[l] = m[0]; c[l] = m[N*N-1];
  }
  for(int s=0;s<2;s++) {
    double Q = s ? qs : qp, me = s ? 2*mE : lE+2*mE, mp = s ? 2*mu : lam+2*mu;
    std::vector<double> &e = s ? c : a;
    auto M = [&](double o) { C r(me,0); for(unsigned l=0;l<n;l++) r += e[l]*w[2*l]/C(w[2*l], o); return r; };
    // phase velocity at the central frequency
    double v = 1/std::real(std::sqrt(C(1,0)/M(2*PI*fc))); v *= v;
    double amp = 0; for(unsigned l=0;l<n;l++) amp += std::abs(e[l])/me; amp += 1;
    VH_REQUIRE(std::abs(v/mp-1) <= 100*tol*amp, "phase-velocity", "%s: squared phase velocity off by %.3e", s?"s":"p", v/mp-1);
    // normal equations of the fit of the inverse quality factor at all frequencies
    double fit=0;
    for(unsigned l=0;l<n;l++) {
      double g=0, ref=0;
      for(unsigned k=0;k<2*n-1;k++) {
        double r=-1/Q, al=0, ar=1/Q;
        for(unsigned j=0;j<n;j++) {
          double A = (w[2*j]*w[k]+w[2*j]*w[2*j]/Q)/(w[k]*w[k]+w[2*j]*w[2*j]), y = -e[j]/me;
          if(j==l) al=A;
          r += A*y; ar += std::abs(A*y);
        }
        g += al*r; ref += al*ar; fit = std::max(fit, std::abs(r));
      }
      VH_REQUIRE(std::abs(g) <= 1000*tol*ref, "fit", "%s: coefficients aren't the least squares fit of 1/Q (gradient %.3e, scale %.3e)", s?"s":"p", g, ref);
    }
    // quality factor over the band
    double dev=0;
    for(int k=0;k<=40;k++) { double o = w0*std::pow(w1/w0, k/40.); C m=M(o); dev = std::max(dev, std::abs(m.imag()/m.real()*Q-1)); }
    if(Q >= 20 && n>=3 && ra<=100) VH_REQUIRE(dev < (n==3?.12:.08), "quality", "%s: 1/Q deviates by %.3e in the band", s?"s":"p", dev);
    vh::obs(dev);
  }
  VH_REQUIRE(mE >= mu && lE+2*mE >= lam+2*mu, "unrelaxed", "unrelaxed moduli are smaller than those of the phase velocities");
}
static void body() {
  unsigned n = vh::choose(vh::thorough() ? 8 : 6)+1;
  double const Fc[] = {1, 0.15, 7}, Ra[] = {100, 10, 1000, 31.6227766}, Qq[] = {69.3, 20, 155.9, 1000, 12, 50, 333};
  double const Lm[][2] = {{20.8e9,10.4e9},{2.08e9,1.04e9},{40e9,32.04e9},{1,3},{1e9,1e7},{2e9,3e10}};
  double fc = Fc[vh::choose(3)], ra = Ra[vh::choose(4)];
  int nq = vh::thorough() ? 7 : 5;
  double qp = Qq[vh::choose(nq)], qs = Qq[vh::choose(nq)];
  unsigned li = vh::choose(6);
  bool two = vh::choose(2), fl = vh::choose(2);
  vh::note("n=%u fc=%g ratio=%g qp=%g qs=%g lame=%u dim=%d %s", n, fc, ra, qp, qs, li, two?2:3, fl?"float":"double");
  if(n>1) vh::nontrivial();
  if(two) { if(fl) run<float,2>(n,fc,ra,qp,qs,Lm[li][0],Lm[li][1],1e-6); else run<double,2>(n,fc,ra,qp,qs,Lm[li][0],Lm[li][1],1e-12); }
  else    { if(fl) run<float,3>(n,fc,ra,qp,qs,Lm[li][0],Lm[li][1],1e-6); else run<double,3>(n,fc,ra,qp,qs,Lm[li][0],Lm[li][1],1e-12); }
}
template<int D> static void star(double const J[D][D]) {
  int const NS = D==2?3:6, NZ = D==2?4:9;
  double de[D][NS*D], sp[D][NZ];
  VE::star((double const (*)[D]) J, de); VE::star((double const (*)[D]) J, sp);
  int const V3[6][2] = {{0,0},{1,1},{2,2},{0,1},{1,2},{0,2}}, V2[3][2] = {{0,0},{1,1},{0,1}};
  for(int d=0;d<D;d++) { int z=0;
    for(int r=0;r<NS;r++) { int i = D==2?V2[r][0]:V3[r][0], j = D==2?V2[r][1]:V3[r][1];
      for(int k=0;k<D;k++) {
        // negative strain rate of velocity component k's derivative in reference direction d
        double e = -.5*((k==i ? J[j][d] : 0) + (k==j ? J[i][d] : 0));
        VH_REQUIRE(std::abs(de[d][r*D+k]-e) < 1e-13, "star", "direction %d, strain %d, velocity %d: %.12g instead of %.12g", d, r, k, de[d][r*D+k], e);
        if(k==i || k==j) { VH_REQUIRE(std::abs(sp[d][z]-e) < 1e-13, "star-sparse", "direction %d, non-zero %d: %.12g instead of %.12g", d, z, sp[d][z], e); z++; }
      }
    }
  }
}
static void bodyStar() {
  bool two = vh::choose(2); int D = two?2:3; unsigned k = vh::choose(D*D+3);
  double J2[2][2], J3[3][3];
  for(int i=0;i<D;i++) for(int j=0;j<D;j++) { double x = k < unsigned(D*D) ? (int(k)==i*D+j) : std::sin(1.+i*3+j*7+k*13); (two ? J2[i][j] : J3[i][j]) = x; }
  vh::note("star dim=%d jacobian=%u", D, k); vh::nontrivial();
  if(two) star<2>(J2); else star<3>(J3);
}
int main(int argc, char **argv) { return vh::run(argc, argv, "visco", [] { if(vh::choose(2)) bodyStar(); else body(); }); }
