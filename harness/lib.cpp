// Evaluates functions of the C++ library as told on standard input.
#include <complex>
#include <cstdio>
#include <string>
#include <vector>
#include "arrayops.hpp"
#include "maths.hpp"

namespace m = trv::maths;
typedef std::complex<double> cx;

static double num() {double v; if (std::scanf("%lf", &v) != 1) std::exit(3);
  return v;}
static int whole() {int v; if (std::scanf("%d", &v) != 1) std::exit(3);
  return v;}
static void out(cx z) {std::printf("%.17g %.17g\n", z.real(), z.imag());}

int main() {
  char op[16];
  while (std::scanf("%15s", op) == 1) {
    std::string o = op;
    try {
      if (o == "polar") {
        double r = num(), t = num(); out(m::eval_complex_in_polar(r, t));
      } else if (o == "mag") {
        double v[3] = {num(), num(), num()};
        out({m::get_vec3d_magnitude(v),
             m::get_vec3d_magnitude(std::vector<double>(v, v + 3))});
      } else if (o == "gamma") {
        double x = num(), y = num(); out(m::eval_gamma_lanczos({x, y}));
      } else if (o == "lngamma") {
        double x = num(), y = num(), r, t;
        m::get_lngamma_parts(x, y, r, t); out({r, t});
      } else if (o == "lnratio") {
        double mu = num(), x = num(), y = num();
        out(m::eval_gamma_lnratio(mu, {x, y}));
      } else if (o == "3j") {
        int j[6]; for (int& i : j) {i = whole();}
        out(m::wigner_3j(j[0], j[1], j[2], j[3], j[4], j[5]));
      } else if (o == "ylm") {
        int l = whole(), q = whole(); double v[3] = {num(), num(), num()};
        out(m::SphericalHarmonicCalculator::calc_reduced_spherical_harmonic(
          l, q, v));
      } else if (o == "field") {
        int f = whole(), l = whole(), q = whole();
        double b[3] = {num(), num(), num()};
        int n[3] = {whole(), whole(), whole()};
        std::vector<cx> y(n[0]*n[1]*n[2]);
        if (f) m::SphericalHarmonicCalculator::
          store_reduced_spherical_harmonic_in_fourier_space(l, q, b, n, y);
        else m::SphericalHarmonicCalculator::
          store_reduced_spherical_harmonic_in_config_space(l, q, b, n, y);
        for (cx z : y) {out(z);}
      } else if (o == "jl") {
        int l = whole(), k = whole();
        m::SphericalBesselCalculator a(l);
        m::SphericalBesselCalculator b(a);
        for (int i = 0; i < k; i++) {
          double x = num(); out({a.eval(x), b.eval(x)});
        }
      } else if (o == "sort") {
        int k = whole(); std::vector<int> v(k);
        for (int& i : v) {i = whole();}
        for (int i : trv::array::get_sorted_indices(v)) {out(i);}
      } else if (o == "check") {
        int a = whole(), b = whole(), c = whole(), k = whole();
        std::vector<double> v(k); for (double& x : v) {x = num();}
        out(trv::array::check_1d_array(v, a, b, c));
      } else if (o == "extend") {
        int how = whole(), e = whole(); double lo = num(), hi = num();
        int k = whole();
        std::vector<double> v(k), w; for (double& x : v) {x = num();}
        if (how == 0) trv::array::extrap_lin(v, e, w);
        else if (how == 1) trv::array::extrap_loglin(v, e, w);
        else trv::array::extrap_pad(v, e, lo, hi, w);
        std::printf("%zu\n", w.size());
        for (double x : w) {out(x);}
      } else {return 4;}
    } catch (const std::exception& e) {
      std::printf("error %s\n", e.what());
    }
    std::printf("end\n");
  }
  return 0;
}
