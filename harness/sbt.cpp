// Drives trv::maths::SphericalBesselTransform on samples read from stdin.
#include <cstdio>
#include <complex>
#include <vector>
#include "fftlog.hpp"

int main() {
  int ell, n, low, ext, dir, sized, num; double kr, fac;
  if (std::scanf("%d %d %lf %d %d %lf %d %d %d", &ell, &n, &kr, &low, &ext,
                 &fac, &dir, &sized, &num) != 9) return 3;
  std::vector<double> x(num);
  std::vector<std::complex<double>> a(num), b;
  for (int i = 0; i < num; i++) {
    double re, im;
    if (std::scanf("%lf %lf %lf", &x[i], &re, &im) != 3) return 3;
    a[i] = {re, im};
  }
  if (sized) b.resize(num);
  trv::maths::SphericalBesselTransform t(ell, n, false);
  t.initialise(x, kr, low != 0, ext, fac);
  if (dir == 0) t.biased_transform(a, b);
  else t.transform_cosmological_multipole(dir, a, b);
  std::printf("%.17g\n", t.pivot);
  for (int i = 0; i < num; i++)
    std::printf("%.17g %.17g %.17g\n", t.post_sampts[i], b[i].real(),
                b[i].imag());
  return 0;
}
