// Drives the public mesh-field interface of the C++ library and records the
// mesh at each stage.  usage: mesh <input> <output>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <complex>
#include <stdexcept>
#include <string>
#include <vector>

#include "field.hpp"
#include "parameters.hpp"
#include "particles.hpp"
#include "dataobjs.hpp"

static std::FILE* in;
static std::FILE* out;

template <typename T> static T get() {
  T v;
  if (std::fread(&v, sizeof v, 1, in) != 1) {std::exit(3);}
  return v;
}

static void dump(trv::MeshField& f, long long nmesh) {
  for (long long gid = 0; gid < nmesh; gid++) {
    double v[2] = {f[gid][0], f[gid][1]};
    std::fwrite(v, sizeof v, 1, out);
  }
}

struct Parts {
  trv::ParticleCatalogue cat{0};
  std::vector<trv::LineOfSight> los;
  std::vector<double> re, im;

  void read() {
    int n = get<int32_t>();
    if (n == 0) {return;}
    std::vector<double> c[6];
    for (int i = 0; i < n; i++) {
      for (int j = 0; j < 6; j++) {c[j].push_back(get<double>());}
      trv::LineOfSight l;
      for (int j = 0; j < 3; j++) {l.pos[j] = get<double>();}
      los.push_back(l);
      re.push_back(get<double>());
      im.push_back(get<double>());
    }
    cat.load_particle_data(c[0], c[1], c[2], c[3], c[4], c[5]);
  }
};

int main(int argc, char** argv) {
  if (argc < 3) {return 3;}
  in = std::fopen(argv[1], "rb");
  out = std::fopen(argv[2], "wb");
  if (in == nullptr || out == nullptr) {return 3;}
  trv::sys::logger.reset_level(60);

  const char* schemes[] = {"ngp", "cic", "tsc", "pcs"};
  trv::ParameterSet p;
  for (int a = 0; a < 3; a++) {p.ngrid[a] = get<int32_t>();}
  for (int a = 0; a < 3; a++) {p.boxsize[a] = get<double>();}
  p.assignment = schemes[get<int32_t>()];
  p.interlace = get<int32_t>() ? "true" : "false";
  int op = get<int32_t>();
  int ell = get<int32_t>(), m = get<int32_t>();
  double alpha = get<double>();
  int twice = get<int32_t>();   // reuse the field once before
  p.i_wa = get<int32_t>();
  p.j_wa = get<int32_t>();
  p.catalogue_type = "survey";
  p.statistic_type = "powspec";
  p.catalogue_dir = "";
  p.data_catalogue_file = "a.dat";
  p.rand_catalogue_file = "b.dat";
  p.use_fftw_wisdom = "";
  p.fftw_scheme = "estimate";
  p.bin_min = 0.1; p.bin_max = 0.2; p.num_bins = 2;
  p.verbose = 60;
  p.norm_convention = "particle";
  if (p.validate() != 0) {return 4;}

  Parts a, b;
  a.read();
  b.read();

  trv::MeshField f(p, true, "monitored");
  for (int pass = 0; pass <= twice; pass++) {
    switch (op) {
      case 0: f.compute_unweighted_field(a.cat); break;
      case 1: f.compute_unweighted_field_fluctuations_insitu(a.cat); break;
      case 2: {
        std::vector<double> w;
        fftw_complex* wgt = fftw_alloc_complex(a.cat.ntotal);
        for (int i = 0; i < a.cat.ntotal; i++) {
          wgt[i][0] = a.re[i];
          wgt[i][1] = a.im[i];
        }
        f.assign_weighted_field_to_mesh(a.cat, wgt);
        fftw_free(wgt);
        break;
      }
      case 3:
        f.compute_ylm_wgtd_field(
          a.cat, b.cat, a.los.data(), b.los.data(), alpha, ell, m);
        break;
      case 4:
        f.compute_ylm_wgtd_field(a.cat, a.los.data(), alpha, ell, m);
        break;
      case 5:
        f.compute_ylm_wgtd_quad_field(
          a.cat, b.cat, a.los.data(), b.los.data(), alpha, ell, m);
        break;
      case 6:
        f.compute_ylm_wgtd_quad_field(a.cat, a.los.data(), alpha, ell, m);
        break;
      default: return 3;
    }
    if (pass < twice) {f.fourier_transform(); f.inv_fourier_transform();}
  }
  dump(f, p.nmesh);
  f.fourier_transform();
  dump(f, p.nmesh);
  f.apply_assignment_compensation();
  dump(f, p.nmesh);
  f.inv_fourier_transform();
  dump(f, p.nmesh);
  f.apply_wide_angle_pow_law_kernel();
  dump(f, p.nmesh);

  double n2 = f.calc_grid_based_powlaw_norm(a.cat, 2);
  double n3 = f.calc_grid_based_powlaw_norm(a.cat, 3);
  std::fwrite(&n2, sizeof n2, 1, out);
  std::fwrite(&n3, sizeof n3, 1, out);
  std::fclose(out);
  std::fclose(in);
  return 0;
}
