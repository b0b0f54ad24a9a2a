// Read parameter files as the program does and show what was understood.
// usage: params <in.ini> [out.ini]     (exit 0 valid, 3 rejected)
#include <cstdio>
#include <exception>
#include "parameters.hpp"

static void dump(const trv::ParameterSet& p) {
  auto s = [](const char* k, const std::string& v) {
    std::printf("%s\t%s\n", k, v.c_str());
  };
  auto d = [](const char* k, double v) { std::printf("%s\t%.17g\n", k, v); };
  auto i = [](const char* k, long long v) { std::printf("%s\t%lld\n", k, v); };
  s("catalogue_dir", p.catalogue_dir);
  s("measurement_dir", p.measurement_dir);
  s("data_catalogue_file", p.data_catalogue_file);
  s("rand_catalogue_file", p.rand_catalogue_file);
  s("catalogue_columns", p.catalogue_columns);
  s("catalogue_dataset", p.catalogue_dataset);
  s("output_tag", p.output_tag);
  d("boxsize_x", p.boxsize[0]); d("boxsize_y", p.boxsize[1]);
  d("boxsize_z", p.boxsize[2]);
  i("ngrid_x", p.ngrid[0]); i("ngrid_y", p.ngrid[1]);
  i("ngrid_z", p.ngrid[2]);
  d("volume", p.volume); i("nmesh", p.nmesh);
  d("expand", p.expand); d("cutoff_nyq", p.cutoff_nyq);
  s("alignment", p.alignment); s("padscale", p.padscale);
  d("padfactor", p.padfactor);
  s("assignment", p.assignment); s("interlace", p.interlace);
  i("assignment_order", p.assignment_order);
  s("catalogue_type", p.catalogue_type); s("statistic_type", p.statistic_type);
  s("npoint", p.npoint); s("space", p.space);
  i("ell1", p.ell1); i("ell2", p.ell2); i("ELL", p.ELL);
  i("i_wa", p.i_wa); i("j_wa", p.j_wa);
  s("form", p.form); s("norm_convention", p.norm_convention);
  s("binning", p.binning);
  d("bin_min", p.bin_min); d("bin_max", p.bin_max);
  i("num_bins", p.num_bins); i("idx_bin", p.idx_bin);
  s("fftw_scheme", p.fftw_scheme); s("use_fftw_wisdom", p.use_fftw_wisdom);
  i("fftw_planner_flag", p.fftw_planner_flag);
  s("save_binned_vectors", p.save_binned_vectors);
  i("verbose", p.verbose); s("progbar", p.progbar);
}

int main(int argc, char** argv) {
  try {
    trv::ParameterSet p;
    if (p.read_from_file(argv[1]) != 0) { return 3; }
    if (argc > 2) { p.print_to_file(argv[2]); }
    std::printf("---\n");
    dump(p);
    trv::ParameterSet q(p);   // a copy holds the same
    std::printf("---\n");
    dump(q);
  } catch (const std::exception& e) {
    std::printf("REJECTED %s\n", e.what());
    return 3;
  }
  return 0;
}
