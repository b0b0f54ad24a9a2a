// Catalogue operations of the C++ library, from a script of commands.
// usage: cat <script>       (exit 0; errors are printed as REJECTED)
#include <cstdio>
#include <fstream>
#include <iostream>
#include <string>
#include <vector>
#include "particles.hpp"
#include "monitor.hpp"

using trv::ParticleCatalogue;

static void dump(ParticleCatalogue& c) {
  std::printf("CAT %d %.17g %.17g", c.ntotal, c.wtotal, c.wstotal);
  for (int i = 0; i < 3; i++) {
    std::printf(" %.17g %.17g %.17g", c.pos_min[i], c.pos_max[i],
                c.pos_span[i]);
  }
  std::printf("\n");
  for (int i = 0; i < c.ntotal; i++) {
    std::printf("%.17g %.17g %.17g %.17g %.17g %.17g %.17g\n", c[i].pos[0],
                c[i].pos[1], c[i].pos[2], c[i].nz, c[i].ws, c[i].wc, c[i].w);
  }
}

int main(int argc, char** argv) {
  std::ifstream in(argv[1]);
  std::string op;
  {
    ParticleCatalogue cats[2] = {ParticleCatalogue(60),
                                 ParticleCatalogue(60)};
    while (in >> op) {
      try {
        int i, j;
        double b[3], p[3];
        int n[3];
        auto r3 = [&](auto* v) { in >> v[0] >> v[1] >> v[2]; };
        in >> i;
        if (op == "file") {
          std::string path, cols;
          double vol;
          in >> path >> cols >> vol;
          if (cols == "-") { cols = ""; }
          cats[i].load_catalogue_file(path, cols, "", vol);
        } else if (op == "data") {
          int num;
          in >> num;
          std::vector<double> v[6];
          for (int r = 0; r < num; r++) {
            for (int k = 0; k < 6; k++) {
              double x; in >> x; v[k].push_back(x);
            }
          }
          cats[i].load_particle_data(v[0], v[1], v[2], v[3], v[4], v[5]);
        } else if (op == "centre") {
          r3(b); ParticleCatalogue::centre_in_box(cats[i], b);
        } else if (op == "centre2") {
          in >> j; r3(b);
          ParticleCatalogue::centre_in_box(cats[i], cats[j], b);
        } else if (op == "padbox") {
          r3(b); r3(p); ParticleCatalogue::pad_in_box(cats[i], b, p);
        } else if (op == "padbox2") {
          in >> j; r3(b); r3(p);
          ParticleCatalogue::pad_in_box(cats[i], cats[j], b, p);
        } else if (op == "padgrid") {
          r3(b); r3(n); r3(p);
          ParticleCatalogue::pad_grids(cats[i], b, n, p);
        } else if (op == "padgrid2") {
          in >> j; r3(b); r3(n); r3(p);
          ParticleCatalogue::pad_grids(cats[i], cats[j], b, n, p);
        } else if (op == "offset") {
          r3(p); cats[i].offset_coords(p);
        } else if (op == "periodic") {
          r3(b); cats[i].offset_coords_for_periodicity(b);
        } else if (op == "dump") {
          dump(cats[i]);
        } else {
          std::printf("UNKNOWN %s\n", op.c_str());
          return 2;
        }
        std::printf("OK %s\n", op.c_str());
      } catch (const std::exception& e) {
        std::printf("REJECTED %s: %s\n", op.c_str(), e.what());
      }
    }
  }
  std::printf("MEM %.17g\n", static_cast<double>(trv::sys::gbytesMem));
  return 0;
}
