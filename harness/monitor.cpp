// Drive the program-tracking tools.  Commands on stdin, one per line of
// tab-separated fields (strings hex-encoded); every reply ends in \x1e.
#include <cstdio>
#include <exception>
#include <iostream>
#include <string>
#include <vector>
#include "monitor.hpp"

namespace ts = trv::sys;

static std::string unhex(const std::string& h) {
  std::string s;
  for (std::size_t i = 0; i + 1 < h.size(); i += 2) {
    s.push_back(char(std::stoi(h.substr(i, 2), nullptr, 16)));
  }
  return s;
}

static std::vector<std::string> fields(const std::string& line) {
  std::vector<std::string> out(1);
  for (char ch : line) {
    if (ch == '\t') { out.emplace_back(); } else { out.back() += ch; }
  }
  return out;
}

static void strs(const std::vector<std::string>& v) {
  for (const auto& s : v) {
    std::printf("<");
    for (unsigned char ch : s) { std::printf("%02x", ch); }
    std::printf(">");
  }
}

int main() {
  std::string line;
  ts::Logger lg(ts::LogLevel::NSET);
  while (std::getline(std::cin, line)) {
    auto f = fields(line);
    const std::string& op = f[0];
    auto s = [&](int i) { return unhex(f.at(i)); };
    auto n = [&](int i) { return std::stoi(f.at(i)); };
    try {
      if (op == "has") {
        std::printf("%d", int(ts::has_extension(s(1), s(2))));
      } else if (op == "join") {
        std::vector<std::string> v;
        for (std::size_t i = 2; i < f.size(); ++i) { v.push_back(s(i)); }
        strs({ts::join_strings(v, s(1))});
      } else if (op == "split") {
        strs(ts::split_string(s(1), s(2)));
      } else if (op == "elapsed") {
        std::printf("%s", ts::show_elapsed_time(std::stod(f.at(1))).c_str());
      } else if (op == "expand") {
        std::string p = s(1);
        ts::expand_envar_in_path(p);
        strs({p});
      } else if (op == "level") {
        lg.reset_level(n(1));
      } else if (op == "log") {
        lg.log(n(1), "%s", s(2).c_str());
      } else if (op == "debug") {
        lg.debug("%s", s(1).c_str());
      } else if (op == "stat") {
        lg.stat("%s", s(1).c_str());
      } else if (op == "info") {
        lg.info("%s", s(1).c_str());
      } else if (op == "warn") {
        lg.warn("%s", s(1).c_str());
      } else if (op == "error") {
        lg.error("%s", s(1).c_str());
      } else if (op == "nodes") {
        for (float x : ts::set_nodes_by_str(s(1))) { std::printf("%.9g ", x); }
      } else if (op == "bar") {    // bar name count width nodes idx...
        ts::ProgressBar b(n(2), s(1));
        if (n(3) > 0) { b.set_bar_width(n(3)); }
        if (!f.at(4).empty()) { b.set_nodes(ts::set_nodes_by_str(s(4))); }
        for (std::size_t i = 5; i < f.size(); ++i) {
          b.update(n(int(i)));
          std::printf("\x1f");
        }
      } else if (op == "error-text") {
        if (n(1) == 0) { throw ts::InvalidDataError("%s", s(2).c_str()); }
        if (n(1) == 1) { throw ts::InvalidParameterError("%s", s(2).c_str()); }
        if (n(1) == 2) { throw ts::IOError("%s", s(2).c_str()); }
        throw ts::UnimplementedError("%s", s(2).c_str());
      }
    } catch (const std::exception& e) {
      std::printf("REJECTED ");
      strs({e.what()});
    }
    std::printf("\x1e");
    std::fflush(stdout);
  }
  return 0;
}
