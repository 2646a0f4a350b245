#include "common.h"
#include <unistd.h>
#include <fcntl.h>
#include <chrono>
namespace vh {
std::string &desc() { static std::string d; return d; }
std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
} // namespace vh
using namespace vh;
// usage: harness <property> <seed> <quick|thorough> <out-file> [case] [part]
// exit 0: no failing case; 3: failing case (described in out-file).
// The case under execution is written to out-file first, so that a crash or a
// hang leaves its input behind.
int main(int argc, char **argv) {
  if (argc < 5) return 2;
  std::string id = argv[1];
  std::uint64_t seed = std::strtoull(argv[2], nullptr, 10);
  bool thorough = std::string(argv[3]) == "thorough";
  std::string out = argv[4];
  long only = argc > 5 ? std::atol(argv[5]) : -1;
  double budget = argc > 6 ? std::atof(argv[6]) : 1e9;
  auto t0 = std::chrono::steady_clock::now();
  std::size_t ran = 0;
  int part = 0;
  for (auto &p : props()) {
    if (id != p.id) continue;
    ++part;
    std::size_t n = thorough ? p.thorough : p.quick;
    for (std::size_t k = 0; k < n; ++k) {
      long cid = static_cast<long>(part * 1000000 + k);
      if (only >= 0 && cid != only) continue;
      if (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > budget) break;
      desc().clear();
      if (FILE *f = std::fopen(out.c_str(), "w")) {
        std::fprintf(f, "property=%s seed=%llu tier=%s case=%ld running\n", id.c_str(),
                     (unsigned long long)seed, argv[3], cid);
        std::fclose(f);
      }
      Rng rng(seed * 1000003u + cid);
      std::string bad;
      try { p.one(rng, k); }
      catch (const Fail &f) { bad = f.what; }
      catch (const std::exception &e) { bad = std::string("unexpected exception: ") + e.what(); }
      ++ran;
      if (!bad.empty()) {
        if (FILE *f = std::fopen(out.c_str(), "w")) {
          std::fprintf(f, "property=%s seed=%llu tier=%s case=%ld FAILED\n%s\ninput:\n%s\n", id.c_str(),
                       (unsigned long long)seed, argv[3], cid, bad.c_str(), desc().c_str());
          std::fclose(f);
        }
        std::printf("FAILED case=%ld %s\n", cid, bad.c_str());
        std::fflush(stdout);
        _exit(3);
      }
    }
  }
  std::printf("OK cases=%zu\n", ran);
  std::fflush(stdout);
  _exit(0);
}
