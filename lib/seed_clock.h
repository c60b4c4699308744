// Forced include for src/rpucuda/*.cpp: the simulator seeds its generators from
// std::chrono::high_resolution_clock; here that clock is a counter which the harness sets
// (verif_clock_set), which makes every monitored case reproducible from its seed.
#pragma once
#include <atomic>
#include <chrono>
#include <cstdlib>
extern "C" {
inline __attribute__((used, visibility("default"))) std::atomic<long long> *verif_clock_counter() {
  static std::atomic<long long> c{12345};
  return &c;
}
inline __attribute__((used, visibility("default"))) void verif_clock_set(long long v) {
  verif_clock_counter()->store(v * 1000003ll + 17);
}
}
namespace std {
namespace chrono {
struct verif_seed_clock {
  typedef nanoseconds duration;
  typedef duration::rep rep;
  typedef duration::period period;
  typedef std::chrono::time_point<verif_seed_clock, duration> time_point;
  static constexpr bool is_steady = false;
  static time_point now() {
    unsigned long long k = (unsigned long long)verif_clock_counter()->fetch_add(1) + 1;
    unsigned long long z = k * 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    z ^= z >> 31;
    return time_point(duration((long long)(z >> 2)));
  }
};
} // namespace chrono
} // namespace std
#define high_resolution_clock verif_seed_clock
