// Several threads, each with clippers of its own, at the same time (ThreadSanitizer).
//
// Reads from the standard input: cases, then per case
//   type(0 double, 1 int64) rounds rings threads
//   per ring: count x y ...                           (shared by all threads, never written)
//   per thread: reverse x0 y0 x1 y1 requests, per request: op fills; rings, per ring: index kind
// and prints a line per case: "case", then "ok" or "PROBLEM <text>".
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>

#include <mapbox/geometry/box.hpp>
#include <mapbox/geometry/multi_polygon.hpp>
#include <mapbox/geometry/point.hpp>
#include <mapbox/geometry/polygon.hpp>
#include <mapbox/geometry/wagyu/quick_clip.hpp>
#include <mapbox/geometry/wagyu/wagyu.hpp>

namespace w = mapbox::geometry::wagyu;

static long number() {
  long result;
  if (std::scanf("%ld", &result) != 1) std::exit(3);
  return result;
}

struct Script {
  bool reverse;
  long box[4];
  std::vector<std::pair<long, long>> requests;
  std::vector<std::pair<long, long>> rings;
};

template <typename T>
using Rings = std::vector<mapbox::geometry::linear_ring<T>>;

template <typename T>
struct Answer {
  std::vector<mapbox::geometry::multi_polygon<T>> results;
  std::vector<std::string> errors;
  bool operator==(const Answer& other) const {
    return results == other.results && errors == other.errors;
  }
};

template <typename T>
Answer<T> play(const Script& script, const Rings<T>& rings) {
  static const w::clip_type ops[] = {
      w::clip_type_intersection, w::clip_type_union, w::clip_type_difference,
      w::clip_type_x_or};
  Answer<T> answer;
  for (const auto& request : script.requests) {
    answer.results.emplace_back();
    try {
      w::wagyu<T> clipper;
      clipper.reverse_rings(script.reverse);
      for (const auto& item : script.rings)
        clipper.add_ring(rings[item.first], item.second
                                                ? w::polygon_type_clip
                                                : w::polygon_type_subject);
      clipper.execute(ops[request.first], answer.results.back(),
                      static_cast<w::fill_type>(request.second & 3),
                      static_cast<w::fill_type>(request.second >> 2));
      auto box = clipper.get_bounds();
      answer.results.push_back(
          {{{box.min, box.max}}});
    } catch (const std::runtime_error& error) {
      answer.errors.push_back(error.what());
    }
  }
  mapbox::geometry::polygon<T> polygon;
  for (const auto& item : script.rings) polygon.push_back(rings[item.first]);
  mapbox::geometry::box<T> box(
      {static_cast<T>(script.box[0]), static_cast<T>(script.box[1])},
      {static_cast<T>(script.box[2]), static_cast<T>(script.box[3])});
  try {
    answer.results.push_back(
        w::clip(polygon, box, w::fill_type_even_odd));
  } catch (const std::runtime_error& error) {
    answer.errors.push_back(error.what());
  }
  return answer;
}

template <typename T>
bool run(long rounds, const std::vector<std::vector<long>>& flat,
         const std::vector<Script>& scripts) {
  Rings<T> rings;
  for (const auto& numbers : flat) {
    mapbox::geometry::linear_ring<T> ring;
    for (std::size_t i = 0; i < numbers.size(); i += 2)
      ring.emplace_back(static_cast<T>(numbers[i]),
                        static_cast<T>(numbers[i + 1]));
    rings.push_back(ring);
  }
  std::vector<Answer<T>> together(scripts.size());
  std::vector<char> steady(scripts.size(), 1);
  std::atomic<int> waiting(static_cast<int>(scripts.size()));
  std::vector<std::thread> threads;
  for (std::size_t index = 0; index < scripts.size(); ++index)
    threads.emplace_back([&, index] {
      --waiting;
      while (waiting > 0) std::this_thread::yield();
      together[index] = play<T>(scripts[index], rings);
      for (long round = 1; round < rounds; ++round)
        if (!(play<T>(scripts[index], rings) == together[index]))
          steady[index] = 0;
    });
  for (auto& thread : threads) thread.join();
  // one at a time, after the threads: they must not find caches filled
  for (std::size_t index = 0; index < scripts.size(); ++index)
    if (!steady[index] ||
        !(play<T>(scripts[index], rings) == together[index])) {
      std::printf("PROBLEM thread %zu got another answer than alone\n", index);
      return false;
    }
  return true;
}

int main() {
  long cases = number();
  for (long i = 0; i < cases; ++i) {
    std::puts("case");
    std::fflush(stdout);
    long type = number(), rounds = number(), count = number(),
         threads = number();
    std::vector<std::vector<long>> rings(count);
    for (auto& ring : rings) {
      ring.resize(2 * number());
      for (auto& value : ring) value = number();
    }
    std::vector<Script> scripts(threads);
    for (auto& script : scripts) {
      script.reverse = number();
      for (auto& value : script.box) value = number();
      script.requests.resize(number());
      for (auto& request : script.requests) {
        request.first = number();
        request.second = number();
      }
      script.rings.resize(number());
      for (auto& item : script.rings) {
        item.first = number();
        item.second = number();
      }
    }
    bool good = type ? run<std::int64_t>(rounds, rings, scripts)
                     : run<double>(rounds, rings, scripts);
    if (!good) {
      std::fflush(stdout);
      return 1;
    }
    std::puts("ok");
    std::fflush(stdout);
  }
  return 0;
}
