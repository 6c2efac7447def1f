// Coverage-guided fuzzing of the native headers under AddressSanitizer and
// UndefinedBehaviorSanitizer.  Bytes are decoded into a history on one clipper; besides
// memory safety, every operation is run a second time on a fresh clipper and has to agree.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <vector>

#include <mapbox/geometry/box.hpp>
#include <mapbox/geometry/multi_polygon.hpp>
#include <mapbox/geometry/point.hpp>
#include <mapbox/geometry/polygon.hpp>
#include <mapbox/geometry/wagyu/quick_clip.hpp>
#include <mapbox/geometry/wagyu/wagyu.hpp>

namespace w = mapbox::geometry::wagyu;
using coordinate = double;
using Point = mapbox::geometry::point<coordinate>;
using LinearRing = mapbox::geometry::linear_ring<coordinate>;
using Polygon = mapbox::geometry::polygon<coordinate>;
using Multipolygon = mapbox::geometry::multi_polygon<coordinate>;

namespace {
struct Input {
  const uint8_t* at;
  size_t left;
  uint8_t next() {
    if (!left) return 0;
    --left;
    return *at++;
  }
};

[[noreturn]] void fail(const char* what) {
  std::fprintf(stderr, "PROBLEM: %s\n", what);
  std::abort();
}

struct Held {
  LinearRing ring;
  w::polygon_type kind;
};

bool execute(w::wagyu<coordinate>& clipper, int op, int fills,
             Multipolygon& out) {
  static const w::clip_type ops[] = {
      w::clip_type_intersection, w::clip_type_union, w::clip_type_difference,
      w::clip_type_x_or};
  try {
    clipper.execute(ops[op & 3], out, static_cast<w::fill_type>(fills & 3),
                    static_cast<w::fill_type>((fills >> 2) & 3));
    return true;
  } catch (const std::runtime_error&) {
    // documented way of giving up on crowded input
    return false;
  }
}
}  // namespace

extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
  if (size < 4 || size > 400) return 0;
  Input in{data, size};
  static const double scales[] = {1, 2, 3, 60, 1000, 1, 1, 65536};
  uint8_t head = in.next();
  double scale = scales[head & 7];
  bool reverse = head & 8;
  double dx = (head & 16) ? -7 * scale : 0, dy = (head & 32) ? -9 * scale : 0;
  int mask = (head & 64) ? 7 : 15;
  w::wagyu<coordinate> clipper;
  clipper.reverse_rings(reverse);
  std::vector<Held> held;
  int operations = 0;
  while (in.left && operations < 4) {
    uint8_t what = in.next();
    if ((what & 7) < 5) {
      int count = (what >> 4);
      Held item;
      item.kind = (what & 8) ? w::polygon_type_clip : w::polygon_type_subject;
      for (int i = 0; i < count && in.left; ++i) {
        uint8_t cell = in.next();
        item.ring.emplace_back((cell & mask) * scale + dx,
                               ((cell >> 4) & mask) * scale + dy);
      }
      clipper.add_ring(item.ring, item.kind);
      held.push_back(item);
      if (held.size() > 8) break;
    } else if ((what & 7) == 5) {
      clipper.get_bounds();
      if (what & 128) {
        clipper.clear();
        held.clear();
      }
    } else {
      ++operations;
      int op = (what >> 3) & 3;
      int fills = in.next();
      Multipolygon first, second;
      bool done = execute(clipper, op, fills, first);
      w::wagyu<coordinate> fresh;
      fresh.reverse_rings(reverse);
      for (const auto& item : held) fresh.add_ring(item.ring, item.kind);
      if (execute(fresh, op, fills, second) != done ||
          (done && !(first == second)))
        fail("an operation depends on the history of the clipper");
      if (done)
        for (const auto& polygon : first)
          for (const auto& ring : polygon)
            if (ring.size() < 4 || !(ring.front() == ring.back()))
              fail("a ring of a result is not closed");
      if (what & 32) {
        uint8_t corner = in.next(), extent = in.next();
        mapbox::geometry::box<coordinate> box(
            Point((corner & mask) * scale + dx, (corner >> 4) * scale + dy),
            Point(((corner & mask) + (extent & 7) + 1) * scale + dx,
                  ((corner >> 4) + (extent >> 5) + 1) * scale + dy));
        Polygon polygon;
        for (const auto& item : held) polygon.push_back(item.ring);
        try {
          w::clip(polygon, box, static_cast<w::fill_type>(fills & 3));
        } catch (const std::runtime_error&) {
        }
      }
    }
  }
  return 0;
}
