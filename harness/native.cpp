// ctypes access to parts of the native headers the extension module does not expose.
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <vector>

#include <mapbox/geometry/box.hpp>
#include <mapbox/geometry/multi_polygon.hpp>
#include <mapbox/geometry/point.hpp>
#include <mapbox/geometry/polygon.hpp>
#include <mapbox/geometry/wagyu/quick_clip.hpp>
#include <mapbox/geometry/wagyu/wagyu.hpp>

namespace w = mapbox::geometry::wagyu;

namespace {
template <typename T>
std::vector<mapbox::geometry::linear_ring<T>> read(const int64_t* xy,
                                                   const int32_t* sizes,
                                                   int32_t count) {
  std::vector<mapbox::geometry::linear_ring<T>> result;
  for (int32_t i = 0; i < count; ++i) {
    mapbox::geometry::linear_ring<T> ring;
    for (int32_t k = 0; k < sizes[i]; ++k, xy += 2)
      ring.emplace_back(static_cast<T>(xy[0]), static_cast<T>(xy[1]));
    result.push_back(ring);
  }
  return result;
}

// out: polygon count, then per polygon ring count, then per ring size and points
struct Writer {
  int64_t* out;
  int64_t room;
  int64_t used = 0;
  void put(int64_t value) {
    if (used < room) out[used] = value;
    ++used;
  }
  template <typename T>
  bool put_coordinate(T value) {
    int64_t number = static_cast<int64_t>(value);
    put(number);
    return static_cast<T>(number) == value;
  }
  template <typename T>
  bool put_all(const mapbox::geometry::multi_polygon<T>& value) {
    bool exact = true;
    put(static_cast<int64_t>(value.size()));
    for (const auto& polygon : value) {
      put(static_cast<int64_t>(polygon.size()));
      for (const auto& ring : polygon) {
        put(static_cast<int64_t>(ring.size()));
        for (const auto& point : ring) {
          exact = put_coordinate(point.x) && exact;
          exact = put_coordinate(point.y) && exact;
        }
      }
    }
    return exact;
  }
};

// a clipper of T given rings of In and asked for polygons of Out
template <typename T, typename In = T, typename Out = T>
int64_t run(const int64_t* xy, const int32_t* sizes, int32_t subjects,
            int32_t clips, int32_t op, int32_t subject_fill, int32_t clip_fill,
            int32_t reverse, int64_t* out, int64_t room) {
  static const w::clip_type ops[] = {
      w::clip_type_intersection, w::clip_type_union, w::clip_type_difference,
      w::clip_type_x_or};
  auto rings = read<In>(xy, sizes, subjects + clips);
  w::wagyu<T> clipper;
  clipper.reverse_rings(reverse != 0);
  bool any = false;
  for (int32_t i = 0; i < subjects + clips; ++i) {
    // alone, as a polygon, and by the default kind
    const auto kind = i < subjects ? w::polygon_type_subject : w::polygon_type_clip;
    mapbox::geometry::polygon<In> polygon;
    polygon.push_back(rings[i]);
    if (i % 4 == 1)
      any = clipper.add_polygon(polygon, kind) || any;
    else if (i % 4 == 2 && i < subjects)
      any = clipper.add_polygon(polygon) || any;
    else if (i % 4 == 3 && i < subjects)
      any = clipper.add_ring(rings[i]) || any;
    else
      any = clipper.add_ring(rings[i], kind) || any;
  }
  mapbox::geometry::multi_polygon<Out> result;
  try {
    if (clipper.execute(ops[op], result, static_cast<w::fill_type>(subject_fill),
                        static_cast<w::fill_type>(clip_fill)) != any)
      return -2;
  } catch (const std::runtime_error&) {
    return -1;
  }
  Writer writer{out, room};
  return writer.put_all(result) ? writer.used : -2;
}
// many = 0: all rings are one polygon; otherwise a multipolygon, a new polygon of which starts at every ring
// the bit of which is set in many - 1 (an empty one comes first if that of the first ring is)
template <typename T>
int64_t clip_to(const int64_t* xy, const int32_t* sizes, int32_t count,
                       const int64_t* box, int32_t fill, int32_t many,
                       int64_t* out, int64_t room) {
  using Point = mapbox::geometry::point<T>;
  auto rings = read<T>(xy, sizes, count);
  mapbox::geometry::box<T> bounds(
      Point(static_cast<T>(box[0]), static_cast<T>(box[1])),
      Point(static_cast<T>(box[2]), static_cast<T>(box[3])));
  mapbox::geometry::multi_polygon<T> result;
  try {
    if (many) {
      mapbox::geometry::multi_polygon<T> input;
      input.emplace_back();
      for (std::size_t index = 0; index < rings.size(); ++index) {
        if (index < 31 && ((many - 1) >> index & 1)) input.emplace_back();
        input.back().push_back(rings[index]);
      }
      result = w::clip(input, bounds, static_cast<w::fill_type>(fill));
    } else {
      mapbox::geometry::polygon<T> polygon;
      for (const auto& ring : rings) polygon.push_back(ring);
      result = w::clip(polygon, bounds, static_cast<w::fill_type>(fill));
    }
  } catch (const std::runtime_error&) {
    return -1;
  }
  Writer writer{out, room};
  return writer.put_all(result) ? writer.used : -2;
}

}  // namespace

extern "C" {
#define EXECUTE(NAME, ...)                                                    \
  int64_t execute_##NAME(const int64_t* xy, const int32_t* sizes,            \
                         int32_t subjects, int32_t clips, int32_t op,        \
                         int32_t subject_fill, int32_t clip_fill,            \
                         int32_t reverse, int64_t* out, int64_t room) {      \
    return run<__VA_ARGS__>(xy, sizes, subjects, clips, op, subject_fill,    \
                            clip_fill, reverse, out, room);                  \
  }
EXECUTE(double, double)
#ifdef WITH_INT64
EXECUTE(int64, std::int64_t)
EXECUTE(int32, std::int32_t)
EXECUTE(mixed, std::int64_t, double, std::int32_t)
EXECUTE(mixed2, double, std::int32_t, std::int64_t)
#endif

int64_t rectangle_clip(const int64_t* xy, const int32_t* sizes, int32_t count,
                       const int64_t* box, int32_t fill, int32_t many,
                       int64_t* out, int64_t room) {
  return clip_to<double>(xy, sizes, count, box, fill, many, out, room);
}
#ifdef WITH_INT64
int64_t rectangle_clip_int64(const int64_t* xy, const int32_t* sizes,
                             int32_t count, const int64_t* box, int32_t fill,
                             int32_t many, int64_t* out, int64_t room) {
  return clip_to<std::int64_t>(xy, sizes, count, box, fill, many, out, room);
}

int64_t rectangle_clip_int32(const int64_t* xy, const int32_t* sizes,
                             int32_t count, const int64_t* box, int32_t fill,
                             int32_t many, int64_t* out, int64_t room) {
  return clip_to<std::int32_t>(xy, sizes, count, box, fill, many, out, room);
}
#endif

// the clipped rings themselves, as one polygon
int64_t ring_clip(const int64_t* xy, const int32_t* sizes, int32_t count,
                  const int64_t* box, int64_t* out, int64_t room) {
  using Point = mapbox::geometry::point<double>;
  auto rings = read<double>(xy, sizes, count);
  mapbox::geometry::box<double> bounds(
      Point(static_cast<double>(box[0]), static_cast<double>(box[1])),
      Point(static_cast<double>(box[2]), static_cast<double>(box[3])));
  mapbox::geometry::polygon<double> polygon;
  for (const auto& ring : rings)
    polygon.push_back(w::quick_clip::quick_lr_clip(ring, bounds));
  mapbox::geometry::multi_polygon<double> result;
  result.push_back(polygon);
  Writer writer{out, room};
  return writer.put_all(result) ? writer.used : -2;
}
}
