// Rounding primitives of the headers that the extension does not expose.
// Optional: a check skips them when this does not compile (renamed internals).
#include <cstdint>
#include <mapbox/geometry/wagyu/util.hpp>

extern "C" {
double round_double(double value) {
  return mapbox::geometry::wagyu::wround<double>(value);
}
int64_t round_int64(double value) {
  return mapbox::geometry::wagyu::wround<std::int64_t>(value);
}
}
