// Reference oracle for general integer input (no code of the repository is used).
// Computes how far from every input edge the result's region differs from the
// fill-rule combination of the inputs.
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <vector>

namespace {
struct E {
  double ax, ay, bx, by;  // ay < by
  int layer, sign;
};
struct A {
  double x, slope, lx, ly;
  int layer, sign;
};

bool filled(int rule, int w) {
  switch (rule) {
    case 0: return w & 1;
    case 1: return w != 0;
    case 2: return w < 0;
    default: return w > 0;
  }
}

bool combine(int op, bool a, bool b) {
  switch (op) {
    case 0: return a && b;
    case 1: return a || b;
    case 2: return a && !b;
    default: return a != b;
  }
}

double distance2(double px, double py, const double* e) {
  double dx = e[2] - e[0], dy = e[3] - e[1];
  double t = ((px - e[0]) * dx + (py - e[1]) * dy) / (dx * dx + dy * dy);
  t = t < 0 ? 0 : (t > 1 ? 1 : t);
  double qx = e[0] + t * dx - px, qy = e[1] + t * dy - py;
  return qx * qx + qy * qy;
}
}  // namespace

// edges: n x 4 doubles (ax, ay, bx, by), layers: n ints (0 subject, 1 clip, 2 result).
// Returns the largest distance of the centre of a differing trapezoid to the nearest input
// edge (-1 when regions agree), its location in where[0..1], number of differing trapezoids
// in where[2] and the area of the expected region in where[3].
extern "C" double worst_difference(const double* edges, const int32_t* layers, int32_t n, int32_t op,
                                   int32_t subject_fill, int32_t clip_fill, double* where) {
  std::vector<E> es;
  std::vector<double> ys;
  for (int i = 0; i < n; ++i) {
    const double* e = edges + 4 * i;
    if (e[1] == e[3]) continue;
    if (e[1] < e[3])
      es.push_back({e[0], e[1], e[2], e[3], layers[i], 1});
    else
      es.push_back({e[2], e[3], e[0], e[1], layers[i], -1});
    ys.push_back(e[1]);
    ys.push_back(e[3]);
  }
  for (std::size_t i = 0; i < es.size(); ++i)
    for (std::size_t j = 0; j < i; ++j) {
      const E &a = es[i], &c = es[j];
      if (c.ay >= a.by || c.by <= a.ay) continue;
      double dx = a.bx - a.ax, dy = a.by - a.ay, fx = c.bx - c.ax, fy = c.by - c.ay;
      double den = dx * fy - dy * fx;
      if (den == 0) continue;
      double t = ((c.ax - a.ax) * fy - (c.ay - a.ay) * fx) / den;
      double u = ((c.ax - a.ax) * dy - (c.ay - a.ay) * dx) / den;
      if (t < -1e-12 || t > 1 + 1e-12 || u < -1e-12 || u > 1 + 1e-12) continue;
      ys.push_back(a.ay + t * dy);
    }
  std::sort(ys.begin(), ys.end());
  double worst = -1, count = 0, area = 0;
  where[0] = where[1] = 0;
  std::vector<A> active;
  for (std::size_t k = 0; k + 1 < ys.size(); ++k) {
    double y0 = ys[k], y1 = ys[k + 1];
    if (y1 - y0 < 1e-7) continue;
    double ym = (y0 + y1) / 2;
    active.clear();
    for (const E& e : es)
      if (e.ay < ym && ym < e.by) {
        double slope = (e.bx - e.ax) / (e.by - e.ay);
        active.push_back({e.ax + slope * (ym - e.ay), slope, e.ax, e.ay, e.layer, e.sign});
      }
    std::sort(active.begin(), active.end(), [](const A& l, const A& r) { return l.x < r.x; });
    int w[3] = {0, 0, 0};
    for (std::size_t i = 0; i + 1 < active.size(); ++i) {
      w[active[i].layer] += active[i].sign;
      double x0 = active[i].x, x1 = active[i + 1].x;
      if (x1 - x0 < 1e-7) continue;
      bool expected = combine(op, filled(subject_fill, w[0]), filled(clip_fill, w[1]));
      if (expected) area += (x1 - x0) * (y1 - y0);
      if (expected == (w[2] % 2 != 0)) continue;
      ++count;
      double px = (x0 + x1) / 2, nearest = 1e300;
      for (int j = 0; j < n; ++j)
        if (layers[j] != 2) nearest = std::min(nearest, distance2(px, ym, edges + 4 * j));
      nearest = std::sqrt(nearest);
      if (nearest > worst) {
        worst = nearest;
        where[0] = px;
        where[1] = ym;
      }
    }
  }
  where[2] = count;
  where[3] = area;
  return worst;
}
