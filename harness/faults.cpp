// Faults during native calls: a memory allocation fails, or an interruption is requested,
// at a chosen moment (counted in allocations) of an operation or of adding a ring.
//
// Reads cases from the standard input, one after another:
//   mode(0 allocation, 1 interruption) reverse op fills op2 fills2 budget offset rings
//   then per ring: kind count x y ...
// and prints a line per case: "ok <faults raised> <faults armed>" or "PROBLEM <text>".
#define USE_WAGYU_INTERRUPT
#include <cstdio>
#include <cstdlib>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

#include <mapbox/geometry/box.hpp>
#include <mapbox/geometry/multi_polygon.hpp>
#include <mapbox/geometry/point.hpp>
#include <mapbox/geometry/polygon.hpp>
#include <mapbox/geometry/wagyu/wagyu.hpp>

namespace {
long live = 0;        // blocks allocated and not yet freed
long served = 0;      // allocations so far
long countdown = -1;  // allocations until the fault; negative: none armed
bool interrupts = false;
bool raised = false;
}  // namespace

static void on_allocation() {
  ++served;
  if (countdown >= 0 && countdown-- == 0) {
    raised = true;
    if (interrupts)
      mapbox::geometry::wagyu::interrupt_request();
    else
      throw std::bad_alloc();
  }
}

void* operator new(std::size_t size) {
  on_allocation();
  void* result = std::malloc(size ? size : 1);
  if (!result) throw std::bad_alloc();
  ++live;
  return result;
}
void* operator new(std::size_t size, const std::nothrow_t&) noexcept {
  try {
    return operator new(size);
  } catch (const std::bad_alloc&) {
    return nullptr;
  }
}
void operator delete(void* pointer) noexcept {
  if (pointer) {
    --live;
    std::free(pointer);
  }
}
void operator delete(void* pointer, std::size_t) noexcept {
  operator delete(pointer);
}

void operator delete(void* pointer, const std::nothrow_t&) noexcept {
  operator delete(pointer);
}

namespace w = mapbox::geometry::wagyu;
using T = double;
using Point = mapbox::geometry::point<T>;
using Ring = mapbox::geometry::linear_ring<T>;
using Result = mapbox::geometry::multi_polygon<T>;

namespace {
struct Held {
  Ring ring;
  w::polygon_type kind;
};

struct Problem {
  std::string text;
};

long read_number() {
  long result;
  if (std::scanf("%ld", &result) != 1) throw Problem{"unreadable case"};
  return result;
}

// 1 done, 0 gave up (documented), -1 interrupted, -2 out of memory
int execute(w::wagyu<T>& clipper, long op, long fills, Result& out) {
  static const w::clip_type ops[] = {
      w::clip_type_intersection, w::clip_type_union, w::clip_type_difference,
      w::clip_type_x_or};
  try {
    clipper.execute(ops[op], out, static_cast<w::fill_type>(fills & 3),
                    static_cast<w::fill_type>(fills >> 2));
    return 1;
  } catch (const std::runtime_error& error) {
    return std::string(error.what()) == "Wagyu interrupted" ? -1 : 0;
  } catch (const std::bad_alloc&) {
    return -2;
  }
}

struct Answer {
  int status;
  Result result;
};

bool same(const Answer& left, const Answer& right) {
  return left.status == right.status &&
         (left.status != 1 || left.result == right.result);
}

Answer fresh_answer(const std::vector<Held>& rings, bool reverse, long op,
                    long fills) {
  w::wagyu<T> clipper;
  clipper.reverse_rings(reverse);
  for (const auto& item : rings) clipper.add_ring(item.ring, item.kind);
  Answer answer;
  answer.status = execute(clipper, op, fills, answer.result);
  return answer;
}

void disarm() {
  countdown = -1;
  w::interrupt_reset();
}

// what an armed call may end in
void judge(int status, const char* what) {
  if (status == -1 && !interrupts)
    throw Problem{std::string(what) + " was interrupted without a request"};
  if (status == -2 && interrupts)
    throw Problem{std::string(what) + " ran out of memory without a fault"};
  if ((status == -1 || status == -2) && !raised)
    throw Problem{std::string(what) + " failed without a fault"};
}

void run_case(long& fired, long& armed) {
  interrupts = read_number();
  bool reverse = read_number();
  long op = read_number(), fills = read_number();
  long op2 = read_number(), fills2 = read_number();
  long budget = read_number(), offset = read_number();
  std::vector<Held> rings;
  long count = read_number();
  for (long i = 0; i < count; ++i) {
    Held item;
    item.kind = read_number() ? w::polygon_type_clip : w::polygon_type_subject;
    long size = read_number();
    for (long j = 0; j < size; ++j) {
      long x = read_number();
      item.ring.emplace_back(x, read_number());
    }
    rings.push_back(item);
  }
  Answer expected = fresh_answer(rings, reverse, op, fills);
  Answer expected2 = fresh_answer(rings, reverse, op2, fills2);

  w::wagyu<T> clipper;
  clipper.reverse_rings(reverse);
  for (const auto& item : rings) clipper.add_ring(item.ring, item.kind);
  auto bounds = clipper.get_bounds();
  std::size_t minima = clipper.minima_list.size();
  long total;
  {
    Answer answer;
    long before = served;
    answer.status = execute(clipper, op, fills, answer.result);
    total = served - before;
    if (!same(answer, expected)) throw Problem{"not repeatable"};
  }
  long steps = total < budget ? total : budget;
  for (long step = 0; step < steps; ++step) {
    long at = (offset + step * total / steps) % total;
    long alive = live;
    {
      Answer answer;
      raised = false;
      countdown = at;
      answer.status = execute(clipper, op, fills, answer.result);
      disarm();
      ++armed;
      judge(answer.status, "an operation");
      if (answer.status < 0)
        ++fired;
      else if (!same(answer, expected))
        throw Problem{"an operation survived a fault with another result"};
    }
    if (live != alive)
      throw Problem{"a failed operation kept " + std::to_string(live - alive) +
                    " blocks of memory"};
    auto box = clipper.get_bounds();
    if (!(box.min == bounds.min && box.max == bounds.max))
      throw Problem{"a failed operation changed the bounds"};
    if (clipper.minima_list.size() != minima)
      throw Problem{"a failed operation changed the local minima"};
    bool second = step % 2;
    Answer answer;
    answer.status = execute(clipper, second ? op2 : op, second ? fills2 : fills,
                            answer.result);
    if (!same(answer, second ? expected2 : expected))
      throw Problem{"an operation after a failed one gives another result"};
  }
  // a request pending at the start
  if (interrupts && minima) {
    Answer answer;
    w::interrupt_request();
    answer.status = execute(clipper, op, fills, answer.result);
    if (answer.status != -1)
      throw Problem{"a pending request did not interrupt an operation"};
    answer.status = execute(clipper, op, fills, answer.result);
    if (!same(answer, expected))
      throw Problem{"an operation after an interrupted one gives another result"};
    bool thrown = false;
    std::size_t index = 0;
    {
      w::wagyu<T> probe;
      while (!probe.add_ring(rings[index].ring, rings[index].kind)) ++index;
    }
    w::interrupt_request();
    try {
      clipper.add_ring(rings[index].ring, rings[index].kind);
    } catch (const std::runtime_error& error) {
      thrown = std::string(error.what()) == "Wagyu interrupted";
    }
    w::interrupt_reset();
    if (!thrown)
      throw Problem{"a pending request did not interrupt the adding of a ring"};
  }
  // faults while adding: the clipper can be cleared and used again
  long alive = live;
  {
    w::wagyu<T> other;
    other.reverse_rings(reverse);
    long before = served;
    for (const auto& item : rings) other.add_ring(item.ring, item.kind);
    total = served - before;
  }
  steps = total < budget ? total : budget;
  for (long step = 0; step < steps; ++step) {
    w::wagyu<T> other;
    other.reverse_rings(reverse);
    raised = false;
    countdown = (offset + step * total / steps) % total;
    ++armed;
    try {
      for (const auto& item : rings) other.add_ring(item.ring, item.kind);
    } catch (const std::runtime_error& error) {
      disarm();
      judge(std::string(error.what()) == "Wagyu interrupted" ? -1 : 0,
            "adding a ring");
      ++fired;
    } catch (const std::bad_alloc&) {
      disarm();
      judge(-2, "adding a ring");
      ++fired;
    }
    disarm();
    other.get_bounds();
    other.clear();
    auto box = other.get_bounds();
    if (!(box.min == Point(0, 0) && box.max == Point(0, 0)))
      throw Problem{"a cleared clipper has bounds"};
    for (const auto& item : rings) other.add_ring(item.ring, item.kind);
    Answer answer;
    answer.status = execute(other, op, fills, answer.result);
    if (!same(answer, expected))
      throw Problem{"a clipper cleared after a failed addition gives another result"};
  }
  if (live != alive)
    throw Problem{"adding rings kept " + std::to_string(live - alive) +
                  " blocks of memory"};
}
}  // namespace

int main() {
  long cases = 0;
  if (std::scanf("%ld", &cases) != 1) return 3;
  for (long i = 0; i < cases; ++i) {
    long fired = 0, armed = 0;
    std::printf("case %ld\n", i);
    std::fflush(stdout);
    long alive = live;
    try {
      run_case(fired, armed);
      disarm();
      if (live != alive)
        throw Problem{"a finished case kept " + std::to_string(live - alive) +
                      " blocks of memory"};
      std::printf("ok %ld %ld\n", fired, armed);
    } catch (const Problem& problem) {
      std::printf("PROBLEM %s\n", problem.text.c_str());
      std::fflush(stdout);
      std::_Exit(1);
    }
    std::fflush(stdout);
  }
  return 0;
}
