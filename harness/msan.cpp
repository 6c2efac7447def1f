// Compiled together with fuzz.cpp under MemorySanitizer.  The one function of the standard
// library's compiled part which initialises memory of the headers' containers is wrapped to say so.
#include <dlfcn.h>
#include <sanitizer/msan_interface.h>

#include <list>
#include <set>

#include "fuzz.cpp"

namespace std {
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* node,
                                   _Rb_tree_node_base* parent,
                                   _Rb_tree_node_base& header) throw() {
  using F = void (*)(const bool, _Rb_tree_node_base*, _Rb_tree_node_base*,
                     _Rb_tree_node_base&);
  static const F real = reinterpret_cast<F>(
      dlsym(RTLD_NEXT,
            "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_"));
  real(left, node, parent, header);
  __msan_unpoison(node, sizeof(*node));
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const position) noexcept {
  _M_next = position;
  _M_prev = position->_M_prev;
  position->_M_prev->_M_next = this;
  position->_M_prev = this;
}
}  // namespace __detail
}  // namespace std
