// Types bound with the macros, in every number of members (BIND_SWEEP) and every mix of the four kinds of binding
// (BIND_MIX); generated by engine/bindspec.py into BIND_TYPES.  The conversions of the member type F are ports.
#include "value_layout.hpp"
#include <utility>
#include <new>
struct F { long x; };
struct failure {};
extern "C" {
void ext_to_value(V* v, const F* u);
void ext_from_value(const V* v, F* u);
bool ext_differs(const F* a, const F* b);
}
inline void to_value(V& c, const F& u) { ext_to_value(&c, &u); }
inline void from_value(const V& c, F& u) { ext_from_value(&c, &u); }
inline bool operator!=(const F& a, const F& b) { return ext_differs(&a, &b); }
inline bool operator==(const F& a, const F& b) { return !ext_differs(&a, &b); }
#define TYPE(N) \
    extern "C" void to_##N(V* r, const N& b) { new (r) V(b); } \
    extern "C" void set_##N(V& r, const N& b) { r = b; } \
    extern "C" void from_##N(const V& v, N& b) { b = v.get<N>(); } \
    extern "C" bool into_##N(const V& v, N& b) { return v.get(b); }
#include BIND_TYPES
