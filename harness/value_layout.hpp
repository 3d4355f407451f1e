// what the analysis needs to know about the representation of a value, read off the public accessors
#include <configor/json.hpp>
#include <string>
#include <vector>
#include <map>
using namespace configor;
typedef json::value V;
#define KIND(n) extern "C" int hk_##n() { return static_cast<int>(value_constant::n); }
KIND(null) KIND(integer) KIND(floating) KIND(string) KIND(array) KIND(object) KIND(boolean)
extern "C" long hl_size() { return sizeof(V); }
extern "C" int hl_type(const V& v) { return static_cast<int>(v.type()); }
extern "C" const void* hl_boolean(const V& v) { return &v.data().boolean; }
extern "C" const void* hl_integer(const V& v) { return &v.data().integer; }
extern "C" const void* hl_floating(const V& v) { return &v.data().floating; }
extern "C" const void* hl_string(const V& v) { return &v.data().string; }
extern "C" const void* hl_array(const V& v) { return &v.data().vector; }
extern "C" const void* hl_object(const V& v) { return &v.data().object; }
