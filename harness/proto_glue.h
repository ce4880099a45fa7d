// What the glue around an emitted proto decoder needs.
#ifndef VERIF_PROTO_GLUE_H_
#define VERIF_PROTO_GLUE_H_
#include <cstdint>
#include <functional>
#include <string>

#include "absl/container/flat_hash_map.h"
#include "proto_schema.pb.h"

namespace vp {
using Emit = void (*)(void*, const char* name, const char* type, const char* value);
inline void Tell(Emit e, void* x, const char* n, int32_t v) { e(x, n, "i32", std::to_string(v).c_str()); }
inline void Tell(Emit e, void* x, const char* n, int64_t v) { e(x, n, "i64", std::to_string(v).c_str()); }
inline void Tell(Emit e, void* x, const char* n, uint32_t v) { e(x, n, "u32", std::to_string(v).c_str()); }
inline void Tell(Emit e, void* x, const char* n, uint64_t v) { e(x, n, "u64", std::to_string(v).c_str()); }
inline void Tell(Emit e, void* x, const char* n, bool v) { e(x, n, "bool", v ? "1" : "0"); }
inline void Tell(Emit e, void* x, const char* n, float v) { e(x, n, "float", std::to_string(v).c_str()); }
inline void Tell(Emit e, void* x, const char* n, double v) { e(x, n, "double", std::to_string(v).c_str()); }
inline void Tell(Emit e, void* x, const char* n, const std::string& v) { e(x, n, "string", v.c_str()); }
template <typename T> T Sentinel() { return T(77); }
template <> inline std::string Sentinel<std::string>() { return "?"; }
}  // namespace vp
#endif
