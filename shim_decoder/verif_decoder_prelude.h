// Force-included before the decoder generator's sources. They are written
// against an abseil whose string_view is std::string_view and mix the two
// names; the installed abseil has a class of its own, so that both names are
// made to mean that class once every library header has been read.
#ifndef VERIF_DECODER_PRELUDE_H_
#define VERIF_DECODER_PRELUDE_H_
#include <bits/stdc++.h>

#include "absl/base/no_destructor.h"
#include "absl/container/btree_map.h"
#include "absl/container/btree_set.h"
#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/flags/flag.h"
#include "absl/functional/any_invocable.h"
#include "absl/functional/bind_front.h"
#include "absl/log/check.h"
#include "absl/log/log.h"
#include "absl/memory/memory.h"
#include "absl/numeric/bits.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "absl/types/span.h"
#include "antlr4-runtime/antlr4-runtime.h"
#include "re2/re2.h"

namespace std {
using verif_string_view = absl::string_view;
}  // namespace std
namespace absl {
using verif_string_view = absl::string_view;
}  // namespace absl
#define string_view verif_string_view
#endif  // VERIF_DECODER_PRELUDE_H_
