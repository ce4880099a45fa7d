// Force-included before the sources: see shim_decoder/verif_decoder_prelude.h.
#ifndef VERIF_NET_PRELUDE_H_
#define VERIF_NET_PRELUDE_H_
#include <unistd.h>
#include <bits/stdc++.h>

#include "absl/container/flat_hash_map.h"
#include "absl/container/flat_hash_set.h"
#include "absl/container/btree_map.h"
#include "absl/flags/flag.h"
#include "absl/functional/any_invocable.h"
#include "absl/functional/bind_front.h"
#include "absl/log/check.h"
#include "absl/log/log.h"
#include "absl/memory/memory.h"
#include "absl/status/status.h"
#include "absl/status/statusor.h"
#include "absl/strings/match.h"
#include "absl/strings/numbers.h"
#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"
#include "absl/strings/str_replace.h"
#include "absl/strings/str_split.h"
#include "absl/strings/string_view.h"
#include "absl/synchronization/mutex.h"
#include "absl/types/span.h"

namespace std {
using verif_string_view = absl::string_view;
}  // namespace std
namespace absl {
using verif_string_view = absl::string_view;
}  // namespace absl
#define string_view verif_string_view
#endif  // VERIF_NET_PRELUDE_H_
