#pragma once
#include "absl/log/check.h"
#include "absl/log/log.h"
template <typename T> T&& verif_die_if_null(T&& t) { if (t == nullptr) abort(); return std::forward<T>(t); }
#define ABSL_DIE_IF_NULL(v) verif_die_if_null(v)
