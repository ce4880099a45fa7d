#ifndef VERIF_SHIM_ABSL_LOG_CHECK_H_
#define VERIF_SHIM_ABSL_LOG_CHECK_H_
#include "absl/log/log.h"
#include "absl/status/status.h"
#define CHECK(cond) VERIF_LOG_COND(FATAL, !(cond)) << "Check failed: " #cond " "
#define QCHECK(cond) CHECK(cond)
#define PCHECK(cond) CHECK(cond)
#define CHECK_OP_(a, op, b) \
  VERIF_LOG_COND(FATAL, !((a)op(b))) << "Check failed: " #a " " #op " " #b " "
#define CHECK_EQ(a, b) CHECK_OP_(a, ==, b)
#define CHECK_NE(a, b) CHECK_OP_(a, !=, b)
#define CHECK_LT(a, b) CHECK_OP_(a, <, b)
#define CHECK_LE(a, b) CHECK_OP_(a, <=, b)
#define CHECK_GT(a, b) CHECK_OP_(a, >, b)
#define CHECK_GE(a, b) CHECK_OP_(a, >=, b)
#define CHECK_OK(s) \
  VERIF_LOG_COND(FATAL, !::absl::verif_log::AsStatus(s).ok()) \
      << "Check failed: " #s " is OK "
#define QCHECK_OK(s) CHECK_OK(s)
#define QCHECK_EQ(a, b) CHECK_EQ(a, b)
#define QCHECK_NE(a, b) CHECK_NE(a, b)
#define CHECK_STREQ(a, b) CHECK(std::string(a) == std::string(b))
#define DCHECK(cond) CHECK(cond)
#define DCHECK_EQ(a, b) CHECK_EQ(a, b)
#define DCHECK_NE(a, b) CHECK_NE(a, b)
#define DCHECK_LT(a, b) CHECK_LT(a, b)
#define DCHECK_LE(a, b) CHECK_LE(a, b)
#define DCHECK_GT(a, b) CHECK_GT(a, b)
#define DCHECK_GE(a, b) CHECK_GE(a, b)
#define DCHECK_OK(s) CHECK_OK(s)
#endif
