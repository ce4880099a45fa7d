#pragma once
#include "absl/log/check.h"
#include "absl/log/log.h"
#define ABSL_CHECK(c) CHECK(c)
#define ABSL_CHECK_EQ(a,b) CHECK_EQ(a,b)
#define ABSL_CHECK_NE(a,b) CHECK_NE(a,b)
#define ABSL_CHECK_OK(s) CHECK_OK(s)
