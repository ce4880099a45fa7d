#pragma once
#include "absl/log/check.h"
#include "absl/log/log.h"
