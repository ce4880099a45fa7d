#include "elfio.hpp"
