#pragma once
#include <stddef.h>
#include <cstddef>
#include <numeric>
#include <ext/atomicity.h>
using std::nullptr_t;
