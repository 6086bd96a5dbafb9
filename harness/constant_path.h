// Runs the branches meant for constant evaluation at run time: every later "is constant evaluated?" in the library's headers answers yes.
// The standard headers come first, so their own answers stay as they are.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <bitset>
#include <cassert>
#include <cctype>
#include <charconv>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cwctype>
#include <functional>
#include <iomanip>
#include <ios>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <gmpxx.h>
namespace std { constexpr bool vf_constant_path() noexcept { return true; } }
#define is_constant_evaluated vf_constant_path
#define __builtin_is_constant_evaluated() true
#ifdef VF_IF_CONSTEVAL
#define consteval (true)
#endif
