#pragma once
#include <vector>
namespace lx { extern bool on; extern long long now, step; extern std::vector<long long> reads; }
