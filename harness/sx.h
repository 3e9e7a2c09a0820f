#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstdint>
// operations of the collections over n elements, to be performed in order
std::vector<std::pair<std::string, std::function<void()>>> sx_ops(int64_t n, uint64_t seed);
