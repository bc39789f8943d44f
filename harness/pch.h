#include <chrono>
#include <functional>
#include <unordered_map>
#include <asio.hpp>
#include <spdlog/spdlog.h>
#include <spdlog/fmt/ostr.h>
#include <memory>
#include <string>
#include <deque>
#include <map>
#include <vector>
