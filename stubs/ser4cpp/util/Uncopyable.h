#pragma once
namespace ser4cpp {
class Uncopyable { protected: Uncopyable() = default; ~Uncopyable() = default; Uncopyable(const Uncopyable&) = delete; Uncopyable& operator=(const Uncopyable&) = delete; };
class StaticOnly { StaticOnly() = delete; StaticOnly(const StaticOnly&) = delete; StaticOnly& operator=(const StaticOnly&) = delete; };
}
