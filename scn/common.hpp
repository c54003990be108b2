#pragma once
#include "sim.hpp"
#include <atomic>
#include <chrono>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <thread>
#include <vector>
using sim::CFG; using sim::SCHED; using sim::NET; using sim::FAULT; using sim::WORK; using sim::DISK;
using sim::choose; using sim::chance; using sim::range; using sim::note; using sim::payload;
using sim::US; using sim::MS; using sim::SEC; using sim::u64; using sim::u32;
using sim::cfg;
#define EXPECT SIM_EXPECT
inline void nap(u64 ns) { std::this_thread::sleep_for(std::chrono::nanoseconds(ns)); }
// pick a value; index 0 is the benign one
template <typename T> T pick(sim::Stream s, std::initializer_list<T> v) { return *(v.begin() + choose(s, (u32)v.size())); }
