#pragma once
#include "rt.h"
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <exception>
#include <functional>
#include <future>
#include <memory>
#include <mutex>
#include <string>
#include <thread>
#include <utility>
#include <vector>

#include <portable_concurrency/execution>
namespace pc = portable_concurrency;

#define HARNESS(name, rule)                                                    \
  extern "C" const char *harness_name() { return name; }                       \
  extern "C" const char *harness_rule() { return rule; }
