// Included before the code under test: standard headers first, then the cache-line intrinsics are
// redirected to the engine's persistency model.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <shared_mutex>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <typeinfo>
#include <utility>
#include <vector>
#include <immintrin.h>
#include "rbtree.hpp"
#include "mc.hpp"
#include "spec.hpp"
extern "C" void mc_mkdirs(const char *);
extern "C" void mc_quiesce();
extern "C" void mc_yield();
extern "C" int mc_distinct_mappings();
extern "C" int mc_file_mapped(const char *);
extern "C" long mc_file_list(const char *, char *, long);
#define _mm_clflush(p) mc_flush((const void *)(p))
#define _mm_clflushopt(p) mc_flush((const void *)(p))
#define _mm_clwb(p) mc_flush((const void *)(p))
#define _mm_sfence() mc_fence()
#define _mm_mfence() mc_fence()
#define _mm_pause() mc_point()
