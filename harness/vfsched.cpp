// Perturbs the schedule: an LD_PRELOAD library with random, seeded delays at the
// entry and the exit of (instrumented) functions, around the operations on
// mutexes and condition variables and before reads.
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#include <atomic>
#include <cstdint>

namespace {
std::atomic<uint32_t> g_prob{ 0 }; // out of 65536
std::atomic<uint32_t> g_maxUs{ 0 };
std::atomic<uint64_t> g_seed{ 0 };
std::atomic<uint32_t> g_epoch{ 0 };
std::atomic<uint64_t> g_threads{ 0 };
std::atomic<uint64_t> g_count{ 0 };

thread_local uint64_t t_state = 0;
thread_local uint32_t t_epoch = 0;
thread_local bool t_inside = false;

inline void perturb()
{
  auto prob = g_prob.load(std::memory_order_relaxed);
  if (prob == 0 || t_inside) {
    return;
  }
  auto epoch = g_epoch.load(std::memory_order_relaxed);
  if (t_epoch != epoch || t_state == 0) {
    t_epoch = epoch;
    t_state = (g_seed.load() + 0x9E3779B97F4A7C15ull * (1 + g_threads++)) | 1;
  }
  auto x = t_state;
  x ^= x << 13;
  x ^= x >> 7;
  x ^= x << 17;
  t_state = x;
  if (((x >> 11) & 0xFFFF) >= prob) {
    return;
  }
  t_inside = true;
  g_count.fetch_add(1, std::memory_order_relaxed);
  auto kind = (x >> 32) & 7;
  if (kind < 3) {
    sched_yield();
  } else if (kind < 5) {
    for (volatile uint32_t i = 0; i < ((x >> 40) & 0xFFF); i = i + 1) {
    }
  } else {
    auto max = g_maxUs.load(std::memory_order_relaxed);
    timespec ts = { 0, static_cast<long>((x >> 36) % (max + 1)) * 1000 };
    nanosleep(&ts, nullptr);
  }
  t_inside = false;
}

template <typename F>
F next(const char* name)
{
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
}

extern "C" {

void vf_sched(uint64_t seed, uint32_t prob, uint32_t maxUs)
{
  g_seed = seed;
  g_threads = 0;
  g_maxUs = maxUs;
  ++g_epoch;
  g_prob = prob;
}

uint64_t vf_sched_count()
{
  return g_count;
}

void __cyg_profile_func_enter(void*, void*)
{
  perturb();
}

void __cyg_profile_func_exit(void*, void*)
{
  perturb();
}

int pthread_mutex_lock(pthread_mutex_t* m)
{
  static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
  perturb();
  return f(m);
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
  static auto f = next<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
  auto r = f(m);
  perturb();
  return r;
}

ssize_t read(int fd, void* buf, size_t n)
{
  static auto f = next<ssize_t (*)(int, void*, size_t)>("read");
  perturb();
  return f(fd, buf, n);
}
}
