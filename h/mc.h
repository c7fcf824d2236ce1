// Explorer runtime shared by all harnesses of /verif.
//
// A harness defines a finite, deterministically ordered list of work items
// (each item is itself an exhaustive enumeration of a sub-space) and runs them
// on all cores in forked workers.  The explorer
//   * hands out the items through a shared counter,
//   * keeps the case currently executing in shared memory, so that a crash
//     (failed assertion, signal) or a hang of the code under test is
//     attributed to exactly one case and reported as a violation,
//   * counts states / transitions / checks and distinct observed outcomes in
//     shared memory (measured, never constants),
//   * re-executes ("replays") every violating item alone before reporting it.
#pragma once
#include <spdlog/spdlog.h>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace mc {

constexpr size_t kHashCap = 1u << 22;
constexpr int kMaxWorkers = 16;
struct WorkerSlot {
  std::atomic<long> item;       // item being executed (-1 idle)
  std::atomic<double> started;  // wall time at which the item started
  std::atomic<uint64_t> beat;   // heartbeat, bumped by every case()
  char what[4000];              // current case
};
struct Shared {
  std::atomic<long> next;
  std::atomic<uint64_t> states, transitions, checks, traces;
  std::atomic<uint64_t> distinct, distinct_overflow;
  std::atomic<uint64_t> viol;
  std::atomic<uint64_t> table[kHashCap];
  WorkerSlot w[kMaxWorkers];
};
inline Shared* S = nullptr;
inline int W = 0;  // worker slot
inline bool thorough = false;
inline FILE* log_ = nullptr;
inline int samples_left = 2;
inline uint64_t viol_in_worker = 0;
inline std::map<std::string, int> viol_by_key;

inline double now() {
  return std::chrono::duration<double>(
             std::chrono::steady_clock::now().time_since_epoch())
      .count();
}
inline void states(uint64_t n = 1) { S->states += n; }
inline void transitions(uint64_t n = 1) { S->transitions += n; }
inline void traces(uint64_t n = 1) { S->traces += n; }
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  const auto* c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}
inline uint64_t fnv(const std::string& s) { return fnv(s.data(), s.size()); }
// Record one distinct (non-trivial) outcome / state.  Returns true if it is new
// (globally, over all workers).
inline bool outcome(uint64_t h) {
  h ^= h >> 31;
  h *= 0x9E3779B97F4A7C15ull;
  h ^= h >> 29;
  if (h == 0) h = 1;
  size_t i = h & (kHashCap - 1);
  for (int k = 0; k < 256; ++k, i = (i + 1) & (kHashCap - 1)) {
    uint64_t e = 0;
    if (S->table[i].load() == h) return false;
    if (S->table[i].compare_exchange_strong(e, h)) {
      S->distinct++;
      return true;
    }
    if (e == h) return false;
  }
  S->distinct_overflow++;
  return false;
}
inline bool outcome(const std::string& s) { return outcome(fnv(s)); }

inline std::string esc(const std::string& s) {
  std::string r;
  for (char ch : s) {
    auto c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') {
      r += '\\';
      r += ch;
    } else if (c < 32 || c > 126) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else {
      r += ch;
    }
  }
  return r;
}
// Set the description of the case which is executed next.
inline void current(const std::string& s) {
  auto& w = S->w[W];
  size_t n = std::min(s.size(), sizeof(w.what) - 1);
  memcpy(w.what, s.data(), n);
  w.what[n] = 0;
  w.beat++;
}
inline std::string current() { return S->w[W].what; }
inline void beat() { S->w[W].beat++; }
inline void sample(const std::string& s) {
  if (samples_left > 0 && log_) {
    --samples_left;
    fprintf(log_, "{\"t\":\"sample\",\"s\":\"%s\"}\n", esc(s).c_str());
    fflush(log_);
  }
}
inline void violation(const std::string& key, const std::string& msg) {
  S->viol++;
  if (++viol_by_key[key] > 3) return;
  if (++viol_in_worker > 60) return;
  if (log_) {
    fprintf(log_,
            "{\"t\":\"viol\",\"item\":%ld,\"key\":\"%s\",\"case\":\"%s\","
            "\"msg\":\"%s\"}\n",
            S->w[W].item.load(), esc(key).c_str(), esc(current()).c_str(),
            esc(msg).c_str());
    fflush(log_);
  }
}
struct Msg {
  std::ostringstream o;
  template <class T>
  Msg& operator<<(const T& t) {
    o << t;
    return *this;
  }
  std::string str() const { return o.str(); }
};
#define MC_CHECK(cond, key, ...)                                          \
  do {                                                                    \
    mc::S->checks++;                                                      \
    if (!(cond)) {                                                        \
      mc::Msg m_;                                                         \
      m_.o.precision(17);                                                 \
      m_ << #cond << " fails: " << __VA_ARGS__;                           \
      mc::violation(key, m_.str());                                       \
    }                                                                     \
  } while (0)
// numerical agreement, relative to the magnitude `scale` (>=1)
inline bool close(double a, double b, double tol = 1e-9, double scale = 1.0) {
  return std::isfinite(a) && std::isfinite(b) &&
         std::abs(a - b) <=
             tol * std::max(scale, std::max(std::abs(a), std::abs(b)));
}

struct Options {
  double item_timeout = 150;  // seconds without a heartbeat => hang
};

// item(i) explores item i completely.
inline int run(int argc, char** argv, long (*count)(),
               const std::function<void(long)>& item, Options opt = {}) {
  int jobs = 8;
  long only = -1;
  std::string out = "/dev/stdout";
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--tier" && i + 1 < argc) thorough = std::string(argv[++i]) == "thorough";
    else if (a == "--jobs" && i + 1 < argc) jobs = atoi(argv[++i]);
    else if (a == "--item" && i + 1 < argc) only = atol(argv[++i]);
    else if (a == "--out" && i + 1 < argc) out = argv[++i];
  }
  if (jobs > kMaxWorkers) jobs = kMaxWorkers;
  S = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  const long n = count();
  const long first = only >= 0 ? only : 0;
  const long last = only >= 0 ? only + 1 : n;
  S->next = first;
  struct rlimit nocore {0, 0};
  setrlimit(RLIMIT_CORE, &nocore);
  std::vector<pid_t> pid(jobs, -1);
  auto logname = [&](int k) { return out + "." + std::to_string(k); };
  for (int k = 0; k < jobs; ++k) unlink(logname(k).c_str());
  auto spawn = [&](int k) {
    S->w[k].item = -1;
    S->w[k].what[0] = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      W = k;
      // the code under test is chatty: keep its output out of our protocol
      int nul = open("/dev/null", O_WRONLY);
      dup2(nul, 1);
      std::string en = out + ".err." + std::to_string(k);
      int ef = open(en.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
      if (ef >= 0) dup2(ef, 2);
      log_ = fopen(logname(k).c_str(), "a");
      for (;;) {
        long i = S->next++;
        if (i >= last) break;
        S->w[k].started = now();
        S->w[k].item = i;
        current("item " + std::to_string(i));
        try {
          // results must not depend on the log level (messages go to /dev/null)
          spdlog::set_level(i % 4 == 1 ? spdlog::level::trace : spdlog::level::info);
          item(i);
        } catch (const std::exception& e) {
          violation("exception", std::string("unexpected exception: ") + e.what());
        }
        S->w[k].item = -1;
      }
      fclose(log_);
      _exit(0);
    }
    pid[k] = p;
  };
  for (int k = 0; k < jobs; ++k) spawn(k);
  FILE* lg = fopen((out + ".main").c_str(), "w");
  int alive = jobs, restarts = 0;
  std::vector<uint64_t> lastbeat(jobs, 0);
  std::vector<double> lastt(jobs, now());
  std::vector<bool> hung(jobs, false);
  bool done_restart = false;
  while (alive > 0) {
    usleep(20000);
    for (int k = 0; k < jobs; ++k) {
      if (pid[k] < 0) continue;
      uint64_t b = S->w[k].beat;
      if (b != lastbeat[k]) {
        lastbeat[k] = b;
        lastt[k] = now();
      } else if (S->w[k].item >= 0 && now() - lastt[k] > opt.item_timeout) {
        hung[k] = true;
        kill(pid[k], SIGKILL);
      }
      int st = 0;
      pid_t r = waitpid(pid[k], &st, WNOHANG);
      if (r != pid[k]) continue;
      pid[k] = -1;
      --alive;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
      // crashed
      std::string tail;
      {
        FILE* f = fopen((out + ".err." + std::to_string(k)).c_str(), "r");
        if (f) {
          char buf[601];
          // head of the diagnostic: first line mentioning an assertion
          size_t m = fread(buf, 1, 600, f);
          buf[m] = 0;
          tail = buf;
          fclose(f);
        }
      }
      S->viol++;
      fprintf(lg,
              "{\"t\":\"viol\",\"item\":%ld,\"key\":\"%s\",\"case\":\"%s\","
              "\"msg\":\"%s (status %d): %s\"}\n",
              S->w[k].item.load(), hung[k] ? "hang" : "crash",
              esc(S->w[k].what).c_str(), hung[k] ? "hang" : "crash", st,
              esc(tail).c_str());
      fflush(lg);
      hung[k] = false;
      if (restarts < 24) {
        ++restarts;
        ++alive;
        lastt[k] = now();
        spawn(k);
      } else {
        done_restart = true;
      }
    }
  }
  fprintf(lg,
          "{\"t\":\"sum\",\"items\":%ld,\"states\":%llu,\"transitions\":%llu,"
          "\"checks\":%llu,\"traces\":%llu,\"distinct\":%llu,\"overflow\":%llu,"
          "\"viol\":%llu,\"capped\":%s}\n",
          last - first, (unsigned long long)S->states,
          (unsigned long long)S->transitions, (unsigned long long)S->checks,
          (unsigned long long)S->traces, (unsigned long long)S->distinct,
          (unsigned long long)S->distinct_overflow,
          (unsigned long long)S->viol, done_restart ? "true" : "false");
  fclose(lg);
  return S->viol ? 1 : 0;
}
}  // namespace mc
