// Native runtime of the contracts: runs each contract on generated inputs (or replays one input) against the real code.
#include <signal.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <sstream>
#include <unordered_set>

#include "vf.h"

namespace vf {
struct Entry {
  std::string name;
  std::function<void(Chooser&)> fn;
  bool bounded;
};
static std::vector<Entry>& reg() {
  static std::vector<Entry> r;
  return r;
}
void add(const char* name, std::function<void(Chooser&)> fn, bool bounded) { reg().push_back({name, std::move(fn), bounded}); }
static Chooser* cur = nullptr;
static std::string notes;
static const char* curName = "";
static int outfd = 1;
static std::unordered_set<std::string> covers;
static long asserts = 0;
Chooser& current() { return *cur; }
void note(const std::string& s) { notes += s + "; "; }

static std::string esc(const std::string& s) {
  std::string r;
  for (char c : s) {
    if (c == '"' || c == '\\') r += '\\';
    if ((unsigned char)c < 32) { r += ' '; continue; }
    r += c;
  }
  return r;
}
static std::string trailStr() {
  std::string t = "[";
  for (size_t i = 0; i < cur->trail.size(); ++i) t += (i ? "," : "") + std::to_string(cur->trail[i]);
  return t + "]";
}
static void report(const std::string& what) {
  std::string s = "{\"event\":\"fail\",\"contract\":\"" + std::string(curName) + "\",\"what\":\"" + esc(what) +
                  "\",\"notes\":\"" + esc(notes) + "\",\"trail\":" + trailStr() + "}\n";
  (void)!write(outfd, s.data(), s.size());
}
static void onSignal(int sig) {
  signal(sig, SIG_DFL);
  std::string what = sig == SIGPROF ? "no result within the time limit of one case"
                                    : "crash: signal " + std::to_string(sig) + (sig == SIGABRT ? " (failed assertion or std::terminate)" : "");
  report(what);
  _exit(3);
}
static bool runOne(Entry& e, Chooser& c) {
  cur = &c;
  notes.clear();
  curName = e.name.c_str();
  try {
    e.fn(c);
    return true;
  } catch (Discard&) {
    return false;
  }
}
}  // namespace vf
using namespace vf;

extern "C" {
void vf_assume(bool b) {
  if (!b) throw Discard{};
}
void vf_assert(bool b, const char* name) {
  ++asserts;
  if (!b) throw Failed{name};
}
void vf_cover(const char* n) { covers.insert(n); }
size_t vf_index(size_t n) {
  if (n == 0) throw Discard{};
  return current().choose(uint32_t(n));
}
int64_t vf_any_id() { return Gen<long>::make(current()); }
int vf_any_int(int lo, int hi) {
  if (hi - lo > 1000000 || hi < lo) return Gen<int>::make(current());
  return current().range(lo, hi);
}
bool vf_any_bool() { return current().flip(); }
double vf_any_real() { return current().real(); }
bool vf_pred(int64_t key, int which) {
  auto& seed = current().predSeed;
  if (!seed) seed = 1 + current().choose(1000);
  uint64_t h = uint64_t(key) * 0x9E3779B97F4A7C15ull ^ uint64_t(which) * 0xC2B2AE3D27D4EB4Full ^ uint64_t(seed) * 0x165667B19E3779F9ull;
  h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
  return h % 4 != 0;
}
}

int main(int argc, char** argv) {
  std::string only, replayTrail;
  long cases = 2000;
  double secs = 20;
  unsigned long seed = 1;
  int size = 3;
  bool list = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(argv[++i]); };
    if (a == "--only") only = next();
    else if (a == "--cases") cases = std::stol(next());
    else if (a == "--secs") secs = std::stod(next());
    else if (a == "--seed") seed = std::stoul(next());
    else if (a == "--size") size = std::stoi(next());
    else if (a == "--replay") replayTrail = next();
    else if (a == "--list") list = true;
  }
  if (list) {
    for (auto& e : reg()) std::printf("%s %d\n", e.name.c_str(), int(e.bounded));
    return 0;
  }
  int rc = 0;
  for (auto& e : reg()) {
    if (!only.empty() && only != e.name) continue;
    std::fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGPROF}) signal(s, onSignal);
      outfd = dup(1);
      // code under test may print
      (void)!freopen("/dev/null", "w", stdout);
      (void)!freopen("/dev/null", "w", stderr);
      std::unordered_set<std::string> distinct;
      auto t0 = std::chrono::steady_clock::now();
      long done = 0, discarded = 0, tried = 0;
      std::string sample;
      bool replaying = !replayTrail.empty();
      while (done < cases && tried < cases * 50) {
        ++tried;
        Chooser c;
        c.rng.seed(seed * 1000003 + tried);
        c.size = replaying ? size : (tried < cases / 4 ? std::max(0, size - 2) : size);
        if (replaying) {
          c.replaying = true;
          std::stringstream ss(replayTrail);
          std::string tok;
          std::getline(ss, tok, ':');
          c.size = std::stoi(tok);
          while (std::getline(ss, tok, ',')) c.replay.push_back(uint32_t(std::stoul(tok)));
        }
        itimerval tv{};
        tv.it_value.tv_sec = 40;
        setitimer(ITIMER_PROF, &tv, nullptr);
        try {
          cur = &c;
          if (runOne(e, c)) {
            ++done;
            if (distinct.size() < 200000) {
              std::string t = trailStr();
              if (sample.empty() || (done == 7)) sample = t + " " + notes;
              distinct.insert(std::move(t));
            }
          } else {
            ++discarded;
          }
        } catch (Failed& f) {
          note("size=" + std::to_string(c.size));
          report(f.name);
          _exit(3);
        } catch (std::exception& ex) {
          note("size=" + std::to_string(c.size));
          report(std::string("uncaught exception: ") + ex.what());
          _exit(3);
        } catch (...) {
          note("size=" + std::to_string(c.size));
          report("uncaught exception");
          _exit(3);
        }
        if (replaying) break;
        if ((tried & 15) == 0 &&
            std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs)
          break;
      }
      std::string cv;
      for (auto& s : covers) cv += (cv.empty() ? "\"" : ",\"") + esc(s) + "\"";
      std::string s = "{\"event\":\"done\",\"contract\":\"" + e.name + "\",\"bounded\":" + (e.bounded ? "true" : "false") +
                      ",\"cases\":" + std::to_string(done) + ",\"distinct\":" + std::to_string(distinct.size()) +
                      ",\"discarded\":" + std::to_string(discarded) + ",\"asserts\":" + std::to_string(asserts) +
                      ",\"covers\":[" + cv + "],\"sample\":\"" + esc(sample) + "\"}\n";
      (void)!write(outfd, s.data(), s.size());
      _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) rc = 1;
  }
  return rc;
}
