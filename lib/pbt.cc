#include "pbt.h"

#include <dirent.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <unordered_set>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

namespace pbt {
namespace {

using Clock = std::chrono::steady_clock;

uint64_t mix(uint64_t& s) {
  uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}

uint64_t hash_str(const std::string& s) {
  uint64_t h = 0xcbf29ce484222325ULL;
  for (unsigned char c : s) h = (h ^ c) * 0x100000001b3ULL;
  return h;
}

uint64_t hash_vec(uint64_t h, const std::vector<uint64_t>& v) {
  for (uint64_t x : v) {
    h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
  }
  return h;
}

std::vector<Suite>& suites() {
  static std::vector<Suite>* s = new std::vector<Suite>;
  return *s;
}

constexpr int kMaxWorkers = 64;
constexpr size_t kMsgSize = 1 << 16;
constexpr size_t kRecSize = 1 << 20;

struct Shared {
  std::atomic<int> suite[kMaxWorkers];
  std::atomic<long> index[kMaxWorkers];
  std::atomic<long> ticks[kMaxWorkers];
  std::atomic<int> status[kMaxWorkers];  // 0 running, 1 failed, 2 done
  std::atomic<int> stop;
  // Used by single-case runs.
  std::atomic<int> one_status;  // 0 started, 1 failed, 2 ok
  std::atomic<long> one_nrec;
  char one_key[256];
  char one_msg[kMsgSize];
  uint64_t one_rec[kRecSize];
};

Shared* g_shared = nullptr;
bool g_record_live = false;  // single-case run: record choices as drawn
std::string g_known_key;     // set by fail_known
std::set<std::string> g_known;  // keys listed for this property
std::string g_scratch;
std::string g_scratch_base;

struct KnownHit {
  std::string key, msg;
};

std::string json_str(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    switch (c) {
      case '"': o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          char b[8];
          snprintf(b, sizeof b, "\\u%04x", c);
          o += b;
        } else {
          o += c;
        }
    }
  }
  return o + "\"";
}

uint64_t case_seed(uint64_t seed, const std::string& suite, long index) {
  uint64_t s = seed * 0x9e3779b97f4a7c15ULL ^ hash_str(suite);
  mix(s);
  s ^= static_cast<uint64_t>(index) * 0xd1342543de82ef95ULL;
  mix(s);
  return mix(s);
}

struct Stats {
  long evaluations = 0;
  long nontrivial = 0;
  std::map<std::string, long> labels;
  std::unordered_set<uint64_t> distinct;
  std::vector<std::string> samples;
};

void write_stats(const std::string& path, const std::vector<Stats>& st,
                 const std::map<std::string, std::pair<long, std::string>>& known) {
  std::ofstream o(path, std::ios::binary);
  auto w64 = [&](uint64_t v) { o.write((char*)&v, 8); };
  auto wstr = [&](const std::string& s) {
    w64(s.size());
    o.write(s.data(), s.size());
  };
  for (auto& s : st) {
    w64(s.evaluations);
    w64(s.nontrivial);
    w64(s.labels.size());
    for (auto& [k, v] : s.labels) {
      wstr(k);
      w64(v);
    }
    w64(s.distinct.size());
    for (auto h : s.distinct) w64(h);
    w64(s.samples.size());
    for (auto& x : s.samples) wstr(x);
  }
  w64(known.size());
  for (auto& [k, v] : known) {
    wstr(k);
    w64(v.first);
    wstr(v.second);
  }
}

void read_stats(const std::string& path, std::vector<Stats>& st,
                std::map<std::string, std::pair<long, std::string>>& known) {
  std::ifstream i(path, std::ios::binary);
  if (!i) return;
  auto r64 = [&]() {
    uint64_t v = 0;
    i.read((char*)&v, 8);
    return i ? v : 0;
  };
  auto rstr = [&]() {
    std::string s(r64(), 0);
    i.read(s.data(), s.size());
    return s;
  };
  for (auto& s : st) {
    s.evaluations += r64();
    s.nontrivial += r64();
    for (uint64_t n = r64(); n > 0; n--) {
      auto k = rstr();
      s.labels[k] += r64();
    }
    for (uint64_t n = r64(); n > 0; n--) s.distinct.insert(r64());
    for (uint64_t n = r64(); n > 0; n--) s.samples.push_back(rstr());
  }
  for (uint64_t n = r64(); n > 0; n--) {
    auto k = rstr();
    auto c = r64();
    auto m = rstr();
    auto& e = known[k];
    e.first += c;
    if (e.second.empty()) e.second = m;
  }
}

// The leak oracle: runs a case that holds again and again; memory in use that
// grows by the same amount every time is memory the case left behind.  Returns
// that amount, or 0.
long leaked_per_run(const Suite& suite, const std::vector<uint64_t>& choices) {
  if (__sanitizer_get_current_allocated_bytes == nullptr) return 0;
  constexpr int kRuns = 6;
  size_t bytes[kRuns];
  bool live = g_record_live;
  g_record_live = false;
  for (int r = 0; r < kRuns; r++) {
    bool ok = true;
    {
      Src src(choices);
      Ctx ctx;
      ctx.logging_ = false;
      try {
        suite.fn(src, ctx);
        if (ctx.leak_ok_) ok = false;
      } catch (const Failure&) {
        ok = false;
      }
    }
    g_known_key.clear();
    if (!ok) {
      g_record_live = live;
      return 0;
    }
    bytes[r] = __sanitizer_get_current_allocated_bytes();
    // Most cases: no more than before.
    if (r >= 2 && bytes[r] <= bytes[r - 1]) {
      g_record_live = live;
      return 0;
    }
  }
  g_record_live = live;
  long delta = static_cast<long>(bytes[kRuns - 1] - bytes[kRuns - 2]);
  for (int r = 3; r < kRuns; r++)
    if (static_cast<long>(bytes[r] - bytes[r - 1]) != delta) return 0;
  return delta;
}

// Long cases are not run again.
constexpr double kLeakMaxS = 0.05;
constexpr long kLeakEvery = 12;

void worker(int w, int nworkers, uint64_t seed, bool thorough, double cap_s,
            double scale, const std::string& stats_path,
            const std::string& only) {
  auto start = Clock::now();
  auto& ss = suites();
  std::vector<Stats> stats(ss.size());
  std::map<std::string, std::pair<long, std::string>> known;
  // Round-robin over the suites in slices, so that a time cap cuts evenly.
  std::vector<long> next(ss.size(), w), total(ss.size());
  for (size_t i = 0; i < ss.size(); i++) {
    total[i] = static_cast<long>((thorough ? ss[i].thorough : ss[i].quick) * scale);
    if (total[i] < 1) total[i] = 1;
    if (!only.empty() && ss[i].name != only) total[i] = 0;
  }
  bool more = true;
  while (more) {
    more = false;
    for (size_t i = 0; i < ss.size(); i++) {
      long slice = std::max<long>(1, total[i] / 20 / nworkers);
      for (long k = 0; k < slice && next[i] < total[i]; k++) {
        if (g_shared->stop.load()) goto done;
        if (std::chrono::duration<double>(Clock::now() - start).count() > cap_s)
          goto done;
        long idx = next[i];
        g_shared->suite[w] = i;
        g_shared->index[w] = idx;
        g_shared->ticks[w]++;
        Src src(case_seed(seed, ss[i].name, idx));
        Ctx ctx;
        ctx.logging_ = idx < 40;
        auto began = Clock::now();
        try {
          ss[i].fn(src, ctx);
          if ((idx / nworkers) % kLeakEvery == 0 &&
              std::chrono::duration<double>(Clock::now() - began).count() < kLeakMaxS &&
              leaked_per_run(ss[i], src.recorded()) > 0) {
            g_shared->status[w] = 1;
            write_stats(stats_path, stats, known);
            _exit(0);
          }
        } catch (const Failure& f) {
          if (!g_known_key.empty() && g_known.count(g_known_key)) {
            auto& e = known[g_known_key];
            e.first++;
            if (e.second.empty()) e.second = f.msg;
            g_known_key.clear();
            ctx.label("known-finding");
          } else {
            g_shared->status[w] = 1;
            write_stats(stats_path, stats, known);
            _exit(0);
          }
        }
        auto& st = stats[i];
        st.evaluations++;
        for (auto& l : ctx.labels_) st.labels[l]++;
        if (ctx.nontrivial_) {
          st.nontrivial++;
          if (st.distinct.size() < 2000000)
            st.distinct.insert(hash_vec(i, src.recorded()));
          if (ctx.logging_ && st.samples.size() < 2 && !ctx.lines_.empty()) {
            std::string t;
            for (auto& l : ctx.lines_) {
              if (!t.empty()) t += "; ";
              t += l;
              if (t.size() > 700) {
                t += " ...";
                break;
              }
            }
            st.samples.push_back(t);
          }
        }
        next[i] += nworkers;
      }
      if (next[i] < total[i]) more = true;
    }
  }
done:
  write_stats(stats_path, stats, known);
  g_shared->status[w] = 2;
  if (!g_scratch.empty()) {
    std::string cmd = "rm -rf '" + g_scratch + "'";
    if (system(cmd.c_str())) {
    }
  }
  _exit(0);
}

struct OneResult {
  bool failed = false;
  std::string key;
  std::string msg;
  std::vector<uint64_t> rec;
  std::vector<std::string> lines;
};

std::string g_tmp;
double g_hang_s = 60;

// Runs one case in a child.
OneResult run_one(const Suite& suite, std::function<Src()> make, bool want_log) {
  auto* sh = g_shared;
  sh->one_status = 0;
  sh->one_nrec = 0;
  sh->one_key[0] = 0;
  sh->one_msg[0] = 0;
  std::string errf = g_tmp + "/one_err";
  std::string logf = g_tmp + "/one_log";
  fflush(stdout);
  pid_t p = fork();
  if (p == 0) {
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    int nfd = open("/dev/null", O_WRONLY);
    dup2(nfd, 1);
    g_record_live = true;
    g_known_key.clear();
    alarm(static_cast<unsigned>(g_hang_s));
    Src src = make();
    Ctx ctx;
    ctx.logging_ = want_log;
    auto save_log = [&]() {
      if (!want_log) return;
      std::ofstream o(logf);
      for (auto& l : ctx.lines_) o << l << "\n";
    };
    if (want_log) {
      std::ofstream o(logf);
    }
    auto began = Clock::now();
    try {
      suite.fn(src, ctx);
      save_log();
      double took = std::chrono::duration<double>(Clock::now() - began).count();
      long leak = took < 4 * kLeakMaxS ? leaked_per_run(suite, src.recorded()) : 0;
      if (leak > 0) {
        snprintf(sh->one_msg, kMsgSize,
                 "memory leak: every run of the case leaves another %ld bytes allocated", leak);
        sh->one_status = 1;
      } else {
        sh->one_status = 2;
      }
    } catch (const Failure& f) {
      save_log();
      snprintf(sh->one_key, sizeof sh->one_key, "%s", g_known_key.c_str());
      snprintf(sh->one_msg, kMsgSize, "%s", f.msg.c_str());
      sh->one_status = 1;
    }
    if (!g_scratch.empty()) {
      std::string cmd = "rm -rf '" + g_scratch + "'";
      if (system(cmd.c_str())) {
      }
    }
    _exit(0);
  }
  int st = 0;
  waitpid(p, &st, 0);
  OneResult r;
  long n = std::min<long>(sh->one_nrec, kRecSize);
  r.rec.assign(sh->one_rec, sh->one_rec + n);
  if (want_log) {
    std::ifstream i(logf);
    std::string l;
    while (std::getline(i, l)) r.lines.push_back(l);
  }
  if (sh->one_status == 2) return r;
  r.failed = true;
  if (sh->one_status == 1) {
    r.key = sh->one_key;
    r.msg = sh->one_msg;
    return r;
  }
  // Crash.
  std::ifstream e(errf);
  std::string l, best;
  int frames = 0;
  while (std::getline(e, l)) {
    if (l.find("ERROR: AddressSanitizer") != std::string::npos ||
        l.find("runtime error:") != std::string::npos ||
        l.find("FATAL") != std::string::npos ||
        l.find("Assertion") != std::string::npos ||
        l.find("terminate called") != std::string::npos ||
        l.find("what():") != std::string::npos) {
      if (!best.empty()) best += " | ";
      best += l;
    } else if (frames < 6 && l.find("    #") == 0) {
      auto in = l.find(" in ");
      if (in != std::string::npos) {
        best += " <- " + l.substr(in + 4, 120);
        frames++;
      }
    }
  }
  std::ostringstream os;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) {
    os << "the case did not finish within " << g_hang_s << " s (hang)";
  } else if (WIFSIGNALED(st)) {
    os << "crash: signal " << WTERMSIG(st) << ": " << best;
  } else {
    os << "crash: exit status " << WEXITSTATUS(st) << ": " << best;
  }
  r.msg = os.str();
  return r;
}

bool is_known(const OneResult& r) {
  return r.failed && !r.key.empty() && g_known.count(r.key);
}
bool bad(const OneResult& r) { return r.failed && !is_known(r); }

std::vector<uint64_t> shrink(const Suite& suite, std::vector<uint64_t> cur,
                             double budget_s, long* attempts) {
  auto start = Clock::now();
  auto left = [&]() {
    return std::chrono::duration<double>(Clock::now() - start).count() <
           budget_s;
  };
  auto better = [](const std::vector<uint64_t>& a,
                   const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
  };
  auto attempt = [&](const std::vector<uint64_t>& cand) {
    if (!left()) return false;
    (*attempts)++;
    auto r = run_one(suite, [&]() { return Src(cand); }, false);
    if (!bad(r)) return false;
    auto n = r.rec.size() <= cand.size() || r.rec.empty() ? r.rec : cand;
    // Strip trailing zeros: replay supplies zeros past the end.
    while (!n.empty() && n.back() == 0) n.pop_back();
    if (!better(n, cur)) return false;
    cur = n;
    return true;
  };
  while (!cur.empty() && cur.back() == 0) cur.pop_back();
  bool progress = true;
  while (progress && left()) {
    progress = false;
    // Delete blocks.
    for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && left();
         len = len == 1 ? 0 : len / 2) {
      for (size_t i = 0; i + len <= cur.size() && left();) {
        auto c = cur;
        c.erase(c.begin() + i, c.begin() + i + len);
        if (attempt(c)) {
          progress = true;
        } else {
          i += std::max<size_t>(1, len);
        }
      }
      if (len == 1) break;
    }
    // Lower values.
    for (size_t i = 0; i < cur.size() && left(); i++) {
      if (cur[i] == 0) continue;
      auto c = cur;
      c[i] = 0;
      if (attempt(c)) {
        progress = true;
        continue;
      }
      // Binary search for a smaller value.
      uint64_t lo = 0, hi = i < cur.size() ? cur[i] : 0;
      for (int k = 0; k < 64 && lo + 1 < hi && left() && i < cur.size(); k++) {
        uint64_t midv = lo + (hi - lo) / 2;
        c = cur;
        c[i] = midv;
        if (attempt(c)) {
          progress = true;
          hi = midv;
        } else {
          lo = midv;
        }
      }
      if (i < cur.size() && cur[i] > 0 && left()) {
        c = cur;
        c[i]--;
        if (attempt(c)) progress = true;
      }
    }
  }
  return cur;
}

void write_replay(const std::string& path, const std::string& property,
                  const std::string& suite, const std::vector<uint64_t>& c,
                  const OneResult& r, uint64_t seed, long index) {
  std::ofstream o(path);
  o << "property " << property << "\n";
  o << "suite " << suite << "\n";
  o << "found_with seed=" << seed << " case=" << index << "\n";
  o << "choices";
  for (auto v : c) o << " " << v;
  o << "\n";
  std::string m = r.msg;
  for (auto& ch : m)
    if (ch == '\n') ch = ' ';
  o << "failure " << m << "\n";
  o << "# trace of the failing case:\n";
  for (auto& l : r.lines) o << "#   " << l << "\n";
}

int do_replay(const std::string& path) {
  std::ifstream i(path);
  std::string l, suite, prop;
  std::vector<uint64_t> c;
  while (std::getline(i, l)) {
    std::istringstream is(l);
    std::string k;
    is >> k;
    if (k == "property") is >> prop;
    if (k == "suite") is >> suite;
    if (k == "choices") {
      uint64_t v;
      while (is >> v) c.push_back(v);
    }
  }
  for (auto& s : suites()) {
    if (s.name != suite) continue;
    auto r = run_one(s, [&]() { return Src(c); }, true);
    for (auto& x : r.lines) std::cout << "  " << x << "\n";
    if (bad(r)) {
      std::cout << "FAILS: " << r.msg << "\n";
      std::cout << "VIOLATION property=" << prop << " replay=" << path << "\n";
      return 1;
    }
    std::cout << (r.failed ? "known finding: " + r.msg : "passes") << "\n";
    return 0;
  }
  std::cerr << "no such suite: " << suite << "\n";
  return 2;
}

}  // namespace

uint64_t Src::draw(uint64_t bound) {
  uint64_t v;
  if (replay_) {
    v = pos_ < in_.size() ? in_[pos_] : 0;
    pos_++;
    if (bound != 0 && v >= bound) v = bound - 1;
  } else {
    v = mix(state_);
    if (bound != 0) {
      v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * bound) >> 64);
    }
  }
  rec_.push_back(v);
  if (g_record_live) {
    long n = g_shared->one_nrec;
    if (n < static_cast<long>(kRecSize)) {
      g_shared->one_rec[n] = v;
      g_shared->one_nrec = n + 1;
    }
  }
  return v;
}

uint64_t Src::interesting() {
  switch (draw(8)) {
    case 0: return draw(16);
    case 1: return draw(256);
    case 2: {
      uint64_t b = draw(64);
      return 1ULL << b;
    }
    case 3: {
      uint64_t b = draw(64);
      return (1ULL << b) - 1;
    }
    case 4: return ~draw(16);
    case 5: {
      uint64_t b = draw(64);
      return (~0ULL) << b;
    }
    case 6: return draw(1ULL << 32);
    default: return draw(0);
  }
}

int Src::weighted(std::initializer_list<int> w) {
  int tot = 0;
  for (int x : w) tot += x;
  int v = static_cast<int>(draw(tot));
  int i = 0;
  for (int x : w) {
    if (v < x) return i;
    v -= x;
    i++;
  }
  return 0;
}

void Ctx::add_log(const std::string& s) {
  if (lines_.size() < 400) lines_.push_back(s);
}

void fail(const std::string& msg) { throw Failure{msg}; }

void fail_known(const std::string& key, const std::string& msg) {
  g_known_key = key;
  throw Failure{msg};
}

Registrar::Registrar(const char* name, const char* rule, long quick,
                     long thorough, CaseFn fn) {
  suites().push_back({name, rule, quick, thorough, std::move(fn)});
}

std::string hex(uint64_t v) {
  char b[32];
  snprintf(b, sizeof b, "0x%llx", static_cast<unsigned long long>(v));
  return b;
}

std::string scratch_dir() {
  if (g_scratch.empty()) {
    std::string t = g_scratch_base + "/scratch_XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (mkdtemp(b.data()) == nullptr) abort();
    g_scratch = b.data();
  }
  return g_scratch;
}

}  // namespace pbt

int main(int argc, char** argv) {
  using namespace pbt;
  std::string property = "X", out, replay_dir = ".", known_file, replay, only,
              tmp = "/tmp";
  uint64_t seed = 1;
  bool thorough = false;
  int nworkers = 8;
  double cap = 0, scale = 1;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--property") property = val();
    else if (a == "--seed") seed = std::stoull(val());
    else if (a == "--tier") thorough = val() == "thorough";
    else if (a == "--out") out = val();
    else if (a == "--replay-dir") replay_dir = val();
    else if (a == "--known") known_file = val();
    else if (a == "--replay") replay = val();
    else if (a == "--workers") nworkers = std::stoi(val());
    else if (a == "--cap") cap = std::stod(val());
    else if (a == "--scale") scale = std::stod(val());
    else if (a == "--only") only = val();
    else if (a == "--tmp") tmp = val();
    else if (a == "--list") list = true;
  }
  if (list) {
    for (auto& s : suites()) std::cout << s.name << "\n";
    return 0;
  }
  nworkers = std::min(nworkers, kMaxWorkers);
  if (cap == 0) cap = thorough ? 700 : 240;
  auto start = Clock::now();
  {
    std::string t = tmp + "/pbt_XXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (mkdtemp(b.data()) == nullptr) {
      perror("mkdtemp");
      return 2;
    }
    g_tmp = b.data();
    g_scratch_base = g_tmp;
  }
  auto cleanup = [&]() {
    std::string cmd = "rm -rf '" + g_tmp + "'";
    if (system(cmd.c_str())) {
    }
  };
  if (!known_file.empty()) {
    // Lines: KNOWN-FINDING: property=<id> key=<key> <text>
    std::ifstream i(known_file);
    std::string l;
    while (std::getline(i, l)) {
      if (l.rfind("KNOWN-FINDING: property=" + property + " ", 0) != 0) continue;
      auto k = l.find(" key=");
      if (k == std::string::npos) continue;
      auto e = l.find(' ', k + 5);
      g_known.insert(l.substr(k + 5, e == std::string::npos ? e : e - k - 5));
    }
  }
  g_shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                                       PROT_READ | PROT_WRITE,
                                       MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if (g_shared == MAP_FAILED) {
    perror("mmap");
    return 2;
  }
  if (!replay.empty()) {
    int rc = do_replay(replay);
    cleanup();
    return rc;
  }
  // Run.
  std::vector<pid_t> pids(nworkers);
  fflush(stdout);
  auto errfile = [&](int w) { return g_tmp + "/err" + std::to_string(w); };
  for (int w = 0; w < nworkers; w++) {
    g_shared->status[w] = 0;
    g_shared->suite[w] = -1;
    pid_t p = fork();
    if (p == 0) {
      int fd = open(errfile(w).c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
      dup2(fd, 2);
      int nfd = open("/dev/null", O_WRONLY);
      dup2(nfd, 1);
      worker(w, nworkers, seed, thorough, cap, scale,
             g_tmp + "/stats" + std::to_string(w), only);
    }
    pids[w] = p;
  }
  std::vector<bool> alive(nworkers, true);
  std::vector<long> last(nworkers, -1);
  std::vector<Clock::time_point> last_t(nworkers, Clock::now());
  int nalive = nworkers;
  struct Bad {
    int suite;
    long index;
    bool hang;
  };
  std::vector<Bad> bads;
  while (nalive > 0) {
    usleep(5000);
    for (int w = 0; w < nworkers; w++) {
      if (!alive[w]) continue;
      int st;
      pid_t r = waitpid(pids[w], &st, WNOHANG);
      if (r == pids[w]) {
        alive[w] = false;
        nalive--;
        int status = g_shared->status[w];
        if (status != 2 && g_shared->suite[w] >= 0) {
          bads.push_back({g_shared->suite[w], g_shared->index[w], false});
          g_shared->stop = 1;
        } else if (status != 2) {
          std::cerr << "worker died before its first case\n";
          cleanup();
          return 2;
        }
        continue;
      }
      long t = g_shared->ticks[w];
      if (t != last[w]) {
        last[w] = t;
        last_t[w] = Clock::now();
      } else if (std::chrono::duration<double>(Clock::now() - last_t[w])
                     .count() > g_hang_s) {
        kill(pids[w], SIGKILL);
        waitpid(pids[w], &st, 0);
        alive[w] = false;
        nalive--;
        if (g_shared->suite[w] >= 0)
          bads.push_back({g_shared->suite[w], g_shared->index[w], true});
        g_shared->stop = 1;
      }
    }
  }
  // Merge statistics.
  std::vector<Stats> stats(suites().size());
  std::map<std::string, std::pair<long, std::string>> known;
  for (int w = 0; w < nworkers; w++)
    read_stats(g_tmp + "/stats" + std::to_string(w), stats, known);

  int violations = 0;
  std::string replay_path;
  long shrink_attempts = 0;
  bool unstable = false;
  for (auto& b : bads) {
    auto& s = suites()[b.suite];
    auto first = run_one(
        s, [&]() { return Src(case_seed(seed, s.name, b.index)); }, false);
    if (!bad(first)) {
      unstable = true;
      std::cerr << "case " << s.name << "#" << b.index
                << " failed in a worker but not alone\n";
      continue;
    }
    auto c = first.rec;
    if (b.hang) g_hang_s = 20;
    double budget = 60;
    if (const char* e = getenv("PBT_SHRINK_S")) budget = atof(e);
    c = shrink(s, c, budget, &shrink_attempts);
    OneResult r;
    int fails = 0;
    for (int k = 0; k < 3; k++) {
      r = run_one(s, [&]() { return Src(c); }, true);
      if (bad(r)) fails++;
    }
    if (fails < 3) {
      // Fall back on the unshrunk case.
      c = first.rec;
      fails = 0;
      for (int k = 0; k < 3; k++) {
        r = run_one(s, [&]() { return Src(c); }, true);
        if (bad(r)) fails++;
      }
    }
    if (fails < 3) {
      unstable = true;
      std::cerr << "case " << s.name << "#" << b.index
                << " does not fail repeatably\n";
      continue;
    }
    mkdir(replay_dir.c_str(), 0755);
    replay_path = replay_dir + "/" + property + "-" + s.name + ".replay";
    write_replay(replay_path, property, s.name, c, r, seed, b.index);
    std::cout << "suite " << s.name << ", case " << b.index << ": " << r.msg
              << "\n";
    for (auto& l : r.lines) std::cout << "  " << l << "\n";
    std::cout << "VIOLATION property=" << property << " replay=" << replay_path
              << "\n";
    violations++;
    break;
  }
  for (auto& [k, v] : known) {
    std::string m = v.second;
    for (auto& ch : m)
      if (ch == '\n') ch = ' ';
    std::cout << "KNOWN-FINDING: property=" << property << " key=" << k << " ("
              << v.first << " cases) " << m << "\n";
  }
  long ev = 0, nt = 0, dn = 0;
  for (auto& s : stats) {
    ev += s.evaluations;
    nt += s.nontrivial;
    dn += s.distinct.size();
  }
  double wall = std::chrono::duration<double>(Clock::now() - start).count();
  if (!out.empty()) {
    std::ofstream o(out);
    o << "{\n \"property\": " << json_str(property) << ",\n \"tier\": \""
      << (thorough ? "thorough" : "quick") << "\",\n \"seed\": " << seed
      << ",\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": "
      << ev << ",\n  \"distinct_nontrivial\": " << dn << ",\n  \"rule\": ";
    std::string rule =
        "Each case is one generated input or operation history of a suite; "
        "distinct by its sequence of generator choices. Non-trivial per suite: ";
    for (auto& s : suites()) rule += s.name + ": " + s.rule + ". ";
    o << json_str(rule) << ",\n  \"samples\": [";
    bool f = true;
    for (size_t i = 0; i < stats.size(); i++) {
      size_t n = 0;
      for (auto& x : stats[i].samples) {
        if (n++ >= 2) break;
        o << (f ? "" : ",") << "\n   " << json_str(suites()[i].name + ": " + x);
        f = false;
      }
    }
    o << "\n  ],\n  \"suites\": {";
    f = true;
    for (size_t i = 0; i < stats.size(); i++) {
      o << (f ? "" : ",") << "\n   " << json_str(suites()[i].name)
        << ": {\"evaluations\": " << stats[i].evaluations
        << ", \"nontrivial\": " << stats[i].nontrivial
        << ", \"distinct_nontrivial\": " << stats[i].distinct.size()
        << ", \"labels\": {";
      bool g = true;
      for (auto& [k, v] : stats[i].labels) {
        o << (g ? "" : ", ") << json_str(k) << ": " << v;
        g = false;
      }
      o << "}}";
      f = false;
    }
    o << "\n  },\n  \"shrink_attempts\": " << shrink_attempts << "\n },\n"
      << " \"wall_s\": " << wall << ",\n \"violations\": " << violations
      << "\n}\n";
  }
  std::cout << property << ": " << ev << " cases, " << nt << " non-trivial ("
            << dn << " distinct), " << wall << " s\n";
  cleanup();
  if (violations) return 1;
  if (unstable) return 3;
  return 0;
}
