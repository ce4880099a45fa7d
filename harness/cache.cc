// C22: the cache model.  What its counters say is what a reference cache says
// (sets of lines found by linear search, least recently used replacement), and
// it never changes what the memory behind it does.
#include <sstream>

#include "mem_common.h"
#include "mpact/sim/generic/counters.h"
#include "mpact/sim/util/memory/cache.h"
#include "mpact/sim/util/memory/flat_demand_memory.h"
#include "mpact/sim/util/memory/tagged_flat_demand_memory.h"

using namespace memtest;  // NOLINT
using mpact::sim::generic::Component;
using mpact::sim::generic::SimpleCounter;
using mpact::sim::util::Cache;
using mpact::sim::util::FlatDemandMemory;
using mpact::sim::util::TaggedFlatDemandMemory;

namespace {

const char* kNames[] = {"read_hit",     "read_miss",          "write_hit",
                        "write_miss",   "dirty_line_writeback", "read_around",
                        "write_around", "read_non_cacheable", "write_non_cacheable"};
enum { RH, RM, WH, WM, DW, RA, WA, RN, WN, NC };

struct Config {
  uint64_t size = 0, line = 0, ways = 0;  // ways 0: fully associative
  bool allocate = false;
  bool cacheable = false;  // what the ranges say
  std::vector<std::pair<uint64_t, uint64_t>> ranges;
  std::string Text(pbt::Src& src) const {
    std::ostringstream os;
    if (size % (1024 * 1024) == 0 && src.flip()) {
      os << size / (1024 * 1024) << "M";
    } else if (size % (1024 * 1024 * 1024) == 0 && src.flip()) {
      os << size / (1024 * 1024 * 1024) << "G";
    } else if (size % 1024 == 0 && src.flip()) {
      os << size / 1024 << "k";
    } else {
      os << size;
    }
    os << "," << line << "," << ways << "," << (allocate ? "true" : "false");
    for (auto& [a, b] : ranges) {
      os << (cacheable ? ",c:" : ",nc:");
      if (src.flip()) {
        os << std::hex << "0x" << a << ":0x" << b << std::dec;
      } else {
        os << a << ":" << b;
      }
    }
    return os.str();
  }
};

struct Line {
  uint64_t block, used;
  bool dirty;
};

struct Model {
  Config c;
  std::map<uint64_t, std::vector<Line>> sets;  // set index -> its lines
  uint64_t n[NC] = {};
  bool ambiguous = false;  // Two lines equally long ago: stop here.
  int replaced = 0;

  // 0: outside, 1: inside, 2: partly inside of the ranges.
  int InRanges(uint64_t a, uint64_t size) const {
    for (auto& [lo, hi] : c.ranges) {
      if (lo <= a && a + size - 1 <= hi) return 1;
      if (lo <= a + size - 1 && a <= hi) return 2;
    }
    return 0;
  }
  void Lookup(uint64_t a, uint64_t size, bool read, uint64_t now) {
    uint64_t lines = c.size / c.line;
    uint64_t ways = c.ways == 0 ? lines : c.ways;
    uint64_t nsets = lines / ways;
    bool plain = !c.ranges.empty() && (InRanges(a, size) == 1) != c.cacheable;
    for (uint64_t b = a / c.line; b <= (a + size - 1) / c.line; b++) {
      if (plain) {
        n[read ? RN : WN]++;
        continue;
      }
      auto& set = sets[b % nsets];
      auto it = std::find_if(set.begin(), set.end(),
                             [&](const Line& l) { return l.block == b; });
      if (it != set.end()) {
        n[read ? RH : WH]++;
        it->used = now;
        it->dirty |= !read;
        continue;
      }
      n[read ? RM : WM]++;
      if (!read && !c.allocate) {
        n[WA]++;
        continue;
      }
      if (set.size() == ways) {
        auto v = std::min_element(set.begin(), set.end(), [](auto& x, auto& y) {
          return x.used < y.used;
        });
        for (auto& l : set)
          if (&l != &*v && l.used == v->used) ambiguous = true;
        if (v->dirty) n[DW]++;
        set.erase(v);
        replaced++;
      }
      set.push_back({b, now, !read});
    }
  }
};

void GenConfig(pbt::Src& src, uint64_t base, Config* c) {
  c->line = uint64_t{1} << src.range(2, 6);
  uint64_t lines = uint64_t{1} << src.range(0, 6);
  c->size = c->line * lines;
  if (src.chance(20)) c->size = 1024 * (uint64_t{1} << src.draw(4)), c->line = 16;
  if (src.chance(6)) {
    c->size = uint64_t{1} << src.pick({20, 21, 24, 30});
    c->line = c->size >> src.range(0, 5);
  }
  lines = c->size / c->line;
  c->ways = src.chance(15) ? 0 : uint64_t{1} << src.draw(std::min<uint64_t>(
                                     4, static_cast<uint64_t>(__builtin_ctzll(lines)) + 1));
  c->allocate = src.flip();
  c->ranges.clear();
  if (src.chance(40)) {
    c->cacheable = src.flip();
    uint64_t at = base + src.draw(64);
    int n = static_cast<int>(src.range(1, 3));
    for (int i = 0; i < n; i++) {
      uint64_t len = src.range(1, 150);
      c->ranges.push_back({at, at + len - 1});
      at += len + src.draw(40);
    }
    // The order in which they are given does not matter.
    if (n > 1 && src.flip()) std::swap(c->ranges[0], c->ranges[1]);
  }
}

std::string BadText(pbt::Src& src, const std::string& good, uint64_t lines) {
  std::vector<std::string> f;
  std::stringstream ss(good);
  std::string x;
  while (std::getline(ss, x, ',')) f.push_back(x);
  auto junk = [&]() -> std::string {
    return src.pick<const char*>({"", "x", "k", "-1", "12q", "99999999999999999999999", " ",
                                  "+", "0x", "true", "1.5"});
  };
  switch (src.draw(10)) {
    case 0: f.resize(1 + src.draw(3)); break;
    case 1: f[0] = junk(); break;
    case 2: f[1] = junk(); break;
    case 3: f[2] = junk(); break;
    case 4: f[3] = src.pick<const char*>({"", "yes", "1", "True", "truefalse"}); break;
    case 5: f[0] = src.pick<const char*>({"0", "3", "1000", "48", "3k", "1T", "1kk"}); break;
    case 6: f[1] = src.pick<const char*>({"0", "3", "1", "2", "12", "16k"}); break;
    case 7: f[2] = src.pick<const char*>({"3", "6", "1048576"}); break;
    case 8: f[1] = "4294967296"; break;  // More than the cache.
    default:
      f.resize(4);
      switch (src.draw(7)) {
        case 0: f.push_back("c:0x10"); break;
        case 1: f.push_back("c:0x10:0x20:0x30"); break;
        case 2: f.push_back("d:0x10:0x20"); break;
        case 3: f.push_back("nc:0x20:0x10"); break;
        case 4: f.push_back("c:" + junk() + ":0x20"); break;
        case 5: f.push_back("nc:0:" + junk()); break;
        default:
          f.push_back("c:0x10:0x20");
          f.push_back("nc:0x40:0x50");
      }
      // "-1", "0x" and so on are no number either; "" neither.
  }
  std::string s;
  for (auto& y : f) s += (s.empty() && &y == &f[0] ? "" : ",") + y;
  return s;
}

}  // namespace

PBT_SUITE(cache,
          "lines were replaced, both hits and misses counted, and 8 or more accesses made",
          150000, 4000000) {
  // Behind it: nothing, a memory, or a tagged memory.
  int kind = src.weighted({3, 4, 4});
  FlatDemandMemory flat(0);
  TaggedFlatDemandMemory tmem(8);
  Component parent("parent");
  std::unique_ptr<Cache> cache;
  bool late = src.chance(30), with_parent = src.flip();
  if (kind == 0) {
    cache = with_parent ? std::make_unique<Cache>("c", &parent) : std::make_unique<Cache>("c");
  } else if (late) {
    cache = std::make_unique<Cache>("c");
    if (kind == 1) {
      cache->set_memory(&flat);
    } else {
      cache->set_tagged_memory(&tmem);
    }
  } else if (kind == 1) {
    cache = with_parent ? std::make_unique<Cache>("c", &parent,
                                                  static_cast<MemoryInterface*>(&flat))
                        : std::make_unique<Cache>("c", static_cast<MemoryInterface*>(&flat));
  } else {
    cache = with_parent
                ? std::make_unique<Cache>("c", &parent,
                                          static_cast<TaggedMemoryInterface*>(&tmem))
                : std::make_unique<Cache>("c", static_cast<TaggedMemoryInterface*>(&tmem));
  }
  const uint64_t kBase = src.pick<uint64_t>({0x1000, 0, 0x7fff'ffc0, 0xffff'ffff'ffff'f000});
  Model m;
  SimpleCounter<uint64_t> cycles("cycles", 0);
  GenConfig(src, kBase, &m.c);
  std::string text = m.c.Text(src);
  ctx.log("cache ", text, kind == 0 ? "" : kind == 1 ? " memory" : " tagged memory");
  if (src.chance(15)) {
    std::string bad = BadText(src, text, m.c.size / m.c.line);
    ctx.log("configure '", bad, "'");
    auto st = cache->Configure(bad, &cycles);
    PBT_ASSERT(!st.ok(), "configuration '" << bad << "' is accepted");
  }
  auto st = cache->Configure(text, &cycles);
  PBT_ASSERT(st.ok(), "configuration '" << text << "' is refused: " << st.message());

  SimpleCounter<uint64_t>* ctr[NC];
  for (int i = 0; i < NC; i++) {
    auto* c = cache->GetCounter(kNames[i]);
    PBT_ASSERT(c != nullptr, "no counter " << kNames[i]);
    ctr[i] = static_cast<SimpleCounter<uint64_t>*>(c);
  }
  ByteMap model;
  TagModel tm;
  DataBufferFactory f;
  Rig rig;
  Options o;
  uint64_t span = src.pick<uint64_t>({0x80, 0x200, 0x40, 0xc00});
  bool far = src.chance(10);
  o.address = [&](pbt::Src& s, uint64_t n) -> uint64_t {
    for (int i = 0;; i++) {
      uint64_t a = kBase + s.draw(span);
      // Places of interest: the ends of the ranges.
      if (!m.c.ranges.empty() && s.chance(40)) {
        auto& r = m.c.ranges[s.draw(m.c.ranges.size())];
        a = s.flip() ? r.first : r.second + 1;
        uint64_t d = s.flip() ? n : s.draw(4);
        a = s.flip() ? a - d : a + s.draw(4);
        if (a - kBase > 0xd00) a = kBase;
      }
      // The same place a long way off.
      if (far && s.chance(30)) a ^= uint64_t{1} << (30 + s.draw(33));
      if (m.InRanges(a, n) != 2 || i > 20) return a;
    }
  };
  auto compare = [&]() {
    for (int i = 0; i < NC; i++)
      PBT_EQ(ctr[i]->GetValue(), m.n[i], "counter " << kNames[i]);
  };
  auto partly = [&](uint64_t a, int n) {
    return m.InRanges(a, static_cast<uint64_t>(n)) == 2;
  };
  int steps = static_cast<int>(src.range(4, 60)), done = 0;
  for (int s = 0; s < steps && !m.ambiguous; s++) {
    cycles.Increment(1 + src.draw(3));
    int op = src.weighted({10, kind == 2 ? 5 : 0, 1, kind == 0 ? 4 : 0, 1});
    if (op == 0 && kind != 0) {
      auto acc = PlainOp(src, ctx, o, cache.get(), &model, &rig, &f);
      tm.Stored(acc);
      for (auto& x : acc)
        // Whether such an access is cached is not pinned down: stop here.
        if (partly(x.address, x.size)) m.ambiguous = true;
      if (m.ambiguous) break;
      for (auto& x : acc)
        m.Lookup(x.address, static_cast<uint64_t>(x.size), x.load, cycles.GetValue());
      done++;
    } else if (op == 1) {
      auto x = TaggedOp(src, ctx, o, cache.get(), &model, &tm, &rig, &f);
      if (partly(x.address, x.size)) break;
      m.Lookup(x.address, static_cast<uint64_t>(x.size), x.load, cycles.GetValue());
      done++;
    } else if (op == 2) {
      // Reconfigure, or fail to.
      if (src.chance(60)) {
        std::string bad = BadText(src, text, m.c.size / m.c.line);
        ctx.log("configure '", bad, "'");
        auto st = cache->Configure(bad, src.chance(10) ? nullptr : &cycles);
        PBT_ASSERT(!st.ok(), "configuration '" << bad << "' is accepted");
      } else {
        Model next;
        std::copy(m.n, m.n + NC, next.n);
        next.replaced = m.replaced;
        GenConfig(src, kBase, &next.c);
        text = next.c.Text(src);
        ctx.log("configure '", text, "'");
        auto st = cache->Configure(text, &cycles);
        PBT_ASSERT(st.ok(), "configuration '" << text << "' is refused: " << st.message());
        m = next;
      }
    } else if (op == 3 || (op == 0 && kind == 0)) {
      // A cache with nothing behind it only counts.
      int size = src.pick({4, 1, 2, 8, 16, 64, 100});
      uint64_t a = o.address(src, static_cast<uint64_t>(size));
      if (partly(a, size)) break;
      bool load = src.flip();
      ctx.log(load ? "load " : "store ", size, " bytes at ", pbt::hex(a));
      DataBuffer* db = f.Allocate(size);
      db->set_latency(0);
      if (load) {
        cache->Load(a, db, nullptr, nullptr);
      } else {
        cache->Store(a, db);
      }
      m.Lookup(a, static_cast<uint64_t>(size), load, cycles.GetValue());
      PBT_EQ(db->ref_count(), 1, "references to the buffer");
      db->DecRef();
      done++;
    } else {
      rig.Advance();
    }
    if (m.ambiguous) break;
    compare();
  }
  rig.Finish();
  if (kind == 1) {
    Sweep(&flat, model, &f, [](uint64_t) { return true; });
  } else if (kind == 2) {
    Sweep(&tmem, model, &f, [](uint64_t) { return true; });
    SweepTags(&tmem, tm, &f, [](uint64_t) { return true; });
  }
  ctx.nontrivial_if(m.replaced > 0 && m.n[RH] + m.n[WH] > 0 && done >= 8);
}
