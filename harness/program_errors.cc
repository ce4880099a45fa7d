// C06: program errors: raised, masked, cleared.
#include <map>
#include <memory>

#include "mpact/sim/generic/program_error.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT

namespace {
struct Err {
  bool masked = false;
  bool raised = false;
  std::vector<std::string> msgs;
};
}  // namespace

PBT_SUITE(controller,
          "an error raised, a mask or unmask after it, and a later clear or "
          "second raise",
          1200000, 20000000) {
  const std::string kInternal = ProgramErrorController::kInternalErrorName;
  ProgramErrorController c("controller");
  PBT_EQ(std::string(c.name()), std::string("controller"), "name()");
  std::map<std::string, Err> m;
  m[kInternal];
  std::map<std::string, std::vector<std::unique_ptr<ProgramError>>> handles;
  // An internal error adds a message the text of which is not specified.
  auto internal = [&] {
    m[kInternal].raised = true;
    m[kInternal].msgs.push_back("\1any");
  };
  auto same = [&](const std::vector<std::string>& got,
                  const std::vector<std::string>& want) {
    if (got.size() != want.size()) return false;
    for (size_t i = 0; i < got.size(); i++)
      if (want[i] != "\1any" && want[i] != got[i]) return false;
    return true;
  };
  std::vector<std::string> pool = {"a", "b", "overflow", "a b", "", "unknown",
                                   kInternal};
  int nraise = 0, phase = 0;
  auto check = [&] {
    std::set<std::string> masked, unmasked;
    for (auto& [n, e] : m) {
      if (e.raised) (e.masked ? masked : unmasked).insert(n);
      PBT_ASSERT(c.HasProgramErrorName(n), "HasProgramErrorName " << n);
      PBT_EQ(c.IsMasked(n), e.masked, "IsMasked " << n);
      if (!same(c.GetErrorMessages(n), e.msgs))
        PBT_FAIL("messages of '" << n << "': " << c.GetErrorMessages(n).size()
                                 << " kept, oracle says " << e.msgs.size());
    }
    PBT_EQ(c.HasError(), !masked.empty() || !unmasked.empty(), "HasError");
    PBT_EQ(c.HasMaskedError(), !masked.empty(), "HasMaskedError");
    PBT_EQ(c.HasUnmaskedError(), !unmasked.empty(), "HasUnmaskedError");
    auto mv = c.GetMaskedErrorNames(), uv = c.GetUnmaskedErrorNames();
    PBT_EQ(mv.size(), masked.size(), "masked names");
    PBT_EQ(uv.size(), unmasked.size(), "unmasked names");
    PBT_ASSERT(std::set<std::string>(mv.begin(), mv.end()) == masked,
               "masked names");
    PBT_ASSERT(std::set<std::string>(uv.begin(), uv.end()) == unmasked,
               "unmasked names");
  };
  int steps = static_cast<int>(src.range(1, 30));
  for (int s = 0; s < steps; s++) {
    const std::string name = src.pick(pool);
    bool known = m.count(name) > 0;
    switch (src.weighted({4, 6, 4, 4, 3, 1, 2, 2, 2})) {
      case 0:
        ctx.log("add '", name, "'");
        PBT_EQ(c.AddProgramErrorName(name), !known, "AddProgramErrorName");
        if (known)
          internal();
        else
          m[name];
        break;
      case 1: {
        std::string msg = "m" + std::to_string(src.draw(50));
        ctx.log("raise '", name, "' ", msg);
        nraise++;
        if (phase == 2) phase = 3;
        if (phase == 0 && known) phase = 1;
        bool via = src.flip() && !handles[name].empty();
        if (via) {
          handles[name][src.draw(handles[name].size())]->Raise(msg);
        } else {
          c.Raise(name, msg);
        }
        if (known) {
          m[name].raised = true;
          m[name].msgs.push_back(msg);
        } else {
          internal();
          // The message is not lost.
          PBT_ASSERT(c.GetErrorMessages(kInternal).back().find(msg) !=
                         std::string::npos,
                     "message of an unknown error is lost");
        }
        break;
      }
      case 2:
        ctx.log("mask '", name, "'");
        c.Mask(name);
        if (phase == 1) phase = 2;
        if (!known || name == kInternal)
          internal();
        else
          m[name].masked = true;
        break;
      case 3:
        ctx.log("unmask '", name, "'");
        c.Unmask(name);
        if (phase == 1) phase = 2;
        if (known)
          m[name].masked = false;
        else
          internal();
        break;
      case 4:
        ctx.log("clear '", name, "'");
        c.Clear(name);
        if (phase == 2) phase = 3;
        if (known) {
          m[name].raised = false;
          m[name].msgs.clear();
        } else {
          internal();
        }
        break;
      case 5:
        ctx.log("clear all");
        c.ClearAll();
        if (phase == 2) phase = 3;
        for (auto& [n, e] : m) e.raised = false, e.msgs.clear();
        break;
      case 6: {
        auto h = c.GetProgramError(name);
        PBT_EQ(h != nullptr, known, "GetProgramError '" << name << "'");
        if (h) {
          PBT_EQ(std::string(h->name()), name, "handle name");
          handles[name].push_back(std::move(h));
        }
        break;
      }
      case 7:
        if (!known) {
          PBT_ASSERT(!c.IsMasked(name), "unknown name is masked");
          internal();
        }
        PBT_EQ(c.HasProgramErrorName(name), known, "HasProgramErrorName");
        break;
      default:
        if (!known) {
          auto& got = c.GetErrorMessages(name);
          internal();
          PBT_ASSERT(same(got, m[kInternal].msgs),
                     "messages for an unknown name");
        }
    }
    check();
  }
  ctx.nontrivial_if(phase == 3);
}

// Many errors, many and long messages.
PBT_SUITE(many_errors, "more than 20 errors or 100 messages", 6000, 100000) {
  const std::string kInternal = ProgramErrorController::kInternalErrorName;
  ProgramErrorController c("controller");
  int n = src.chance(30) ? static_cast<int>(src.range(100, 300))
                         : static_cast<int>(src.range(1, 40));
  std::vector<std::string> names;
  std::vector<std::unique_ptr<ProgramError>> handles;
  std::vector<Err> m(n);
  for (int i = 0; i < n; i++) {
    std::string nm = "e" + std::to_string(i);
    if (src.chance(10)) nm = std::string(src.range(20, 300), 'n') + nm;
    names.push_back(nm);
    PBT_ASSERT(c.AddProgramErrorName(nm), "AddProgramErrorName of error " << i);
    handles.push_back(c.GetProgramError(nm));
    PBT_ASSERT(handles.back() != nullptr, "GetProgramError of error " << i);
  }
  long messages = 0;
  int steps = static_cast<int>(src.range(1, 12));
  for (int s = 0; s < steps; s++) {
    int from = static_cast<int>(src.draw(n)), stride = static_cast<int>(src.range(1, 3));
    int op = src.weighted({6, 2, 2, 1});
    int times = op == 0 && src.chance(20) ? static_cast<int>(src.range(50, 300)) : 1;
    int upto = times > 1 ? from + 1 : n;
    std::string msg = "m" + std::to_string(s);
    if (src.chance(30)) {
      msg += std::string(src.range(100, 5000), 'x');
      msg += src.flip() ? std::string("\0z", 2) : "end";
    }
    ctx.log(op == 0 ? "raise" : op == 1 ? "mask" : op == 2 ? "unmask" : "clear", " from ",
            from, " step ", stride, " x", times, " message of ", msg.size());
    for (int i = from; i < upto; i += stride) {
      Err& e = m[i];
      switch (op) {
        case 0:
          for (int k = 0; k < times; k++) {
            if (k & 1) handles[i]->Raise(msg); else c.Raise(names[i], msg);
            e.msgs.push_back(msg);
            messages++;
          }
          e.raised = true;
          break;
        case 1: c.Mask(names[i]); e.masked = true; break;
        case 2: c.Unmask(names[i]); e.masked = false; break;
        default: c.Clear(names[i]); e.raised = false; e.msgs.clear();
      }
    }
    std::set<std::string> masked, unmasked;
    for (int i = 0; i < n; i++) {
      PBT_EQ(c.IsMasked(names[i]), m[i].masked, "IsMasked of error " << i);
      PBT_ASSERT(c.GetErrorMessages(names[i]) == m[i].msgs,
                 "messages of error " << i << " of " << n << ": "
                                      << c.GetErrorMessages(names[i]).size()
                                      << " kept, oracle says " << m[i].msgs.size());
      if (m[i].raised) (m[i].masked ? masked : unmasked).insert(names[i]);
    }
    PBT_EQ(c.HasMaskedError(), !masked.empty(), "HasMaskedError");
    PBT_EQ(c.HasUnmaskedError(), !unmasked.empty(), "HasUnmaskedError");
    auto mv = c.GetMaskedErrorNames(), uv = c.GetUnmaskedErrorNames();
    PBT_ASSERT(mv.size() == masked.size() && std::set<std::string>(mv.begin(), mv.end()) == masked, "masked names");
    PBT_ASSERT(uv.size() == unmasked.size() && std::set<std::string>(uv.begin(), uv.end()) == unmasked, "unmasked names");
  }
  PBT_ASSERT(c.GetErrorMessages(kInternal).empty(), "internal errors");
  ctx.nontrivial_if(n > 20 || messages > 100);
}
