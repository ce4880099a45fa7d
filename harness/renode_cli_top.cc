// C32: the arbitration between Renode and the command line interface.
#include <algorithm>
#include <map>
#include <memory>
#include <optional>
#include <set>

#include "absl/status/status.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/instruction.h"
#include "mpact/sim/util/renode/cli_forwarder.h"
#include "mpact/sim/util/renode/renode_cli_top.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT
using mpact::sim::util::renode::CLIForwarder;
using mpact::sim::util::renode::RenodeCLITop;

namespace {

enum { kRenode, kCli, kInterrupt };
const char* const kNames[] = {"renode", "cli", "interrupt"};
using Reason = CoreDebugInterface::HaltReason;
using ReasonValue = CoreDebugInterface::HaltReasonValueType;
using RunStatus = CoreDebugInterface::RunStatus;
ReasonValue V(Reason r) { return static_cast<ReasonValue>(r); }

// What the threads are doing, as seen from the outside.
struct World {
  bool in_step = false;        // Renode is inside of RenodeStep...
  uint64_t quantum = 0;        // ... for so many instructions
  uint64_t in_quantum = 0;     // of which so many were executed.
  bool may_step = false;       // The cli leaves the core to Renode.
  bool connected = false;      // The cli is connected, and stays so.
  bool interrupting = false;
  int run = 0;                 // Counts the calls of CLIRun.
  bool in_run = false, stepped_in_run = false;
  int must_stop = -1;          // The run that has been halted.
  uint64_t cli_steps = 0;      // Executed in this CLIStep...
  uint64_t cli_request = 0;    // of so many asked for.
  bool in_cli_step = false;
  bool cli_done = false, interrupt_done = false;
  bool step_failed = false;    // The core failed in this call of the thread.
  bool cli_step_failed = false;
};

class Core : public CoreDebugInterface {
 public:
  Core(pbt::Src& s, pbt::Ctx& c, World& w) : src(s), ctx(c), w(w) {}

  struct Use {
    Use(Core* core, const char* what, bool control = true) : core(core) {
      int t = verif::Sched::Current()->turn();
      if (core->ctx.logging()) core->ctx.log("    core: ", what, " by ", kNames[t]);
      if (core->in_step_ >= 0) {
        pbt::fail(std::string(what) + " while the core steps for " + kNames[core->in_step_]);
      }
      if (control && !core->done) {
        World& w = core->w;
        if (t == kCli) {
          if (!w.in_step) pbt::fail(std::string(what) + " of the cli outside of a quantum of Renode");
          if (w.in_quantum >= w.quantum) pbt::fail(std::string(what) + " of the cli after the quantum");
          if (core->renode_uses_ > 0) pbt::fail(std::string(what) + " while Renode uses the core");
        }
        if (t == kRenode && core->cli_uses_ > 0) {
          pbt::fail(std::string(what) + " while the cli uses the core");
        }
        uses = t == kCli ? &core->cli_uses_ : &core->renode_uses_;
        ++*uses;
      }
      core->calls++;
      if (core->src.chance(25)) verif::Yield();
    }
    ~Use() {
      if (uses != nullptr) --*uses;
    }
    Core* core;
    int* uses = nullptr;
  };

  absl::Status Halt() override { return Halt(V(Reason::kUserRequest)); }
  absl::Status Halt(Reason r) override { return Halt(V(r)); }
  absl::Status Halt(ReasonValue r) override {
    if (ctx.logging()) ctx.log("    core: halt, reason ", r);
    halts.push_back(r);
    if (!done) {
      halted = true;
      reason = r;
    }
    return src.chance(95) ? absl::OkStatus() : absl::InternalError("halt");
  }
  absl::StatusOr<int> Step(int num) override {
    Use use(this, "step");
    int t = verif::Sched::Current()->turn();
    if (ctx.logging()) ctx.log("      ", num, " instructions");
    if (++step_calls > 6000) pbt::fail("the core is stepped over and over without an end");
    if (num < 0) pbt::fail("step of a negative number of instructions");
    if (num == 0 && !done) pbt::fail("step of no instructions");
    if (t == kRenode && !done) {
      if (!w.may_step) pbt::fail("Renode steps the core while the cli has control");
      if (w.in_run && w.must_stop == w.run) {
        pbt::fail("Renode steps the core although the cli has halted it");
      }
    }
    if (t == kInterrupt) pbt::fail("stepped for a halt");
    if (done) {
      if (done_fails) {
        failed(t) = true;
        return absl::FailedPreconditionError("done");
      }
      return 0;
    }
    if (step_calls == fail_at) {
      failed(t) = true;
      ctx.label("step fails");
      return absl::InternalError("step");
    }
    in_step_ = t;
    struct Out {
      ~Out() { c->in_step_ = -1; }
      Core* c;
    } out{this};
    if (t == kRenode && w.in_run) w.stepped_in_run = true;
    halted = false;
    int n = 0;
    while (n < num && !halted) {
      if (n > 0 && w.connected && bps.count(executed) != 0) {
        halted = true;
        reason = V(Reason::kSoftwareBreakpoint);
        ctx.label("breakpoint");
        break;
      }
      if (w.in_quantum >= w.quantum) {
        pbt::fail(std::string(kNames[t]) + " steps the core beyond the quantum");
      }
      if (t == kCli && w.cli_steps >= w.cli_request) {
        pbt::fail("the core executes more for the cli than it asked for");
      }
      executed++;
      w.in_quantum++;
      if (t == kCli) w.cli_steps++;
      n++;
      if (executed == program) {
        done = halted = true;
        reason = V(Reason::kProgramDone);
        ctx.label("program done");
      } else if (w.connected && stops.count(executed) != 0) {
        halted = true;
        reason = stops[executed];
        ctx.label("other halt");
      }
      if (src.chance(8)) verif::Yield();
    }
    if (!halted) reason = V(Reason::kNone);
    if (ctx.logging()) ctx.log("      executed ", n, ", reason ", reason);
    last_halted[t == kCli] = halted;
    return n;
  }
  absl::Status Run() override { pbt::fail("Run of the core"); }
  absl::Status Wait() override {
    waits++;
    return absl::OkStatus();
  }
  absl::StatusOr<RunStatus> GetRunStatus() override {
    Use use(this, "run status");
    return Answer<RunStatus>(RunStatus::kSingleStep);
  }
  absl::StatusOr<ReasonValue> GetLastHaltReason() override {
    Use use(this, "halt reason", false);
    return reason;
  }
  // The answers are made of the arguments.
  template <typename T>
  absl::StatusOr<T> Answer(T t) {
    if (Refuses()) return absl::NotFoundError("no such thing");
    return t;
  }
  absl::Status Answer() {
    return Refuses() ? absl::Status(absl::NotFoundError("no such thing")) : absl::OkStatus();
  }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& name) override {
    Use use(this, "read register");
    return Answer<uint64_t>(regs[name]);
  }
  absl::Status WriteRegister(const std::string& name, uint64_t v) override {
    Use use(this, "write register");
    if (!Refuses()) regs[name] = v;
    return Answer();
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& name) override {
    Use use(this, "register buffer");
    last = name;
    return Answer<DataBuffer*>(reinterpret_cast<DataBuffer*>(0x1000 + name.size()));
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t address, void* buf, size_t length) override {
    Use use(this, "read memory");
    if (Refuses()) return absl::NotFoundError("no such thing");
    size_t n = length - length / 4;
    for (size_t i = 0; i < n; i++) static_cast<uint8_t*>(buf)[i] = mem[address + i];
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t address, const void* buf, size_t length) override {
    Use use(this, "write memory");
    if (Refuses()) return absl::NotFoundError("no such thing");
    size_t n = length - length / 4;
    for (size_t i = 0; i < n; i++) mem[address + i] = static_cast<const uint8_t*>(buf)[i];
    return n;
  }
  bool HasBreakpoint(uint64_t address) override {
    Use use(this, "has breakpoint");
    return bps.count(address) != 0;
  }
  absl::Status SetSwBreakpoint(uint64_t address) override {
    Use use(this, "set breakpoint");
    if (!Refuses()) bps.insert(address);
    return Answer();
  }
  absl::Status ClearSwBreakpoint(uint64_t address) override {
    Use use(this, "clear breakpoint");
    if (!Refuses()) bps.erase(address);
    return Answer();
  }
  absl::Status ClearAllSwBreakpoints() override {
    Use use(this, "clear breakpoints");
    if (!Refuses()) bps.clear();
    return Answer();
  }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t address) override {
    Use use(this, "instruction");
    return Answer<Instruction*>(reinterpret_cast<Instruction*>(0x100000 + 16 * address));
  }
  absl::StatusOr<std::string> GetDisassembly(uint64_t address) override {
    Use use(this, "disassembly");
    return Answer<std::string>("inst " + std::to_string(address));
  }
  bool Refuses() const { return refuse && verif::Sched::Current()->turn() == kCli; }
  bool& failed(int t) { return t == kCli ? w.cli_step_failed : w.step_failed; }

  pbt::Src& src;
  pbt::Ctx& ctx;
  World& w;
  uint64_t executed = 0;
  uint64_t program = 0;  // Its length.
  bool done = false, halted = false, refuse = false, done_fails = false;
  bool last_halted[2] = {false, false};
  ReasonValue reason = V(Reason::kNone);
  std::set<uint64_t> bps;
  std::map<uint64_t, ReasonValue> stops;
  std::map<std::string, uint64_t> regs;
  std::map<uint64_t, uint8_t> mem;
  std::vector<ReasonValue> halts;
  std::string last;
  int calls = 0, waits = 0, step_calls = 0, fail_at = -1;

 private:
  int in_step_ = -1;
  int cli_uses_ = 0, renode_uses_ = 0;
};

class Forwarder : public CLIForwarder {
 public:
  explicit Forwarder(RenodeCLITop* top) : CLIForwarder(top) {}
  using CLIForwarder::Halt;
  absl::Status Halt(Reason) override { return absl::UnimplementedError("halt"); }
  absl::Status Halt(ReasonValue) override { return absl::UnimplementedError("halt"); }
};

PBT_SUITE(renode_cli_top,
          "both Renode and the cli stepped or used the core, and control changed between them",
          12000, 1500000) {
  World w;
  Core core(src, ctx, w);
  core.program = src.chance(60) ? src.range(1, 60) : ~0ull;
  core.done_fails = src.chance(20);
  if (src.chance(10)) core.fail_at = src.range(1, 8);
  for (int i = src.draw(3); i > 0; i--) {
    core.stops[src.range(1, 60)] = V(src.pick<Reason>(
        {Reason::kDataWatchPoint, Reason::kActionPoint, Reason::kUserRequest, Reason::kSimulatorError,
         Reason::kUserSpecifiedMin, Reason::kHardwareBreakpoint, Reason::kSemihostHaltRequest}));
  }
  bool wait_for_cli = src.flip();
  int sessions = wait_for_cli ? src.range(1, 2) : src.weighted({1, 5, 2});
  w.may_step = !wait_for_cli;
  if (ctx.logging()) {
    ctx.log(wait_for_cli ? "waits for the cli" : "does not wait", ", program of ",
            static_cast<int64_t>(core.program), ", cli connects ", sessions, " times");
  }
  RenodeCLITop top(&core, wait_for_cli);
  Forwarder cli(&top);
  int renode_stepped = 0, cli_stepped = 0, cli_used = 0, runs = 0;

  uint64_t ticks = 0;
  uint64_t last_run[3] = {0, 0, 0};
  verif::Sched sched([&](const std::vector<int>& ready) -> size_t {
    ticks++;
    size_t k = src.draw(ready.size());
    for (size_t i = 0; i < ready.size(); i++) {  // Be fair.
      if (ticks - last_run[ready[i]] > 15) k = i;
    }
    last_run[ready[k]] = ticks;
    return k;
  });

  auto renode_step = [&](int n) {
    if (ctx.logging()) ctx.log("renode: step ", n);
    bool was_done = core.done;
    w.quantum = n;
    w.in_quantum = 0;
    w.step_failed = false;
    w.in_step = true;
    auto res = top.RenodeStep(n);
    w.in_step = false;
    if (ctx.logging()) ctx.log("renode: stepped, ", res.ok() ? *res : -1);
    if (w.step_failed) {
      if (res.ok()) pbt::fail("RenodeStep hides the failure of the core");
    } else {
      if (!res.ok()) pbt::fail("RenodeStep fails: " + std::string(res.status().message()));
      PBT_EQ(static_cast<uint64_t>(*res), w.in_quantum, "instructions of RenodeStep");
      if (!core.done) PBT_EQ(*res, n, "RenodeStep does not step as asked");
      if (was_done) PBT_EQ(*res, 0);
    }
    if (w.in_quantum > 0) renode_stepped++;
  };
  sched.Add([&]() {
    int n = src.range(1, 5);
    for (int i = 0; i < n || !w.cli_done || !w.interrupt_done; i++) {
      if (i > 1500) pbt::fail("the cli does not come to an end");
      // What runs on and on is halted in the end.
      if (i > 20 && w.in_run) core.stops[core.executed + 1] = V(Reason::kDataWatchPoint);
      renode_step(src.chance(5) ? 0 : src.chance(20) ? src.range(1, 40) : src.range(1, 8));
      switch (src.draw(8)) {
        case 0: {
          uint64_t v = src.draw(100);
          PBT_ASSERT(top.RenodeWriteRegister("q", v).ok());
          PBT_EQ(core.regs["q"], v);
          break;
        }
        case 1: {
          auto r = top.RenodeReadRegister("q");
          PBT_ASSERT(r.ok());
          PBT_EQ(*r, core.regs["q"]);
          break;
        }
        case 2: {
          uint8_t b[8] = {};
          uint64_t a = 0x100000 + src.draw(16);
          auto r = top.RenodeReadMemory(a, b, 8);
          PBT_ASSERT(r.ok());
          PBT_EQ(*r, 6u);
          PBT_EQ(b[5], core.mem[a + 5]);
          break;
        }
        case 3: {
          uint8_t b[8] = {1, 2, 3, 4, 5, static_cast<uint8_t>(src.draw(256)), 7, 8};
          uint64_t a = 0x100000 + src.draw(16);
          auto r = top.RenodeWriteMemory(a, b, 8);
          PBT_ASSERT(r.ok());
          PBT_EQ(*r, 6u);
          PBT_EQ(core.mem[a + 5], b[5]);
          break;
        }
        case 4: {
          auto r = top.RenodeGetLastHaltReason();
          PBT_ASSERT(r.ok());
          break;
        }
        default: break;
      }
    }
  });

  auto cli_op = [&]() {
    int op = src.weighted({8, 7, 2, 2, 2, 2, 1, 3, 1, 1, 1, 1, 1, 1, 1, 1});
    bool was_done = core.done;
    int waits = core.waits;
    // A refusal of the core.
    core.refuse = op >= 2 && op != 7 && src.chance(10);
    bool refuse = core.refuse;
    auto check = [&](const absl::Status& s) {
      PBT_EQ(s.ok(), !refuse, "status");
      if (refuse) PBT_ASSERT(s.code() == absl::StatusCode::kNotFound);
      return s.ok();
    };
    cli_used += op >= 2;
    std::string reg = src.pick<std::string>({"a", "bb", "ccc"});
    uint64_t at = core.executed + src.draw(20);
    uint8_t b[16] = {};
    if (ctx.logging()) ctx.log("cli: op ", op);
    switch (op) {
      case 0: {
        int n = src.chance(5) ? 0 : src.chance(20) ? src.range(1, 60) : src.range(1, 8);
        if (ctx.logging()) ctx.log("cli: step ", n);
        w.cli_request = n;
        w.cli_steps = 0;
        w.cli_step_failed = false;
        core.last_halted[1] = false;
        size_t halts = core.halts.size();
        auto r = cli.Step(n);
        if (ctx.logging()) ctx.log("cli: stepped ", r.ok() ? *r : -1);
        if (was_done) {
          PBT_ASSERT(!r.ok());
          PBT_ASSERT(r.status().code() == absl::StatusCode::kUnavailable);
        } else if (w.cli_step_failed) {
          PBT_ASSERT(!r.ok());
        } else if (r.ok()) {
          PBT_EQ(static_cast<uint64_t>(*r), w.cli_steps, "instructions of the cli");
          if (!core.last_halted[1] && !core.done && core.halts.size() == halts) PBT_EQ(*r, n, "cli steps");
        } else {
          if (!core.done) pbt::fail("CLIStep fails: " + std::string(r.status().message()));
        }
        w.cli_request = 0;
        cli_stepped += w.cli_steps > 0;
        break;
      }
      case 1: {
        w.run++;
        w.stepped_in_run = false;
        w.in_run = true;
        w.may_step = true;
        auto s = cli.Run();
        if (ctx.logging()) ctx.log("cli: ran");
        w.in_run = false;
        w.may_step = core.done;
        if (was_done) {
          PBT_ASSERT(s.code() == absl::StatusCode::kUnavailable);
        } else if (!core.done) {
          PBT_ASSERT(s.ok());
        }
        runs += w.stepped_in_run;
        break;
      }
      case 2: {
        auto r = cli.ReadRegister(reg);
        if (check(r.status())) PBT_EQ(*r, core.regs[reg]);
        break;
      }
      case 3: {
        uint64_t v = src.draw(1000);
        if (check(cli.WriteRegister(reg, v))) PBT_EQ(core.regs[reg], v);
        break;
      }
      case 4: {
        size_t n = src.draw(17);
        auto r = cli.ReadMemory(at, b, n);
        if (check(r.status())) {
          PBT_EQ(*r, n - n / 4);
          for (size_t i = 0; i < *r; i++) PBT_EQ(b[i], core.mem[at + i]);
        }
        break;
      }
      case 5: {
        size_t n = src.draw(17);
        for (auto& x : b) x = src.draw(256);
        auto r = cli.WriteMemory(at, b, n);
        if (check(r.status())) {
          PBT_EQ(*r, n - n / 4);
          for (size_t i = 0; i < *r; i++) PBT_EQ(b[i], core.mem[at + i]);
        }
        break;
      }
      case 6: core.refuse = false; PBT_EQ(cli.HasBreakpoint(at), core.bps.count(at) != 0); break;
      case 7:
        PBT_ASSERT(cli.SetSwBreakpoint(at).ok());
        PBT_ASSERT(core.bps.count(at) != 0);
        break;
      case 8:
        if (check(cli.ClearSwBreakpoint(at))) PBT_ASSERT(core.bps.count(at) == 0);
        break;
      case 9:
        if (check(cli.ClearAllSwBreakpoints())) PBT_ASSERT(core.bps.empty());
        break;
      case 10: {
        auto r = cli.GetInstruction(at);
        if (check(r.status())) PBT_EQ(reinterpret_cast<uint64_t>(*r), 0x100000 + 16 * at);
        break;
      }
      case 11: {
        auto r = cli.GetDisassembly(at);
        if (check(r.status())) PBT_EQ(*r, "inst " + std::to_string(at));
        break;
      }
      case 12: {
        auto r = cli.GetRegisterDataBuffer(reg);
        if (check(r.status())) PBT_EQ(reinterpret_cast<uint64_t>(*r), 0x1000 + reg.size());
        break;
      }
      case 13: {
        auto r = cli.GetRunStatus();
        if (check(r.status())) PBT_ASSERT(*r == RunStatus::kSingleStep);
        break;
      }
      case 14: {
        core.refuse = false;
        bool calm = w.interrupt_done;
        auto r = cli.GetLastHaltReason();
        PBT_ASSERT(r.ok());
        if (calm) PBT_EQ(*r, core.reason);
        break;
      }
      case 15:
        core.refuse = false;
        PBT_ASSERT(cli.Wait().ok());
        PBT_EQ(core.waits, waits + 1);
        break;
    }
    core.refuse = false;
  };
  sched.Add([&]() {
    for (int s = 0; s < sessions; s++) {
      for (int i = src.draw(3); i > 0; i--) verif::Yield();
      if (ctx.logging()) ctx.log("cli: connects");
      if (src.chance(20)) top.SetConnected(false);  // No change.
      // It may still step until the call has returned.
      top.SetConnected(true);
      if (ctx.logging()) ctx.log("cli: is connected");
      w.may_step = false;
      w.connected = true;
      for (int i = src.range(0, 7); i > 0; i--) {
        for (int k = src.draw(2); k > 0; k--) verif::Yield();
        cli_op();
        if (src.chance(5)) top.SetConnected(true);  // No change.
      }
      w.connected = false;
      verif::Yield([&]() { return !w.interrupting; });
      if (ctx.logging()) ctx.log("cli: disconnects");
      w.may_step = true;
      top.SetConnected(false);
    }
    w.cli_done = true;
  });

  sched.Add([&]() {
    for (int i = src.chance(40) ? src.range(1, 3) : 0; i > 0; i--) {
      for (int k = src.draw(15); k > 0; k--) verif::Yield();
      verif::Yield([&]() { return w.connected || w.cli_done; });
      if (!w.connected) break;
      w.interrupting = true;
      int run = w.in_run && w.stepped_in_run && !core.done ? w.run : -1;
      size_t before = core.halts.size();
      int how = src.draw(3);
      if (ctx.logging()) ctx.log("interrupt: halt ", how);
      ReasonValue want = V(Reason::kUserRequest);
      if (how == 0) {
        (void)cli.Halt();
      } else if (how == 1) {
        want = V(Reason::kActionPoint);
        top.CLIRequestHalt(Reason::kActionPoint, nullptr);
      } else {
        want = 0x80000000u + src.draw(1000);
        top.CLIRequestHalt(want, nullptr);
      }
      if (ctx.logging()) ctx.log("interrupt: halted");
      PBT_EQ(core.halts.size(), before + 1, "halts of the core");
      PBT_EQ(core.halts.back(), want, "reason of the halt");
      if (how == 0 && run >= 0 && w.in_run && w.run == run) {
        w.must_stop = run;
        ctx.label("run halted");
      }
      w.interrupting = false;
    }
    w.interrupt_done = true;
  });

  std::exception_ptr failure;
  bool ended = sched.Run([&](const std::function<void()>& body) {
    try {
      body();
    } catch (verif::Sched::Abort&) {
      throw;
    } catch (...) {
      if (failure == nullptr) failure = std::current_exception();
      return false;
    }
    return true;
  });
  if (failure != nullptr) std::rethrow_exception(failure);
  if (!ended) pbt::fail("Renode and the cli wait for each other");
  if (sessions == 0) ctx.label("no cli");
  if (runs > 0) ctx.label("runs");
  if (cli_stepped > 0) ctx.label("cli steps");
  ctx.nontrivial_if(renode_stepped > 0 && (cli_stepped > 0 || cli_used > 0) && runs > 0);
}

}  // namespace
