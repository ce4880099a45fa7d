// C27: the gdb server.
#include <map>
#include <memory>
#include <set>

#include "absl/status/status.h"
#include "absl/strings/numbers.h"
#include "fake_net.h"
#include "mpact/sim/generic/core_debug_interface.h"
#include "mpact/sim/generic/data_buffer.h"
#include "mpact/sim/generic/debug_info.h"
#include "mpact/sim/util/gdbserver/gdbserver.h"
#include "pbt.h"

using namespace mpact::sim::generic;  // NOLINT
using mpact::sim::util::gdbserver::GdbServer;

namespace {
using HR = CoreDebugInterface::HaltReason;
constexpr uint64_t kBase = 0x1000;

std::string Hex(uint64_t v) {
  char b[32];
  snprintf(b, sizeof(b), "%llx", static_cast<unsigned long long>(v));
  return b;
}
std::string HexBytes(const std::string& s) {
  std::string r;
  char b[4];
  for (unsigned char c : s) {
    snprintf(b, sizeof(b), "%02x", c);
    r += b;
  }
  return r;
}
std::string Lower(std::string s) {
  for (char& c : s) c = tolower(c);
  return s;
}
std::string Le(uint64_t v, int bytes) {
  std::string s;
  for (int i = 0; i < bytes; i++) s += static_cast<char>(v >> (8 * i));
  return s;
}

struct Reg {
  std::string name;
  int bytes;
  bool in_xml;
};

class Info : public DebugInfo {
 public:
  const DebugRegisterMap& debug_register_map() const override { return map; }
  int GetFirstGpr() const override { return first; }
  int GetLastGpr() const override { return last; }
  int GetPcRegister() const override { return pc; }
  int GetGprWidth() const override { return gpr_bits; }
  int GetPcWidth() const override { return pc_bits; }
  int GetRegisterByteWidth(int n) const override { return regs.count(n) ? regs.at(n).bytes : 0; }
  std::string_view GetGdbTargetXml() const override { return xml; }
  std::string_view GetLLDBHostInfo() const override { return host; }
  DebugRegisterMap map;
  std::map<uint64_t, Reg> regs;
  int first = 0, last = 0, pc = 0, gpr_bits = 64, pc_bits = 64;
  std::string xml, host;
};

// The simulated core.
class Core : public CoreDebugInterface {
 public:
  ~Core() override {
    for (auto& [n, db] : dbs) db->DecRef();
  }
  bool Fails(const char* what) {
    if (fail != what) return false;
    failed = true;
    return true;
  }
  absl::Status Err() { return absl::Status(code, message); }
  absl::Status Halt() override { return Halt(HR::kUserRequest); }
  absl::Status Halt(HR r) override { return Halt(static_cast<HaltReasonValueType>(r)); }
  absl::Status Halt(HaltReasonValueType r) override {
    reason = r;
    return absl::OkStatus();
  }
  absl::StatusOr<int> Step(int n) override {
    if (Fails("Step")) return Err();
    steps += n;
    reason = next_reason;
    SetPc(Pc() + 4);
    return n;
  }
  absl::Status Run() override {
    if (Fails("Run")) return Err();
    runs++;
    run_pc = Pc();
    running = true;
    return absl::OkStatus();
  }
  absl::Status Wait() override {
    if (running) {
      running = false;
      reason = next_reason;
      SetPc(next_pc);
    }
    if (Fails("Wait")) return Err();
    return absl::OkStatus();
  }
  absl::StatusOr<RunStatus> GetRunStatus() override {
    if (Fails("GetRunStatus")) return Err();
    return running ? RunStatus::kRunning : RunStatus::kHalted;
  }
  absl::StatusOr<HaltReasonValueType> GetLastHaltReason() override {
    if (Fails("GetLastHaltReason")) return Err();
    told_done = reason == static_cast<uint32_t>(HR::kProgramDone);
    return reason;
  }
  absl::StatusOr<uint64_t> ReadRegister(const std::string& n) override {
    if (Fails("ReadRegister")) return Err();
    auto it = dbs.find(n);
    if (it == dbs.end()) return absl::NotFoundError("no such register");
    uint64_t v = 0;
    memcpy(&v, it->second->raw_ptr(), std::min<size_t>(8, it->second->size<uint8_t>()));
    return v;
  }
  absl::Status WriteRegister(const std::string& n, uint64_t v) override {
    if (Fails("WriteRegister")) return Err();
    auto it = dbs.find(n);
    if (it == dbs.end()) return absl::NotFoundError("no such register");
    memcpy(it->second->raw_ptr(), &v, std::min<size_t>(8, it->second->size<uint8_t>()));
    return absl::OkStatus();
  }
  absl::StatusOr<DataBuffer*> GetRegisterDataBuffer(const std::string& n) override {
    if (Fails("GetRegisterDataBuffer")) return Err();
    auto it = dbs.find(n);
    if (it == dbs.end()) return absl::NotFoundError("no such register");
    return it->second;
  }
  absl::StatusOr<size_t> ReadMemory(uint64_t a, void* buf, size_t n) override {
    if (Fails("ReadMemory")) return Err();
    if (a < kBase || a > kBase + mem.size()) return absl::OutOfRangeError("no memory");
    n = std::min<size_t>(n, kBase + mem.size() - a);
    memcpy(buf, mem.data() + (a - kBase), n);
    return n;
  }
  absl::StatusOr<size_t> WriteMemory(uint64_t a, const void* buf, size_t n) override {
    if (Fails("WriteMemory")) return Err();
    if (a < kBase || a > kBase + mem.size()) return absl::OutOfRangeError("no memory");
    n = std::min<size_t>(n, kBase + mem.size() - a);
    memcpy(mem.data() + (a - kBase), buf, n);
    return n;
  }
  bool HasBreakpoint(uint64_t a) override { return bps.count(a); }
  absl::Status SetSwBreakpoint(uint64_t a) override {
    if (Fails("SetSwBreakpoint")) return Err();
    if (!bps.insert(a).second) return absl::AlreadyExistsError("breakpoint exists");
    return absl::OkStatus();
  }
  absl::Status ClearSwBreakpoint(uint64_t a) override {
    if (Fails("ClearSwBreakpoint")) return Err();
    if (!bps.erase(a)) return absl::NotFoundError("no breakpoint");
    return absl::OkStatus();
  }
  absl::Status ClearAllSwBreakpoints() override {
    bps.clear();
    return absl::OkStatus();
  }
  void GetWatchpointInfo(uint64_t& a, AccessType& t) override {
    a = watch_addr;
    t = watch_type;
  }
  absl::StatusOr<Instruction*> GetInstruction(uint64_t) override { return absl::UnimplementedError("-"); }
  absl::StatusOr<std::string> GetDisassembly(uint64_t) override { return absl::UnimplementedError("-"); }
  std::string GetExecutableFileName() override { return file; }

  std::string Bytes(const std::string& n) {
    DataBuffer* db = dbs.at(n);
    return std::string(static_cast<char*>(db->raw_ptr()), db->size<uint8_t>());
  }
  uint64_t Pc() {
    uint64_t v = 0;
    memcpy(&v, dbs["pc"]->raw_ptr(), dbs["pc"]->size<uint8_t>());
    return v;
  }
  void SetPc(uint64_t v) { memcpy(dbs["pc"]->raw_ptr(), &v, dbs["pc"]->size<uint8_t>()); }
  // Everything a debugger can change.
  std::string State(bool regs = true) {
    std::string s(mem.begin(), mem.end());
    if (regs)
      for (auto& [n, db] : dbs) s += n + "=" + Bytes(n) + ";";
    for (uint64_t b : bps) s += Hex(b) + ",";
    return s + std::to_string(runs) + "/" + std::to_string(steps);
  }

  DataBufferFactory factory;
  std::map<std::string, DataBuffer*> dbs;
  std::vector<uint8_t> mem;
  std::set<uint64_t> bps;
  HaltReasonValueType reason = static_cast<uint32_t>(HR::kNone);
  HaltReasonValueType next_reason = 0;
  uint64_t next_pc = 0, run_pc = 0;
  bool running = false;
  bool told_done = false;  // the last reason given out
  int runs = 0, steps = 0;
  uint64_t watch_addr = 0;
  AccessType watch_type = AccessType::kNone;
  std::string file = "a.out", fail, message;
  absl::StatusCode code = absl::StatusCode::kInternal;
  bool failed = false;
};

using Fields = std::vector<std::pair<std::string, std::string>>;
Fields Split(const std::string& s) {
  Fields f;
  size_t i = 0;
  while (i < s.size()) {
    size_t e = std::min(s.find(';', i), s.size());
    std::string part = s.substr(i, e - i);
    size_t c = part.find(':');
    f.push_back({part.substr(0, c), c == std::string::npos ? "" : part.substr(c + 1)});
    i = e + 1;
  }
  return f;
}

// The debugger.
class Client : public fakenet::Peer {
 public:
  Client(pbt::Src& s, pbt::Ctx& c, Core& core, Info& info) : src(s), ctx(c), core(core), info(info) {}

  struct Cmd {
    std::string text;
    // Judges the response; empty: correct.
    std::function<std::string(const std::string&)> check;
    bool no_response = false;  // the connection ends instead
    bool ends = false;         // it ends after the response
    bool any = false;          // whatever happens is right, if it is well formed
    bool long_packet = false;  // more than the packet size announced
    bool start_no_ack = false;
  };

  pbt::Src& src;
  pbt::Ctx& ctx;
  Core& core;
  Info& info;
  int left = 0;           // commands to send
  bool no_ack = false;
  bool thread_suffix = false;
  std::string failure;
  bool may_end = false;   // the server may end the connection now
  bool must_end = false;  // ... and has to
  int handled = 0, errors = 0, nacks = 0, resent = 0;
  bool escaped = false;
  bool last_response = false;  // the connection ends without reading again

  enum { kStart, kSent, kAcking, kBad } phase = kStart;
  Cmd cmd;
  std::string frame;
  int nack_left = 0, nacked = 0;

  void Fail(const std::string& s) {
    if (failure.empty()) failure = s;
    eof = true;
  }

  static std::string Frame(const std::string& body, int delta = 0, bool upper = false) {
    unsigned sum = 0;
    for (unsigned char c : body) sum += c;
    char b[8];
    snprintf(b, sizeof(b), upper ? "#%02X" : "#%02x", (sum + delta) & 0xff);
    return "$" + body + b;
  }
  // Parses one frame at the start of s; empty: well formed.
  static std::string Parse(const std::string& s, size_t& used, std::string& body) {
    if (s.empty() || s[0] != '$') return "no response";
    size_t h = s.find('#');
    if (h == std::string::npos || h + 2 >= s.size()) return "the response has no end";
    std::string raw = s.substr(1, h - 1);
    unsigned sum = 0;
    body.clear();
    for (size_t i = 0; i < raw.size(); i++) {
      unsigned char c = raw[i];
      sum += c;
      if (c == '$' || c == '*') return std::string("the response contains a bare ") + raw[i];
      if (c == '}') {
        if (++i == raw.size()) return "the response ends in an escape";
        sum += static_cast<unsigned char>(raw[i]);
        body += static_cast<char>(raw[i] ^ 0x20);
      } else {
        body += raw[i];
      }
    }
    char b[4];
    snprintf(b, sizeof(b), "%02x", sum & 0xff);
    if (Lower(s.substr(h + 1, 2)) != b) return "the checksum of the response is wrong";
    used = h + 3;
    return "";
  }

  void OnWait() override {
    if (net_failed()) return;
    std::string got;
    got.swap(out);
    if (must_end) {
      Fail("the connection goes on after " + cmd.text.substr(0, 40));
      return;
    }
    may_end = false;
    switch (phase) {
      case kStart:
        if (!got.empty()) return Fail("output before the handshake");
        if (src.chance(2)) {
          in = std::string(1, src.pick({'-', '$', 'x'}));
          must_end = true;
          ctx.log("bad handshake");
          return;
        }
        in = "+";
        return Next();
      case kBad:  // a bad packet was sent
        if (!no_ack) {
          if (got != "-") return Fail("a packet with a bad checksum is answered by '" + got + "'");
        } else {
          size_t used = 0;
          std::string body;
          std::string e = Parse(got, used, body);
          if (e.empty() && (used != got.size() || body.empty() || body[0] != 'E')) e = "not an error";
          if (!e.empty()) return Fail("a packet with a bad checksum is answered by '" + got + "': " + e);
        }
        if (core.State() != before_bad) return Fail("a packet with a bad checksum changes the core");
        nacks++;
        return Next();
      case kSent: {
        size_t at = 0;
        if (!no_ack) {
          if (got.empty() || got[0] != '+') {
            if (cmd.any && got == "-") return Next();
            return Fail("the packet '" + cmd.text.substr(0, 60) + "' is not acknowledged: '" + got + "'");
          }
          at = 1;
        }
        std::string body;
        size_t used = 0;
        std::string e = Parse(got.substr(at), used, body);
        if (e.empty() && at + used != got.size()) e = "more than one response";
        if (e.empty() && cmd.check) e = cmd.check(body);
        if (!e.empty())
          return Fail("command '" + cmd.text.substr(0, 60) + "', answer '" + got.substr(0, 300) + "': " + e);
        ctx.log("  -> ", body.substr(0, 80));
        if (!body.empty() && body[0] == 'E') errors++;
        core.fail.clear();
        handled++;
        frame = got.substr(at);
        if (no_ack) {
          if (cmd.ends) {
            must_end = true;
            return OnWait();
          }
          return Next();
        }
        nack_left = src.chance(6) ? static_cast<int>(src.range(1, 5)) : 0;
        nacked = 0;
        return Ack();
      }
      case kAcking:
        // A response was refused: the same has to come again.
        if (got != frame) return Fail("after a response was refused: '" + got + "'");
        resent++;
        return Ack();
    }
  }
  bool net_failed() {
    if (!fakenet::net->failure.empty()) {
      eof = true;
      return true;
    }
    return false;
  }
  void Ack() {
    if (nack_left > 0) {
      nack_left--;
      nacked++;
      in = "-";
      phase = kAcking;
      if (nacked >= 5) must_end = true;
      return;
    }
    in = "+";
    if (cmd.start_no_ack) no_ack = true;
    if (cmd.ends) {
      must_end = true;
      return;
    }
    Next(false);
  }
  // Sends the next packet, or ends the connection.
  void Next(bool = true) {
    if (left-- <= 0 || src.chance(1)) {
      may_end = true;
      int how = src.weighted({5, 2, 2});
      if (src.chance(30)) in += Frame("m1000,4").substr(0, src.draw(9) + 1);
      ctx.log("end of the connection, ", how, " after '", in, "'");
      if (how == 0) eof = true;
      if (how == 1) closed = true;
      if (how == 2) reset = true;
      return;
    }
    Cmd prev = cmd;
    cmd = Make();
    std::string text = cmd.text;
    if (!cmd.any && !cmd.long_packet && src.chance(8)) {
      // The same bytes, some of them escaped.
      std::string t;
      for (char c : text) {
        char x = static_cast<char>(c ^ 0x20);
        if (src.chance(40) && x != '#' && x != '$') {
          t += '}';
          t += x;
          escaped = true;
        } else {
          t += c;
        }
      }
      text = t;
    }
    ctx.log("send ", text.substr(0, 80), text.size() > 80 ? "..." : "", core.fail.empty() ? "" : " (core fails: " + core.fail + ")");
    if (!cmd.long_packet && src.chance(5)) {
      int how = src.weighted({3, 1});
      core.fail.clear();
      if (how == 0) {
        in += Frame(text, static_cast<int>(src.range(1, 255)));
      } else {
        std::string f = Frame(text);
        f.replace(f.size() - 2, 2, src.pick<const char*>({"zz", "0g", "g0", "-1", "0x"}));
        in += f;
      }
      ctx.log("  with a bad checksum");
      before_bad = core.State();
      phase = kBad;
      return;
    }
    in += Frame(text, 0, src.chance(20));
    phase = kSent;
    if (cmd.no_response) must_end = true;
    if (cmd.long_packet) may_end = true;
    if (cmd.ends && no_ack) last_response = may_end = true;
  }
  std::string before_bad;

  // ---- the commands ----
  static std::string WantError(const std::string& r) {
    return !r.empty() && r[0] == 'E' ? "" : "an error was expected";
  }
  Cmd Exact(const std::string& t, const std::string& want) {
    return {t, [want](const std::string& r) {
              return Lower(r) == Lower(want) ? "" : "expected '" + want.substr(0, 200) + "'";
            }};
  }
  // An error, nothing changed.
  Cmd Refused(const std::string& t, bool may_be_empty = true, bool regs = true) {
    std::string st = core.State(regs);
    return {t, [this, st, may_be_empty, regs](const std::string& r) -> std::string {
              if (core.State(regs) != st) return "a malformed command changes the core";
              if (r.empty() && may_be_empty) return "";
              return WantError(r);
            }};
  }
  void Break(std::initializer_list<const char*> calls) {
    core.fail = src.pick(calls);
    core.failed = false;
    core.message = src.pick<const char*>({"failed", "it failed: #3", "cost $5", "a * b", "{x}"});
    core.code = absl::StatusCode::kInternal;
  }
  std::string Suffix() {
    if (!thread_suffix || src.flip()) return "";
    return ";thread:1;";
  }
  std::string PcField() { return Hex(info.pc); }
  // Judges a stop reply.
  std::string Stop(const std::string& r, bool vcont, bool pc_needed = true) {
    uint32_t why = core.reason;
    bool done = why == static_cast<uint32_t>(HR::kProgramDone);
    bool semi = why == static_cast<uint32_t>(HR::kSemihostHaltRequest);
    if (done || semi) return r.compare(0, 3, "W00") == 0 ? "" : "expected W00";
    std::string sig = "05";
    auto is = [&](HR h) { return why == static_cast<uint32_t>(h); };
    if (vcont) {
      if (is(HR::kActionPoint) || is(HR::kSimulatorError)) sig = "06";
      if (is(HR::kUserRequest)) sig = "03";
    } else {
      if (is(HR::kSoftwareBreakpoint) || is(HR::kHardwareBreakpoint) || is(HR::kDataWatchPoint) || is(HR::kActionPoint)) sig = "02";
      if (is(HR::kSimulatorError)) sig = "06";
      if (is(HR::kUserRequest)) sig = "03";
    }
    if (r.size() < 3 || r.compare(0, 3, "T" + sig) != 0) return "expected T" + sig;
    bool thread = false, pc = false, special = false;
    std::string name;
    if (vcont && is(HR::kSoftwareBreakpoint)) name = "swbreak";
    if (vcont && is(HR::kHardwareBreakpoint)) name = "hwbreak";
    if (vcont && is(HR::kDataWatchPoint)) {
      if (core.watch_type == AccessType::kLoad) name = "rwatch";
      if (core.watch_type == AccessType::kStore) name = "watch";
      if (core.watch_type == AccessType::kLoadStore) name = "awatch";
    }
    for (auto& [k, v] : Split(r.substr(3))) {
      if (k == "thread") {
        if (v != "1") return "thread " + v;
        thread = true;
      } else if (k == PcField()) {
        if (Lower(v) != HexBytes(Le(core.Pc(), info.pc_bits / 8))) return "the pc is " + Hex(core.Pc());
        pc = true;
      } else if (k == name) {
        special = true;
        if (k.find("watch") != std::string::npos) {
          uint64_t a = 0;
          if (!absl::SimpleHexAtoi(v, &a) || a != core.watch_addr) return "the watched address is " + Hex(core.watch_addr);
        }
      } else {
        return "unexpected field " + k;
      }
    }
    if (!thread) return "no thread";
    if (!pc && name != "hwbreak") return "no pc";
    if (!name.empty() && !special) return "no " + name;
    return "";
  }
  void NewStop() {
    core.next_reason = src.pick<uint32_t>({0, 1, 2, 3, 4, 5, 0x7fff'fffe, 0x7fff'ffff, 0x8000'0001, 0, 0, 6});
    core.next_pc = src.interesting() & (info.pc_bits == 32 ? 0xffffffffu : ~uint64_t{0});
    core.watch_addr = src.interesting();
    core.watch_type = src.pick({AccessType::kLoad, AccessType::kStore, AccessType::kLoadStore});
  }
  uint64_t AnyReg() {
    std::vector<uint64_t> v;
    for (auto& [n, r] : info.regs) v.push_back(n);
    return src.pick(v);
  }
  std::string Data(size_t n) {
    std::string s;
    for (size_t i = 0; i < n; i++) s += static_cast<char>(src.draw(256));
    return s;
  }

  Cmd Make() {
    switch (src.weighted({14, 14, 12, 12, 6, 6, 5, 8, 10, 10, 8, 6, 6, 16, 1, 1, 3, 4, 2, 5, 2, 3})) {
      case 0: {  // read memory
        uint64_t a = kBase + src.draw(core.mem.size() + 3) - (src.chance(3) ? 5 : 0);
        uint64_t n = src.chance(5) ? src.pick<uint64_t>({0x100, 0xfff, 0x1000, 0x3fff, 0x4000}) : src.draw(40);
        std::string t = "m" + Hex(a) + "," + Hex(n);
        if (src.chance(4)) {
          Break({"ReadMemory"});
          return {t, WantError};
        }
        if (a < kBase || a > kBase + core.mem.size()) return {t, WantError};
        size_t k = std::min<size_t>(n, kBase + core.mem.size() - a);
        return Exact(t, HexBytes(std::string(core.mem.begin() + (a - kBase), core.mem.begin() + (a - kBase) + k)));
      }
      case 1: {  // write memory
        uint64_t a = kBase + src.draw(core.mem.size());
        uint64_t n = src.chance(4) ? src.pick<uint64_t>({0x100, 0xf00, 0xff0}) : src.draw(24);
        std::string d = n > 100 ? std::string(n, static_cast<char>(src.draw(256))) : Data(n);
        std::string hex = HexBytes(d);
        if (src.flip())
          for (char& c : hex) c = toupper(c);
        std::string t = "M" + Hex(a) + "," + Hex(n) + ":" + hex;
        if (src.chance(4)) {
          Break({"WriteMemory"});
          return {t, WantError};
        }
        if (a + n > kBase + core.mem.size()) return {t, WantError};
        std::vector<uint8_t> want = core.mem;
        memcpy(want.data() + (a - kBase), d.data(), n);
        return {t, [this, want](const std::string& r) -> std::string {
                  if (r != "OK") return "expected OK";
                  return core.mem == want ? "" : "memory does not hold what was written";
                }};
      }
      case 2: {  // read register
        uint64_t n = AnyReg();
        std::string t = "p" + Hex(n) + Suffix();
        const Reg& r = info.regs.at(n);
        if (src.chance(4)) {
          Break({"ReadRegister", "GetRegisterDataBuffer"});
          return {t, [this, w = HexBytes(core.Bytes(r.name))](const std::string& x) -> std::string {
                    if (core.failed) return WantError(x);
                    return Lower(x) == w ? "" : "expected " + w;
                  }};
        }
        return Exact(t, HexBytes(core.Bytes(r.name)));
      }
      case 3: {  // write register
        uint64_t n = AnyReg();
        const Reg& r = info.regs.at(n);
        std::string d = Data(r.bytes);
        std::string t = "P" + Hex(n) + "=" + HexBytes(d) + Suffix();
        if (src.chance(4)) {
          Break({"WriteRegister", "GetRegisterDataBuffer"});
          return {t, [this, d, name = r.name](const std::string& x) -> std::string {
                    if (core.failed) return WantError(x);
                    return x == "OK" && core.Bytes(name) == d ? "" : "not written";
                  }};
        }
        std::map<std::string, std::string> want;
        for (auto& [k, db] : core.dbs) want[k] = core.Bytes(k);
        want[r.name] = d;
        return {t, [this, want](const std::string& x) -> std::string {
                  if (x != "OK") return "expected OK";
                  for (auto& [k, v] : want)
                    if (core.Bytes(k) != v) return "register " + k + " holds " + HexBytes(core.Bytes(k));
                  return "";
                }};
      }
      case 4: {  // read all
        std::string want;
        for (int i = info.first; i <= info.last; i++)
          if (info.regs.count(i)) want += HexBytes(core.Bytes(info.regs[i].name));
        std::string t = "g" + Suffix();
        if (src.chance(4)) {
          Break({"GetRegisterDataBuffer", "ReadRegister"});
          return {t, [this, want](const std::string& x) -> std::string {
                    if (core.failed) return WantError(x);
                    return Lower(x) == want ? "" : "expected " + want;
                  }};
        }
        return Exact(t, want);
      }
      case 5: {  // write all
        std::string d;
        std::map<std::string, std::string> want;
        for (auto& [k, db] : core.dbs) want[k] = core.Bytes(k);
        for (int i = info.first; i <= info.last; i++)
          if (info.regs.count(i)) {
            std::string x = Data(info.regs[i].bytes);
            want[info.regs[i].name] = x;
            d += HexBytes(x);
          }
        std::string t = "G" + d + Suffix();
        bool broken = src.chance(5);
        if (broken) Break({"GetRegisterDataBuffer", "WriteRegister"});
        return {t, [this, want](const std::string& x) -> std::string {
                  if (core.failed && !core.fail.empty()) return WantError(x);
                  if (x != "OK") return "expected OK";
                  for (auto& [k, v] : want)
                    if (core.Bytes(k) != v) return "register " + k + " holds " + HexBytes(core.Bytes(k));
                  return "";
                }};
      }
      case 6:  // why halted
        if (src.chance(5)) {
          Break({"GetLastHaltReason", "ReadRegister"});
          return {"?", WantError};
        }
        return {"?", [this](const std::string& r) { return Stop(r, false); }};
      case 7: {  // step
        NewStop();
        std::string t = "s" + Suffix();
        if (src.chance(5)) {
          Break({"Step"});
          return {t, WantError};
        }
        int want = core.steps + 1, runs = core.runs;
        return {t, [this, want, runs](const std::string& r) -> std::string {
                  if (core.steps != want || core.runs != runs) return "steps taken";
                  return r.compare(0, 3, "T05") == 0 ? "" : "expected T05";
                }};
      }
      case 8: {  // continue
        NewStop();
        bool at = src.chance(30);
        uint64_t to = src.interesting() & (info.pc_bits == 32 ? 0xffffffffu : ~uint64_t{0});
        std::string t = "c" + (at ? Hex(to) : "") + Suffix();
        if (core.told_done) {
          int runs = core.runs;
          return {t, [this, runs](const std::string& r) -> std::string {
                    if (core.runs != runs) return "the program was done";
                    return r.compare(0, 3, "W00") == 0 ? "" : "expected W00";
                  }};
        }
        if (src.chance(6)) {
          Break({"GetRunStatus", "Run", "Wait", "GetLastHaltReason", "ReadRegister"});
          return {t, WantError};
        }
        int want = core.runs + 1, steps = core.steps;
        uint64_t from = at ? to : core.Pc();
        return {t, [this, want, steps, from](const std::string& r) -> std::string {
                  if (core.runs != want || core.steps != steps) return "runs started";
                  if (core.run_pc != from) return "the program continued at " + Hex(core.run_pc) + ", not " + Hex(from);
                  if (core.running) return "the program still runs";
                  return Stop(r, false);
                }};
      }
      case 9: {  // vCont
        NewStop();
        bool step = src.flip();
        std::string a = step ? "s" : "c";
        std::string t = "vCont;" + a;
        switch (src.draw(4)) {
          case 0: t += ":1"; break;
          case 1: t += ":-1"; break;
          case 2: break;
          default: t += step ? ":1;c" : ":1;s";
        }
        if (src.chance(5)) {
          Break({"GetRunStatus", "Run", "Step", "GetLastHaltReason", "ReadRegister"});
          return {t, [](const std::string& r) -> std::string {
                    return !r.empty() && (r[0] == 'T' || r[0] == 'W' || r[0] == 'E') ? "" : "no stop reply";
                  }, false, false, false};
        }
        bool done = core.told_done;
        int runs = core.runs + (!step && !done), steps = core.steps + (step && !done);
        return {t, [this, runs, steps, done](const std::string& r) -> std::string {
                  if (core.runs != runs || core.steps != steps) return "runs or steps";
                  if (core.running) return "the program still runs";
                  if (done) return r.compare(0, 3, "W00") == 0 ? "" : "expected W00";
                  return Stop(r, true);
                }};
      }
      case 10: {  // breakpoints
        bool set = src.chance(60);
        uint64_t a = src.pick<uint64_t>({0, 0x1000, 0x1004, ~uint64_t{3}, 0xabcdef01});
        std::string t = (set ? "Z0," : "z0,") + Hex(a) + "," + src.pick<const char*>({"2", "4", "1"});
        if (src.chance(6)) {
          Break({set ? "SetSwBreakpoint" : "ClearSwBreakpoint"});
          if (src.flip()) {
            core.code = absl::StatusCode::kUnimplemented;
            return Exact(t, "");
          }
          return {t, WantError};
        }
        std::set<uint64_t> want = core.bps;
        bool ok = set ? want.insert(a).second : want.erase(a) > 0;
        return {t, [this, want, ok](const std::string& r) -> std::string {
                  if (core.bps != want) return "breakpoints set";
                  if (ok) return r == "OK" ? "" : "expected OK";
                  return WantError(r);
                }};
      }
      case 11: {  // select thread
        return Exact(std::string("H") + src.pick({'c', 'g'}) + src.pick<const char*>({"1", "0", "-1", "01"}), "OK");
      }
      case 12: {  // the target description
        uint64_t off = src.draw(info.xml.size() + 3), n = src.chance(10) ? src.pick<uint64_t>({~uint64_t{0}, 0x7fffffffffffffff}) : src.range(1, 700);
        std::string t = "qXfer:features:read:target.xml:" + Hex(off) + "," + Hex(n);
        return {t, [this, off, n](const std::string& r) -> std::string {
                  if (r.empty() || (r[0] != 'm' && r[0] != 'l')) return "expected m or l";
                  std::string d = r.substr(1);
                  std::string rest = off < info.xml.size() ? info.xml.substr(off) : "";
                  if (d.size() > n) return "too much";
                  if (rest.compare(0, d.size(), d) != 0) return "not the text at this offset";
                  if (r[0] == 'l') return d == rest ? "" : "not the last part";
                  return d.empty() ? "an empty part" : "";
                }};
      }
      case 13:
        return Malformed();
      case 14:
        return {"D", [](const std::string& r) { return r == "OK" ? "" : "expected OK"; }, false, true};
      case 15: {
        Cmd c{"k"};
        c.no_response = true;
        return c;
      }
      case 16: {
        Cmd c = Exact("QStartNoAckMode", "OK");
        c.start_no_ack = true;
        return c;
      }
      case 17: {
        switch (src.draw(4)) {
          case 0:
            return {"QThreadSuffixSupported", [this](const std::string& r) {
                      thread_suffix = true;
                      return r == "OK" ? "" : "expected OK";
                    }};
          case 1: return Exact("QEnableErrorStrings", "OK");
          case 2: return Exact("QListThreadsInStopReply", "OK");
          default: return Exact("vMustReplyEmpty", "");
        }
      }
      case 18: {
        std::string t = src.pick<const char*>({"qSupported", "qSupported:error-message+;swbreak+", "qSupported:multiprocess+"});
        return {t, [](const std::string& r) -> std::string {
                  if (r.find("PacketSize=") == std::string::npos) return "no packet size";
                  if (r.find("QStartNoAckMode+") == std::string::npos) return "no-ack mode";
                  if (r.find("swbreak+") == std::string::npos) return "swbreak";
                  if (r.find("qXfer:features:read+") == std::string::npos) return "target description";
                  return "";
                }};
      }
      case 19: {
        switch (src.draw(8)) {
          case 0: return Exact("qC", "QC1");
          case 1: return Exact("qfThreadInfo", "m1");
          case 2: return Exact("qsThreadInfo", "l");
          case 3: return Exact("qExecAndArgs", core.file);
          case 4: return {"vCont?", [](const std::string& r) {
                            return r.compare(0, 5, "vCont") == 0 && r.find(";c") != std::string::npos && r.find(";s") != std::string::npos ? "" : "expected the actions";
                          }};
          case 5: {
            Fields want;
            for (auto [k, v] : Split(info.host)) {
              if (k == "triple" || k == "hostname" || k == "os_build" || k == "os_kernel" || k == "distribution_id") v = HexBytes(v);
              want.push_back({k, v});
            }
            return {"qHostInfo", [want](const std::string& r) -> std::string { return Split(r) == want ? "" : "not the host info"; }};
          }
          case 6: return {"qGDBServerVersion", [](const std::string& r) { return r.find("name:") != std::string::npos ? "" : "expected a name"; }};
          default: return {"qAttached", [](const std::string& r) { return r == "0" || r == "1" ? "" : "expected 0 or 1"; }};
        }
      }
      case 20: {  // longer than the packets announced
        Cmd c;
        c.long_packet = true;
        c.any = true;
        size_t n = src.pick<size_t>({0x2001, 0x3ff0, 0x3ffc, 0x3ffd, 0x3fff, 0x4000, 0x4001, 0x4010, 0x5000, 0x9000});
        c.text = std::string(src.pick<const char*>({"M1000,4:", "G", "x"})) + std::string(n, src.pick({'0', 'a', 'q'}));
        return c;
      }
      default: {  // something else
        Cmd c;
        c.any = true;
        int how = src.draw(3);
        if (how == 0) {
          size_t n = src.draw(12);
          for (size_t i = 0; i < n; i++) {
            char x = static_cast<char>(src.draw(128));
            if (x != '#' && x != '$') c.text += x;
          }
        } else {
          static const char* kWords[] = {"m", "M", "c", "s", "p", "P", "g", "G", "H", "v", "vCont", ";", ":", ",", "-1", "1", "0", "=", "Z0", "z0", "Z2", "q", "Q",
                                         "Supported", "Xfer:features:read:target.xml:", "thread:", "}", "ffffffffffffffff", "10000000000000000", "c:", "s:", "?", "-", "7fffffff", "80000000"};
          size_t n = src.range(1, 7);
          for (size_t i = 0; i < n; i++) c.text += kWords[src.draw(sizeof(kWords) / sizeof(*kWords))];
        }
        if (!c.text.empty() && (c.text[0] == 'D' || c.text[0] == 'k')) c.text = "x" + c.text;
        if (c.text.compare(0, 2, "}K") == 0 || c.text.compare(0, 2, "}d") == 0) c.text = "x";
        if (c.text.find("StartNo") != std::string::npos) c.text = "q";
        NewStop();
        return c;
      }
    }
  }
  Cmd Malformed() {
    switch (src.draw(30)) {
      case 0: return Refused("mzz,4");
      case 1: return Refused("m1000");
      case 2: return Refused("m1000,zz");
      case 3: return Refused("m");
      case 4: return Refused("m,");
      case 5: return Refused("M1000,4");
      case 6: return Refused("M1000:00");
      case 7: return Refused("M1000,4:" + src.pick<std::string>({"zzzzzzzz", "0102030z", "01z20304", "z1020304"}));
      case 8: return Refused("M1000,4:" + src.pick<std::string>({"0102", "01020", "", "0"}));
      case 9: return Refused("M:1,2");
      case 10: return Refused("Mq,2:0000");
      case 11: return Refused("pzz" + Suffix());
      case 12: return Refused("p" + Suffix());
      case 13: return Refused("p" + Hex(src.pick<uint64_t>({9999, 0x100000000, ~uint64_t{0}})) + Suffix());
      case 14: return Refused("Pzz=00");
      case 15: return Refused("P" + Hex(info.pc));
      case 16: return Refused("P" + Hex(9999) + "=00");
      case 17: {
        std::string d(2 * info.regs.at(info.pc).bytes, '1');
        d[src.draw(d.size())] = 'z';
        return Refused("P" + Hex(info.pc) + "=" + d);
      }
      case 18: return Refused("P" + Hex(info.pc) + "=" + std::string(2 * src.draw(info.regs.at(info.pc).bytes) + 1, '1'));
      case 19: {
        std::string d;
        for (int i = info.first; i <= info.last; i++)
          if (info.regs.count(i)) d += std::string(2 * info.regs[i].bytes, '1');
        int how = src.draw(3);
        if (how == 0) d[src.draw(d.size())] = 'z';
        if (how == 1) d.resize(src.draw(d.size()));
        if (how == 2) d.resize(d.size() - 1);
        return Refused("G" + d + Suffix(), true, false);
      }
      case 20: return Refused(src.pick<const char*>({"Z", "Z0", "Z0,", "Z0,zz,4", "Z9,1000,4", "z0,,4", "z", "z0,1000"}));
      case 21: return Refused(src.pick<const char*>({"H", "Hg", "Hc", "Hgzz", "Hc-"}));
      case 22: return Refused(std::string("H") + src.pick({'c', 'g'}) + src.pick<const char*>({"2", "ff", "-2", "7fffffff", "80000000", "1000000000"}));
      case 23: return Refused(src.pick<const char*>({"vCont", "vCont;", "vCont;c:zz", "vCont;c:2", "vCont;s:ff", "vCont;c:-2", "vCont;s:-7fffffff", "vContc", "vCont;c:", "vCont;s:7fffffff"}));
      case 24: return Refused(src.pick<const char*>({"vFile:open", "vRun", "v"}));
      case 25: {
        if (core.told_done) return Exact("qC", "QC1");
        return Refused("czz" + Suffix());
      }
      case 26: return Exact(src.pick<const char*>({"X", "R00", "!", "t1", "bc", "i", "A", "", "r", "T1", "\x05"}), "");
      case 27: return Exact(src.pick<const char*>({"q", "qSymbol::", "qTStatus", "qXfer:auxv:read::0,10", "qL", "qA", "qS"}), "");
      case 28: return Exact(src.pick<const char*>({"Q", "QNonStop:1", "QStart", "QPassSignals:"}), "");
      default: {
        if (!thread_suffix) return Exact("qC", "QC1");
        std::string bad = src.pick<std::string>({";thread:2;", ";thread:99;", ";thread:0;", ";thread:2147483647;"});
        switch (src.draw(5)) {
          case 0: return Refused("g" + bad);
          case 1: return Refused("p" + Hex(info.pc) + bad);
          case 2: return Refused("s" + bad);
          case 3: return core.told_done ? Refused("g" + bad) : Refused("c" + bad);
          default: return Refused("P" + Hex(info.pc) + "=" + std::string(2 * info.regs.at(info.pc).bytes, '1') + bad);
        }
      }
    }
  }
};

void MakeTarget(pbt::Src& src, Core& core, Info& info) {
  int n = src.range(1, 9);
  info.first = src.chance(20) ? 2 : 0;
  info.last = info.first + n - 1;
  info.pc_bits = src.flip() ? 64 : 32;
  info.gpr_bits = src.flip() ? 64 : 32;
  info.pc = info.last + 1 + src.draw(3);
  info.xml = "<?xml version=\"1.0\"?>\n<target version=\"1.0\">\n";
  if (src.chance(30)) info.xml += "<!-- costs $5 * 3, #1 {} -->\n";
  auto add = [&](uint64_t num, const std::string& name, int bytes, bool xml) {
    info.regs[num] = {name, bytes, xml};
    info.map[num] = name;
    DataBuffer* db = core.factory.Allocate<uint8_t>(bytes);
    for (int i = 0; i < bytes; i++) db->Set<uint8_t>(i, src.draw(256));
    core.dbs[name] = db;
    if (xml) {
      std::string b = "bitsize=\"" + std::to_string(bytes * 8) + "\"", r = "regnum=\"" + std::to_string(num) + "\"";
      info.xml += "  <reg name=\"" + name + "\" " + (src.flip() ? b + " " + r : r + " type=\"int\" " + b) + "/>\n";
    }
  };
  for (int i = info.first; i <= info.last; i++) {
    if (i > info.first && src.chance(10)) continue;  // a gap
    add(i, "x" + std::to_string(i), info.gpr_bits / 8, src.chance(85));
  }
  add(info.pc, "pc", info.pc_bits / 8, src.chance(90));
  int extra = src.draw(3);
  for (int i = 0; i < extra; i++)
    add(info.pc + 1 + i * 16, "v" + std::to_string(i), src.pick({1, 2, 16, 32}), src.chance(80));
  info.xml += "</target>\n";
  info.host = src.pick<const char*>({"", "triple:riscv64;ptrsize:8;", "hostname:a b;endian:little;os_build:x1;"});
  core.file = src.pick<const char*>({"a.out", "", "dir/x#1.elf", "a*b", "c$}"});
  core.mem.resize(src.chance(20) ? 0x6000 : 64);
  for (auto& b : core.mem) b = 0;
  for (int i = 0; i < 20; i++) core.mem[src.draw(64)] = src.draw(256);
}
}  // namespace

PBT_SUITE(sessions, "at least three commands answered, one of them refused or resent", 40000, 800000) {
  fakenet::Net net;
  fakenet::net = &net;
  struct Reset {
    ~Reset() { fakenet::net = nullptr; }
  } reset;
  Core core;
  Info info;
  MakeTarget(src, core, info);
  net.reuse = true;
  std::vector<CoreDebugInterface*> cores{&core};
  Core unused;
  if (src.chance(10)) cores.push_back(&unused);
  int handled = 0, odd = 0;
  {
    auto server = std::make_unique<GdbServer>(absl::MakeSpan(cores), info);
    int connections = src.chance(15) ? 2 : 1;
    for (int c = 0; c < connections; c++) {
      Client client(src, ctx, core, info);
      client.left = src.range(1, 25);
      net.next_peer = &client;
      core.reason = static_cast<uint32_t>(HR::kNone);
      if (src.chance(3)) {
        int port = src.pick({0, -1});
        PBT_ASSERT(!server->Connect(port), "port " << port << " accepted");
        continue;
      }
      int f = src.chance(4) ? static_cast<int>(src.range(1, 5)) : 0;
      net.fail_socket = f == 1;
      net.fail_setsockopt = f == 2;
      net.fail_bind = f == 3;
      net.fail_listen = f == 4;
      net.fail_accept = f == 5;
      if (f) {
        ctx.log("fault ", f);
        PBT_ASSERT(!server->Connect(1234), "Connect succeeds without a connection");
        net.fail_socket = net.fail_setsockopt = net.fail_bind = net.fail_listen = net.fail_accept = 0;
        if (!net.failure.empty()) PBT_FAIL(net.failure);
        continue;
      }
      ctx.log("connect");
      server->Connect(1234);
      if (!client.failure.empty()) PBT_FAIL(client.failure);
      if (!net.failure.empty()) PBT_FAIL(net.failure);
      if (!client.may_end && !client.must_end) {
        PBT_FAIL("the server ends the connection after '" << client.cmd.text.substr(0, 60) << "', having sent '" << client.out.substr(0, 200) << "'");
      }
      if (client.last_response) PBT_EQ(client.out, Client::Frame("OK"), "the answer to detach");
      if (client.must_end && client.cmd.no_response)
        PBT_EQ(client.out, std::string(client.no_ack ? "" : "+"), "the answer to kill");
      handled += client.handled;
      odd += client.errors + client.nacks + client.resent;
      if (client.escaped) ctx.label("escaped bytes");
      if (client.resent) ctx.label("response sent again");
      if (client.nacks) ctx.label("packet refused");
      if (client.no_ack) ctx.label("no-ack mode");
    }
  }
  if (!net.failure.empty()) PBT_FAIL(net.failure);
  PBT_EQ(net.OpenBy(fakenet::Use::kListen) + net.OpenBy(fakenet::Use::kConn), 0, "descriptors left open");
  ctx.nontrivial_if(handled >= 3 && odd >= 1);
}
