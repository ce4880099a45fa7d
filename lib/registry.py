"""Which harness decides which property, and what it is built from."""
import os

import build

H = os.path.join(build.VERIF, "harness")
L = os.path.join(build.VERIF, "lib")

# property id -> harness sources (in /verif/harness), /repo packages.
CHECKS = {}


def check(pid, srcs, pkgs=("generic",), **kw):
    CHECKS[pid] = dict(srcs=srcs, pkgs=pkgs, **kw)


check("C01", ["data_buffer.cc"])
check("C02", ["delay_line.cc"])
check("C03", ["registers.cc"])
check("C04", ["immediates.cc"])
check("C05", ["fifos.cc"])
check("C06", ["program_errors.cc"])
check("C07", ["components.cc"])
check("C08", ["simple_resources.cc"])
check("C09", ["complex_resources.cc"])
check("C10", ["decode_cache.cc"])
check("C11", ["instructions.cc"])
check("C12", ["action_points.cc"])
check("C13", ["fp_types.cc"])
DEC = ["decoder/extract.cc", "decoder/format_name.cc", "decoder/resource.cc",
       "decoder/template_expression.cc"]
check("C14", ["extraction.cc"], lib_files=DEC)
check("C15", ["template_expr.cc"], lib_files=DEC)
check("C16", ["names.cc"], lib_files=DEC)
MEM = ("generic", "util/memory")
check("C17", ["flat_memory.cc"], pkgs=MEM)
check("C18", ["tagged_memory.cc"], pkgs=MEM)
check("C19", ["watchers.cc"], pkgs=MEM)
check("C20", ["atomics.cc"], pkgs=MEM)
check("C21", ["routers.cc"], pkgs=MEM)
check("C22", ["cache.cc"], pkgs=MEM)
check("C23", ["use_profiler.cc"], pkgs=MEM)
check("C24", ["memory_stacks.cc"], pkgs=MEM)

BIN = ["decoder/%s.cc" % n for n in (
    "bin_decoder bin_encoding_info bin_format_visitor decoder_error_listener "
    "encoding_group extract format format_name instruction_encoding "
    "instruction_group overlay").split()]


def build_decoder(pid):
    c = CHECKS[pid]
    build.gen_parsers()
    shim = os.path.join(build.VERIF, "shim")
    flags = ["-std=c++17", "-O0", "-w", "-fPIC", "-I" + shim]
    pch = build.gen_pch("emitted", "".join('#include %s\n' % h for h in (
        "<algorithm>", "<cstdint>", "<functional>", "<iostream>", "<map>",
        "<memory>", "<string>", "<tuple>", "<vector>",
        '"absl/base/no_destructor.h"', '"absl/container/flat_hash_map.h"',
        '"absl/functional/any_invocable.h"', '"absl/functional/bind_front.h"',
        '"absl/log/log.h"', '"absl/strings/str_cat.h"', '"absl/strings/str_format.h"')), flags)
    extra = build.DEC_EXTRA + [
        '-DVERIF_CXX="%s"' % build.CXX, '-DVERIF_SHIM="%s"' % shim,
        '-DVERIF_PCH="%s"' % pch]
    srcs = [os.path.join(H, s) for s in c["srcs"]] + [os.path.join(L, "pbt.cc")]
    return build.build(pid, srcs, proto=False, extra=tuple(extra), libs=("-ldl", "-rdynamic"),
                       mode=c.get("mode", "asan"), lib_files=c["lib_files"])


def build_isa(pid):
    """The harness runs the generator, compiles what it emits and runs that."""
    c = CHECKS[pid]
    build.gen_parsers()
    flags = [f for f in build.BASE_FLAGS if f != "-g1"] + ["-O0", "-fPIC", "-w", "-I" + H]
    pch = build.gen_pch("isa", '#include "isa_glue.h"\n', flags,
                        deps=[os.path.join(build.REPO, "mpact/sim/generic"), H])
    rt = build.build("isa_rt", [os.path.join(H, "isa_rt.cc")], mode="plain", extra=("-I" + H,),
                     libs=("-ldl", "-rdynamic", "-Wl,--no-as-needed") + tuple(
                         "-labsl_" + n for n in ("str_format_internal", "strings", "raw_hash_set",
                                                 "hash", "throw_delegate", "strings_internal")))
    extra = build.DEC_EXTRA + [
        '-DVERIF_CXX="%s"' % build.CXX, '-DVERIF_PCH="%s"' % pch, '-DVERIF_RT="%s"' % rt,
        '-DVERIF_EMITTED_FLAGS="%s"' % " ".join(flags)]
    srcs = [os.path.join(H, s) for s in c["srcs"]] + [os.path.join(L, "pbt.cc")]
    return build.build(pid, srcs, proto=False, extra=tuple(extra), lib_files=c["lib_files"])


check("C25", ["bin_decode.cc"], lib_files=BIN, builder=build_decoder)
check("C26", ["bin_fields.cc"], lib_files=BIN, builder=build_decoder)

check("C28", ["isa.cc"], builder=build_isa, lib_files=["decoder/%s.cc" % n for n in (
    "instruction_set_visitor instruction_set instruction opcode slot bundle resource "
    "template_expression format_name decoder_error_listener").split()])

WRAP = ["-Wl,--wrap=" + n for n in ("read write recv send close shutdown fcntl socket "
                                    "setsockopt bind listen accept").split()]
check("C27", ["gdb.cc"], lib_files=["generic/data_buffer.cc", "util/gdbserver/gdbserver.cc"],
      extra=("-include", "verif_net_prelude.h", "-I" + os.path.join(build.VERIF, "shim_net"), "-I" + H),
      libs=tuple(WRAP))

ELF = ("-I" + os.path.join(build.VERIF, "shim_elf"),)
check("C29", ["elf_loader.cc"], lib_files=["generic/data_buffer.cc", "util/program_loader/elf_program_loader.cc"],
      extra=ELF)

check("C30", ["instruction_profiler.cc"], extra=ELF, lib_files=[
    "generic/data_buffer.cc", "util/program_loader/elf_program_loader.cc",
    "util/other/instruction_profiler.cc"])

check("C31", ["assembler.cc"], extra=ELF + ("-I" + os.path.join(build.VERIF, "shim_net"),), lib_files=[
    "generic/data_buffer.cc", "util/program_loader/elf_program_loader.cc",
    "util/asm/resolver.cc", "util/asm/simple_assembler.cc"])

# absl::Mutex is replaced, in all sources, by one that the harness schedules.
SCHED = ("-include", os.path.join(build.VERIF, "shim_sched", "verif_sched_prelude.h"))
check("C32", ["renode_cli_top.cc"], extra=SCHED, lib_files=[
    "generic/data_buffer.cc", "util/renode/renode_cli_top.cc",
    "util/renode/cli_forwarder.cc"])

# connect() of the C interface is not to take the place of that of the C library.
check("C33", ["renode_agent.cc"], extra=("-Dconnect=renode_connect",),
      pkgs=("generic", "util/renode"))

check("C34", ["devices.cc"], pkgs=("generic", "util/renode", "util/other"))


PROTO_FMT = ["decoder/%s.cc" % n for n in (
    "proto_format_visitor proto_constraint_expression proto_constraint_value_set "
    "proto_encoding_group proto_encoding_info proto_instruction_decoder "
    "proto_instruction_encoding proto_instruction_group decoder_error_listener "
    "format_name").split()]


def build_proto_fmt(pid):
    """The harness runs the generator, compiles what it emits and runs that."""
    c = CHECKS[pid]
    build.gen_parsers()
    out = os.path.join(build.GEN, "proto_schema")
    os.makedirs(out, exist_ok=True)
    pb = os.path.join(out, "proto_schema.pb.cc")
    src = os.path.join(H, "proto_schema.proto")
    if not os.path.exists(pb) or os.path.getmtime(pb) < os.path.getmtime(src):
        r = build.run(["protoc", "-I" + H, "--cpp_out=" + out, src])
        if r.returncode != 0:
            raise RuntimeError("protoc failed:\n%s" % r.stdout)
    shim = os.path.join(build.VERIF, "shim")
    flags = ["-std=c++17", "-O0", "-w", "-fPIC", "-fsanitize=address", "-I" + shim, "-I" + H, "-I" + out]
    pch = build.gen_pch("proto_fmt", '#include "proto_glue.h"\n', flags, deps=[out, H])
    extra = build.DEC_EXTRA + [
        "-I" + os.path.join(build.VERIF, "shim_proto"), "-I" + out,
        '-DVERIF_CXX="%s"' % build.CXX, '-DVERIF_PCH="%s"' % pch,
        '-DVERIF_HARNESS="%s"' % H, '-DVERIF_EMITTED_FLAGS="%s"' % " ".join(flags)]
    srcs = [os.path.join(H, s) for s in c["srcs"]] + [os.path.join(L, "pbt.cc"), pb]
    return build.build(pid, srcs, proto=False, extra=tuple(extra), lib_files=c["lib_files"],
                       libs=("-lprotobuf", "-ldl", "-rdynamic"))


check("C35", ["proto_fmt.cc"], builder=build_proto_fmt, lib_files=PROTO_FMT)


def build_check(pid):
    c = CHECKS[pid]
    if "builder" in c:
        return c["builder"](pid)
    srcs = [os.path.join(H, s) for s in c["srcs"]] + [os.path.join(L, "pbt.cc")]
    return build.build(pid, srcs, pkgs=c["pkgs"], extra=c.get("extra", ()),
                       libs=c.get("libs", ()), mode=c.get("mode", "asan"),
                       lib_files=c.get("lib_files"))
