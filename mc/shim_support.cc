// Definitions behind the stand-in headers in /verif/shim.
#include "mc.h"
#include <cstdint>
#include <cstdio>
#include <cstdlib>

namespace fLI { int32_t FLAGS_minloglevel = 2; int32_t FLAGS_v = 0; int32_t FLAGS_stderrthreshold = 3; }
namespace fLB { bool FLAGS_logtostderr = false; }

// A fatal log message or failed CHECK. A harness for which that is an expected answer installs a handler.
void (*mc_log_hook)(int severity, const char* msg) = nullptr;
void (*mc_fatal_hook)(const char* file, int line, const char* msg) = nullptr;
extern "C" [[noreturn]] void mc_fatal(const char* file, int line, const char* msg) {
    if (mc_fatal_hook) mc_fatal_hook(file, line, msg);
    std::string s = std::string("fatal log message or failed CHECK at ") + file + ":" + std::to_string(line) + ": " + msg;
    if (mc::active()) mc::die_violation("fatal", s);
    fprintf(stderr, "%s\n", s.c_str());
    abort();
}

// Answers the time stamp counter reads that run.py turned into calls. Preserves every register but
// rax, rdx (and rcx for rdtscp) and copes with any stack alignment.
uint64_t (*mc_rdtsc_hook)() = nullptr;
extern "C" uint64_t mc_rdtsc_value() { return mc_rdtsc_hook ? mc_rdtsc_hook() : 0; }
asm(R"(
    .text
    .globl mc_rdtsc_asm
    .globl mc_rdtscp_asm
mc_rdtscp_asm:
    xor %ecx, %ecx
mc_rdtsc_asm:
    push %rbp
    mov %rsp, %rbp
    push %rbx
    push %rcx
    push %rsi
    push %rdi
    push %r8
    push %r9
    push %r10
    push %r11
    sub $600, %rsp
    and $-64, %rsp
    fxsave (%rsp)
    cld
    call mc_rdtsc_value
    fxrstor (%rsp)
    lea -64(%rbp), %rsp
    pop %r11
    pop %r10
    pop %r9
    pop %r8
    pop %rdi
    pop %rsi
    pop %rcx
    pop %rbx
    pop %rbp
    mov %rax, %rdx
    shr $32, %rdx
    mov %eax, %eax
    ret
)");

// folly/Random.h stand-in
uint64_t (*mc_rand64_hook)(uint64_t lo, uint64_t hi) = nullptr;
static uint64_t mcRandState = 0x9e3779b97f4a7c15ULL;
uint64_t mc_rand_default(uint64_t lo, uint64_t hi) { mcRandState ^= mcRandState << 13; mcRandState ^= mcRandState >> 7; mcRandState ^= mcRandState << 17; return hi ? lo + mcRandState % (hi - lo) : mcRandState; }
