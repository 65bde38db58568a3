// Running generated machine code: guarded input buffers and a call that checks the calling convention.
#pragma once
#include "pbt.hpp"
#include <sys/mman.h>
#include <unistd.h>

namespace jt
{
// Text followed by zeros as every runner serves it: 16 bytes and not one more.
struct Buffer
{
    char *base;
    size_t size;
    char *text;
    Buffer(const std::string& s, size_t unit = 1)
    {
        size_t page = (size_t)sysconf(_SC_PAGESIZE), need = s.size() + 16;
        size = (need + page - 1) / page * page + 2 * page;
        base = (char *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (base == MAP_FAILED) abort();
        text = base + size - page - need;
        memcpy(text, s.data(), s.size());
        mprotect(base, page, PROT_NONE);
        mprotect(base + size - page, page, PROT_NONE);
        mprotect(base + page, size - 2 * page, PROT_READ);
    }
    Buffer(const Buffer&) = delete;
    ~Buffer() { munmap(base, size); }
};
// Calls f(a, b, c); afterwards jt_bad tells which registers a called function has to preserve were not.
extern "C" void *jt_call(const void *f, const void *a, const void *b, const void *c);
extern "C" uint64_t jt_bad;
inline std::string trouble()
{
    static const char *n[] = {"rbx", "rbp", "r12", "r13", "r14", "r15", "rsp", "the direction flag"};
    std::string s;
    for (int i = 0; i < 8; i++) if (jt_bad >> i & 1) s += std::string(s.empty() ? "" : ", ") + n[i];
    return s;
}
#ifdef JT_MAIN
extern "C" { uint64_t jt_bad = 0; uint64_t jt_sp = 0; }
asm(R"(
.text
.globl jt_call
jt_call:
    push %rbx
    push %rbp
    push %r12
    push %r13
    push %r14
    push %r15
    sub $8, %rsp
    mov %rdi, %rax
    mov %rsi, %rdi
    mov %rdx, %rsi
    mov %rcx, %rdx
    movabs $0x1111111111111111, %rbx
    movabs $0x2222222222222222, %rbp
    movabs $0x3333333333333333, %r12
    movabs $0x4444444444444444, %r13
    movabs $0x5555555555555555, %r14
    movabs $0x6666666666666666, %r15
    mov %rsp, jt_sp(%rip)
    call *%rax
    pushf
    pop %rdx
    xor %ecx, %ecx
    movabs $0x1111111111111111, %rsi
    cmp %rsi, %rbx
    je 1f
    or $1, %ecx
1:  movabs $0x2222222222222222, %rsi
    cmp %rsi, %rbp
    je 1f
    or $2, %ecx
1:  movabs $0x3333333333333333, %rsi
    cmp %rsi, %r12
    je 1f
    or $4, %ecx
1:  movabs $0x4444444444444444, %rsi
    cmp %rsi, %r13
    je 1f
    or $8, %ecx
1:  movabs $0x5555555555555555, %rsi
    cmp %rsi, %r14
    je 1f
    or $16, %ecx
1:  movabs $0x6666666666666666, %rsi
    cmp %rsi, %r15
    je 1f
    or $32, %ecx
1:  cmp jt_sp(%rip), %rsp
    je 1f
    or $64, %ecx
    mov jt_sp(%rip), %rsp
1:  test $0x400, %edx
    je 1f
    or $128, %ecx
    cld
1:  mov %rcx, jt_bad(%rip)
    add $8, %rsp
    pop %r15
    pop %r14
    pop %r13
    pop %r12
    pop %rbp
    pop %rbx
    ret
)");
#endif
}
