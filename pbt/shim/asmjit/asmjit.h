// A stand-in for the assembler library the code generator is written against (its sources are a submodule
// that is not in this checkout). It has the same interface, as far as code generators use it, and assembles
// real x86-64 code.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/mman.h>

namespace asmjit
{
typedef uint32_t Error;
enum : uint32_t { kErrorOk = 0, kErrorInvalidLabel = 11, kErrorInvalidInstruction = 21, kErrorInvalidState = 3 };
enum AlignMode : uint32_t { kAlignCode = 0, kAlignData = 1, kAlignZero = 2, kAlignCount = 3 };
class CodeHolder;
class CodeEmitter {};

class ErrorHandler
{
public:
    virtual ~ErrorHandler() {}
    virtual bool handleError(Error err, const char *message, CodeEmitter *origin) = 0;
};
class Logger
{
public:
    virtual ~Logger() {}
    virtual Error log(const char *, size_t = (size_t)-1) { return kErrorOk; }
    void setIndentation(const char *) {}
    void addOptions(uint32_t) {}
};
class FileLogger : public Logger
{
    FILE *m_stream;
public:
    FileLogger(FILE *f = nullptr) : m_stream(f) {}
    FILE *getStream() const { return m_stream; }
    void setStream(FILE *f) { m_stream = f; }
};
class StringLogger : public Logger
{
    std::string m_s;
public:
    const char *getString() const { return m_s.c_str(); }
    size_t getLength() const { return m_s.size(); }
    void clearString() { m_s.clear(); }
};
union Data64
{
    int8_t sb[8]; uint8_t ub[8]; int16_t sw[4]; uint16_t uw[4]; int32_t sd[2]; uint32_t ud[2]; int64_t sq[1]; uint64_t uq[1]; float sf[2]; double df[1];
};
union Data128
{
    int8_t sb[16]; uint8_t ub[16]; int16_t sw[8]; uint16_t uw[8]; int32_t sd[4]; uint32_t ud[4]; int64_t sq[2]; uint64_t uq[2]; float sf[4]; double df[2];
};
class Zone
{
public:
    explicit Zone(size_t = 4096, size_t = 8) {}
    void reset(bool = false) {}
};
class ZoneHeap { public: ZoneHeap(Zone * = nullptr) {} };
class ConstPool
{
    std::vector<uint8_t> m_data;
    std::map<std::string, size_t> m_where;
    size_t m_align;
public:
    explicit ConstPool(Zone *) : m_align(1) {}
    Error add(const void *data, size_t size, size_t& offset)
    {
        std::string key((const char *)data, size);
        auto i = m_where.find(key);
        if (i != m_where.end()) { offset = i->second; return kErrorOk; }
        while (m_data.size() % size) m_data.push_back(0);
        offset = m_data.size();
        m_data.insert(m_data.end(), (const uint8_t *)data, (const uint8_t *)data + size);
        if (size > m_align) m_align = size;
        m_where[key] = offset;
        return kErrorOk;
    }
    bool isEmpty() const { return m_data.empty(); }
    size_t getSize() const { return m_data.size(); }
    size_t getAlignment() const { return m_align; }
    void fill(void *dst) const { if (!m_data.empty()) memcpy(dst, m_data.data(), m_data.size()); }
};
class Label
{
    uint32_t m_id;
public:
    Label() : m_id(0) {}
    explicit Label(uint32_t id) : m_id(id) {}
    uint32_t getId() const { return m_id; }
    bool isValid() const { return m_id != 0; }
    bool operator==(const Label& o) const { return m_id == o.m_id; }
    bool operator!=(const Label& o) const { return m_id != o.m_id; }
};
class Imm
{
    int64_t m_v;
public:
    Imm() : m_v(0) {}
    template <typename T, typename = typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type>
    explicit Imm(T v) : m_v((int64_t)v) {}
    int64_t getInt64() const { return m_v; }
    uint64_t getUInt64() const { return (uint64_t)m_v; }
};
inline Imm imm(int64_t v) { return Imm(v); }
inline Imm imm_u(uint64_t v) { return Imm(v); }
template <typename T> inline Imm imm_ptr(T p) { return Imm((int64_t)(intptr_t)p); }

class X86Reg
{
protected:
    int m_id, m_size;
public:
    X86Reg(int id = -1, int size = 0) : m_id(id), m_size(size) {}
    uint32_t getId() const { return (uint32_t)m_id; }
    uint32_t getSize() const { return (uint32_t)m_size; }
    bool operator==(const X86Reg& o) const { return m_id == o.m_id && m_size == o.m_size; }
    bool operator!=(const X86Reg& o) const { return !(*this == o); }
};
class X86Gp : public X86Reg
{
public:
    X86Gp(int id = -1, int size = 8) : X86Reg(id, size) {}
    X86Gp r8() const { return X86Gp(m_id, 1); }
    X86Gp r8Lo() const { return X86Gp(m_id, 1); }
    X86Gp r16() const { return X86Gp(m_id, 2); }
    X86Gp r32() const { return X86Gp(m_id, 4); }
    X86Gp r64() const { return X86Gp(m_id, 8); }
};
class X86Xmm : public X86Reg
{
public:
    X86Xmm(int id = -1) : X86Reg(id, 16) {}
};
class X86Mem
{
public:
    int base = -1, index = -1, shift = 0, size = 0;
    uint32_t label = 0;
    int64_t disp = 0;
    X86Mem() {}
    X86Mem(const X86Gp& b, int64_t d, uint32_t s = 0) : base((int)b.getId()), size((int)s), disp(d) {}
    X86Mem(const X86Gp& b, const X86Gp& i, uint32_t sh, int64_t d, uint32_t s = 0) : base((int)b.getId()), index((int)i.getId()), shift((int)sh), size((int)s), disp(d) {}
    X86Mem(const Label& l, int64_t d, uint32_t s = 0) : size((int)s), label(l.getId()), disp(d) {}
    void setSize(uint32_t s) { size = (int)s; }
};
namespace x86
{
#define VERIF_GP(n, i) static const X86Gp n(i, VERIF_SIZE);
#define VERIF_SIZE 8
VERIF_GP(rax, 0) VERIF_GP(rcx, 1) VERIF_GP(rdx, 2) VERIF_GP(rbx, 3) VERIF_GP(rsp, 4) VERIF_GP(rbp, 5) VERIF_GP(rsi, 6) VERIF_GP(rdi, 7)
VERIF_GP(r8, 8) VERIF_GP(r9, 9) VERIF_GP(r10, 10) VERIF_GP(r11, 11) VERIF_GP(r12, 12) VERIF_GP(r13, 13) VERIF_GP(r14, 14) VERIF_GP(r15, 15)
#undef VERIF_SIZE
#define VERIF_SIZE 4
VERIF_GP(eax, 0) VERIF_GP(ecx, 1) VERIF_GP(edx, 2) VERIF_GP(ebx, 3) VERIF_GP(esp, 4) VERIF_GP(ebp, 5) VERIF_GP(esi, 6) VERIF_GP(edi, 7)
VERIF_GP(r8d, 8) VERIF_GP(r9d, 9) VERIF_GP(r10d, 10) VERIF_GP(r11d, 11) VERIF_GP(r12d, 12) VERIF_GP(r13d, 13) VERIF_GP(r14d, 14) VERIF_GP(r15d, 15)
#undef VERIF_SIZE
#define VERIF_SIZE 2
VERIF_GP(ax, 0) VERIF_GP(cx, 1) VERIF_GP(dx, 2) VERIF_GP(bx, 3) VERIF_GP(bp, 5) VERIF_GP(si, 6) VERIF_GP(di, 7)
#undef VERIF_SIZE
#define VERIF_SIZE 1
VERIF_GP(al, 0) VERIF_GP(cl, 1) VERIF_GP(dl, 2) VERIF_GP(bl, 3) VERIF_GP(spl, 4) VERIF_GP(bpl, 5) VERIF_GP(sil, 6) VERIF_GP(dil, 7)
VERIF_GP(r8b, 8) VERIF_GP(r9b, 9) VERIF_GP(r10b, 10) VERIF_GP(r11b, 11)
#undef VERIF_SIZE
#undef VERIF_GP
#define VERIF_X(i) static const X86Xmm xmm##i(i);
VERIF_X(0) VERIF_X(1) VERIF_X(2) VERIF_X(3) VERIF_X(4) VERIF_X(5) VERIF_X(6) VERIF_X(7)
VERIF_X(8) VERIF_X(9) VERIF_X(10) VERIF_X(11) VERIF_X(12) VERIF_X(13) VERIF_X(14) VERIF_X(15)
#undef VERIF_X
#define VERIF_PTR(n, s) \
    static inline X86Mem n(const X86Gp& b, int32_t d = 0) { return X86Mem(b, d, s); } \
    static inline X86Mem n(const X86Gp& b, const X86Gp& i, uint32_t sh = 0, int32_t d = 0) { return X86Mem(b, i, sh, d, s); } \
    static inline X86Mem n(const Label& l, int32_t d = 0) { return X86Mem(l, d, s); }
VERIF_PTR(ptr, 0) VERIF_PTR(byte_ptr, 1) VERIF_PTR(word_ptr, 2) VERIF_PTR(dword_ptr, 4) VERIF_PTR(qword_ptr, 8) VERIF_PTR(oword_ptr, 16) VERIF_PTR(dqword_ptr, 16) VERIF_PTR(xmmword_ptr, 16)
#undef VERIF_PTR
}
class CodeInfo {};
class CodeHolder
{
    friend class X86Assembler;
    friend class JitRuntime;
    struct Fix { size_t at; uint32_t label; int64_t add; };
    std::vector<uint8_t> m_code;
    std::vector<int64_t> m_labels;                   // offset or -1; labels count from one
    std::vector<Fix> m_fixes;
    std::vector<std::pair<size_t, uint64_t>> m_abs;  // calls of absolute addresses
    ErrorHandler *m_handler = nullptr;
    Logger *m_logger = nullptr;
    Error m_error = kErrorOk;
    bool m_init = false;
public:
    CodeHolder() {}
    CodeHolder(const CodeHolder&) = delete;
    CodeHolder& operator=(const CodeHolder&) = delete;
    Error init(const CodeInfo&) { if (m_init) return kErrorInvalidState; m_init = true; return kErrorOk; }
    void reset(bool = false) { m_code.clear(); m_labels.clear(); m_fixes.clear(); m_abs.clear(); m_error = kErrorOk; m_init = false; }
    bool isInitialized() const { return m_init; }
    void setLogger(Logger *l) { m_logger = l; }
    Logger *getLogger() const { return m_logger; }
    void resetLogger() { m_logger = nullptr; }
    void setErrorHandler(ErrorHandler *h) { m_handler = h; }
    void resetErrorHandler() { m_handler = nullptr; }
    Error getLastError() const { return m_error; }
    size_t getCodeSize() const { return m_code.size(); }
    bool isLabelBound(const Label& l) const { return l.isValid() && l.getId() <= m_labels.size() && m_labels[l.getId() - 1] >= 0; }
    intptr_t getLabelOffset(const Label& l) const { return isLabelBound(l) ? (intptr_t)m_labels[l.getId() - 1] : -1; }
};
class X86Assembler : public CodeEmitter
{
    CodeHolder *m_h;
    // Any operand.
    struct Op
    {
        enum Kind { None, Gp, Xmm, Mem, Num, Lab } kind = None;
        int id = -1, size = 0;
        X86Mem mem;
        int64_t num = 0;
        uint32_t label = 0;
        Op() {}
        Op(const X86Gp& r) : kind(Gp), id((int)r.getId()), size((int)r.getSize()) {}
        Op(const X86Xmm& r) : kind(Xmm), id((int)r.getId()), size(16) {}
        Op(const X86Mem& m) : kind(Mem), size(m.size), mem(m) {}
        Op(const Imm& i) : kind(Num), num(i.getInt64()) {}
        Op(const Label& l) : kind(Lab), label(l.getId()) {}
        template <typename T, typename = typename std::enable_if<std::is_integral<T>::value || std::is_enum<T>::value>::type>
        Op(T v) : kind(Num), num((int64_t)v) {}
        template <typename T> Op(T *p) : kind(Num), num((int64_t)(intptr_t)p) {}
    };
    std::vector<uint8_t>& c() { return m_h->m_code; }
    void b(int x) { c().push_back((uint8_t)x); }
    void d(int64_t x, int n) { for (int i = 0; i < n; i++) b((int)((uint64_t)x >> (8 * i))); }
    Error bad(const char *what, Error e = kErrorInvalidInstruction)
    {
        m_h->m_error = e;
        b(0x0F); b(0x0B);
        if (m_h->m_handler) m_h->m_handler->handleError(e, what, this);
        else if (getenv("VERIF_ASM")) fprintf(stderr, "assembler: %s\n", what);
        return e;
    }
    static bool i8(int64_t v) { return v >= -128 && v <= 127; }
    static bool i32(int64_t v) { return v >= INT32_MIN && v <= INT32_MAX; }
    void rel(uint32_t label, int64_t add) { m_h->m_fixes.push_back({c().size(), label, add - 4}); d(0, 4); }
    // prefix, REX, opcode bytes, ModRM and so on; tail: number of immediate bytes that follow
    void rm(int prefix, bool w, std::initializer_list<int> opcode, int reg, const Op& o, int tail = 0, bool byte_regs = false, int reg_size = 0)
    {
        if (prefix) b(prefix);
        int rex = (w ? 8 : 0) | (reg & 8 ? 4 : 0);
        if (o.kind == Op::Mem) rex |= (o.mem.index >= 0 && o.mem.index & 8 ? 2 : 0) | (o.mem.base >= 0 && o.mem.base & 8 ? 1 : 0);
        else rex |= o.id & 8 ? 1 : 0;
        bool need = rex != 0;
        if (byte_regs && ((o.kind == Op::Gp && o.size == 1 && o.id >= 4) || (reg_size == 1 && reg >= 4))) need = true;
        if (need) b(0x40 | rex);
        for (int x : opcode) b(x);
        int r = (reg & 7) << 3;
        if (o.kind != Op::Mem) { b(0xC0 | r | (o.id & 7)); return; }
        const X86Mem& m = o.mem;
        if (m.label) { b(r | 5); rel(m.label, m.disp - tail); return; }
        if (m.base < 0) { b(r | 4); b(0x25); d(m.disp, 4); return; }
        bool sib = m.index >= 0 || (m.base & 7) == 4;
        int mod = m.disp == 0 && (m.base & 7) != 5 ? 0 : i8(m.disp) ? 1 : 2;
        b(mod << 6 | r | (sib ? 4 : m.base & 7));
        if (sib) b(m.shift << 6 | (m.index >= 0 ? m.index & 7 : 4) << 3 | (m.base & 7));
        if (mod == 1) d(m.disp, 1);
        else if (mod == 2) d(m.disp, 4);
    }
    static int width(const Op& a, const Op& x) { return a.kind == Op::Gp ? a.size : x.kind == Op::Gp ? x.size : a.size; }
    static int p16(int w) { return w == 2 ? 0x66 : 0; }
    Error alu(int n, const Op& a, const Op& x)
    {
        int w = width(a, x);
        if (!w || (a.kind != Op::Gp && a.kind != Op::Mem)) return bad("operand without a size");
        if (x.kind == Op::Gp) rm(p16(w), w == 8, {n * 8 + (w == 1 ? 0 : 1)}, x.id, a, 0, true, w);
        else if (x.kind == Op::Mem && a.kind == Op::Gp) rm(p16(w), w == 8, {n * 8 + (w == 1 ? 2 : 3)}, a.id, x, 0, true, w);
        else if (x.kind == Op::Num)
        {
            int64_t v = x.num;
            if (w == 4) v = (int32_t)v;
            if (w == 2) v = (int16_t)v;
            if (w == 1) { rm(0, false, {0x80}, n, a, 1, true); d(v, 1); }
            else if (i8(v)) { rm(p16(w), w == 8, {0x83}, n, a, 1); d(v, 1); }
            else if (i32(v)) { rm(p16(w), w == 8, {0x81}, n, a, w == 2 ? 2 : 4); d(v, w == 2 ? 2 : 4); }
            else return bad("immediate too wide");
        }
        else return bad("operands");
        return kErrorOk;
    }
    Error shift(int n, const Op& a, const Op& x)
    {
        int w = a.size;
        if (!w) return bad("operand without a size");
        if (x.kind == Op::Num) { rm(p16(w), w == 8, {w == 1 ? 0xC0 : 0xC1}, n, a, 1, true); d(x.num, 1); }
        else if (x.kind == Op::Gp && x.id == 1) rm(p16(w), w == 8, {w == 1 ? 0xD2 : 0xD3}, n, a, 0, true);
        else return bad("shift count");
        return kErrorOk;
    }
    Error one(int op8, int op, int n, const Op& a)
    {
        int w = a.size;
        if (!w) return bad("operand without a size");
        rm(p16(w), w == 8, {w == 1 ? op8 : op}, n, a, 0, true);
        return kErrorOk;
    }
    Error branch(int cc, const Op& a)
    {
        if (a.kind != Op::Lab || !a.label) return bad("jump to no label", kErrorInvalidLabel);
        b(0x0F); b(0x80 | cc); rel(a.label, 0);
        return kErrorOk;
    }
    Error vec(int prefix, std::initializer_list<int> load, std::initializer_list<int> store, const Op& a, const Op& x)
    {
        if (a.kind == Op::Xmm && (x.kind == Op::Xmm || x.kind == Op::Mem)) rm(prefix, false, load, a.id, x);
        else if (a.kind == Op::Mem && x.kind == Op::Xmm && store.size()) rm(prefix, false, store, x.id, a);
        else return bad("vector operands");
        return kErrorOk;
    }
    Error str(int opcode, const Op& a, const Op& x, const Op& i)
    {
        if (a.kind != Op::Xmm || i.kind != Op::Num) return bad("string operands");
        rm(0x66, false, {0x0F, 0x3A, opcode}, a.id, x, 1);
        d(i.num, 1);
        return kErrorOk;
    }
public:
    explicit X86Assembler(CodeHolder *h = nullptr) : m_h(h) {}
    CodeHolder *getCode() const { return m_h; }
    size_t getOffset() const { return m_h->m_code.size(); }
    Error finalize() { return m_h->m_error; }
    Error getLastError() const { return m_h->m_error; }
    Label newLabel() { m_h->m_labels.push_back(-1); return Label((uint32_t)m_h->m_labels.size()); }
    Error bind(const Label& l)
    {
        if (!l.isValid() || l.getId() > m_h->m_labels.size()) return bad("bind of no label", kErrorInvalidLabel);
        if (m_h->m_labels[l.getId() - 1] >= 0) return bad("label bound twice", kErrorInvalidLabel);
        m_h->m_labels[l.getId() - 1] = (int64_t)c().size();
        return kErrorOk;
    }
    Error align(uint32_t, uint32_t n) { while (n && c().size() % n) b(0xCC); return kErrorOk; }
    Error comment(const char *, ...) { return kErrorOk; }
    Error embed(const void *p, uint32_t n) { c().insert(c().end(), (const uint8_t *)p, (const uint8_t *)p + n); return kErrorOk; }
    Error embedConstPool(const Label& l, const ConstPool& pool)
    {
        align(0, (uint32_t)pool.getAlignment());
        Error e = bind(l);
        std::vector<uint8_t> v(pool.getSize() + 1);
        pool.fill(v.data());
        embed(v.data(), (uint32_t)pool.getSize());
        return e;
    }
    Error db(uint8_t x) { b(x); return kErrorOk; }

    Error add(Op a, Op x) { return alu(0, a, x); }
    Error or_(Op a, Op x) { return alu(1, a, x); }
    Error adc(Op a, Op x) { return alu(2, a, x); }
    Error sbb(Op a, Op x) { return alu(3, a, x); }
    Error and_(Op a, Op x) { return alu(4, a, x); }
    Error sub(Op a, Op x) { return alu(5, a, x); }
    Error xor_(Op a, Op x) { return alu(6, a, x); }
    Error cmp(Op a, Op x) { return alu(7, a, x); }
    Error shl(Op a, Op x) { return shift(4, a, x); }
    Error sal(Op a, Op x) { return shift(4, a, x); }
    Error shr(Op a, Op x) { return shift(5, a, x); }
    Error sar(Op a, Op x) { return shift(7, a, x); }
    Error rol(Op a, Op x) { return shift(0, a, x); }
    Error ror(Op a, Op x) { return shift(1, a, x); }
    Error inc(Op a) { return one(0xFE, 0xFF, 0, a); }
    Error dec(Op a) { return one(0xFE, 0xFF, 1, a); }
    Error not_(Op a) { return one(0xF6, 0xF7, 2, a); }
    Error neg(Op a) { return one(0xF6, 0xF7, 3, a); }
    Error mul(Op a) { return one(0xF6, 0xF7, 4, a); }
    Error div(Op a) { return one(0xF6, 0xF7, 6, a); }
    Error imul(Op a, Op x) { rm(p16(a.size), a.size == 8, {0x0F, 0xAF}, a.id, x); return kErrorOk; }
    Error imul(Op a, Op x, Op i) { rm(p16(a.size), a.size == 8, {0x69}, a.id, x, 4); d(i.num, 4); return kErrorOk; }
    Error test(Op a, Op x)
    {
        int w = width(a, x);
        if (!w) return bad("operand without a size");
        if (x.kind == Op::Gp) rm(p16(w), w == 8, {w == 1 ? 0x84 : 0x85}, x.id, a, 0, true, w);
        else if (x.kind == Op::Num) { int n = w == 1 ? 1 : w == 2 ? 2 : 4; rm(p16(w), w == 8, {w == 1 ? 0xF6 : 0xF7}, 0, a, n, true); d(x.num, n); }
        else return bad("operands");
        return kErrorOk;
    }
    Error mov(Op a, Op x)
    {
        int w = width(a, x);
        if (!w) return bad("operand without a size");
        if (x.kind == Op::Gp) rm(p16(w), w == 8, {w == 1 ? 0x88 : 0x89}, x.id, a, 0, true, w);
        else if (a.kind == Op::Gp && x.kind == Op::Mem) rm(p16(w), w == 8, {w == 1 ? 0x8A : 0x8B}, a.id, x, 0, true, w);
        else if (x.kind == Op::Num && a.kind == Op::Gp && w == 8)
        {
            if (i32(x.num)) { rm(0, true, {0xC7}, 0, a, 4); d(x.num, 4); }
            else { b(0x48 | (a.id & 8 ? 1 : 0)); b(0xB8 | (a.id & 7)); d(x.num, 8); }
        }
        else if (x.kind == Op::Num)
        {
            int n = w == 8 ? 4 : w;
            if (w == 8 && !i32(x.num)) return bad("immediate too wide");
            rm(p16(w), w == 8, {w == 1 ? 0xC6 : 0xC7}, 0, a, n, true);
            d(x.num, n);
        }
        else return bad("operands");
        return kErrorOk;
    }
    Error movzx(Op a, Op x) { if (x.size != 1 && x.size != 2) return bad("source without a size"); rm(p16(a.size), a.size == 8, {0x0F, x.size == 1 ? 0xB6 : 0xB7}, a.id, x, 0, true); return kErrorOk; }
    Error movsx(Op a, Op x) { if (x.size != 1 && x.size != 2) return bad("source without a size"); rm(p16(a.size), a.size == 8, {0x0F, x.size == 1 ? 0xBE : 0xBF}, a.id, x, 0, true); return kErrorOk; }
    Error movsxd(Op a, Op x) { rm(0, true, {0x63}, a.id, x); return kErrorOk; }
    Error movnti(Op a, Op x) { if (a.kind != Op::Mem || x.kind != Op::Gp) return bad("operands"); rm(0, x.size == 8, {0x0F, 0xC3}, x.id, a); return kErrorOk; }
    Error lea(Op a, Op x) { if (x.kind != Op::Mem) return bad("operands"); rm(p16(a.size), a.size == 8, {0x8D}, a.id, x); return kErrorOk; }
    Error xchg(Op a, Op x) { int w = width(a, x); rm(p16(w), w == 8, {w == 1 ? 0x86 : 0x87}, x.id, a, 0, true, w); return kErrorOk; }
    Error bsf(Op a, Op x) { rm(p16(a.size), a.size == 8, {0x0F, 0xBC}, a.id, x); return kErrorOk; }
    Error bsr(Op a, Op x) { rm(p16(a.size), a.size == 8, {0x0F, 0xBD}, a.id, x); return kErrorOk; }
    Error bt(Op a, Op x)
    {
        if (x.kind == Op::Num) { rm(p16(a.size), a.size == 8, {0x0F, 0xBA}, 4, a, 1); d(x.num, 1); }
        else rm(p16(a.size), a.size == 8, {0x0F, 0xA3}, x.id, a);
        return kErrorOk;
    }
    Error tzcnt(Op a, Op x) { rm(0xF3, a.size == 8, {0x0F, 0xBC}, a.id, x); return kErrorOk; }
    Error popcnt(Op a, Op x) { rm(0xF3, a.size == 8, {0x0F, 0xB8}, a.id, x); return kErrorOk; }
    Error push(Op a)
    {
        if (a.kind == Op::Gp) { if (a.id & 8) b(0x41); b(0x50 | (a.id & 7)); }
        else if (a.kind == Op::Num && i8(a.num)) { b(0x6A); d(a.num, 1); }
        else if (a.kind == Op::Num && i32(a.num)) { b(0x68); d(a.num, 4); }
        else if (a.kind == Op::Mem) rm(0, false, {0xFF}, 6, a);
        else return bad("operands");
        return kErrorOk;
    }
    Error pop(Op a)
    {
        if (a.kind == Op::Gp) { if (a.id & 8) b(0x41); b(0x58 | (a.id & 7)); }
        else if (a.kind == Op::Mem) rm(0, false, {0x8F}, 0, a);
        else return bad("operands");
        return kErrorOk;
    }
    Error call(Op a)
    {
        if (a.kind == Op::Lab) { if (!a.label) return bad("call of no label", kErrorInvalidLabel); b(0xE8); rel(a.label, 0); }
        else if (a.kind == Op::Num) { b(0xFF); b(0x15); m_h->m_abs.push_back({c().size(), (uint64_t)a.num}); d(0, 4); }
        else rm(0, false, {0xFF}, 2, a);
        return kErrorOk;
    }
    Error jmp(Op a)
    {
        if (a.kind == Op::Lab) { if (!a.label) return bad("jump to no label", kErrorInvalidLabel); b(0xE9); rel(a.label, 0); }
        else if (a.kind == Op::Num) { b(0xFF); b(0x25); m_h->m_abs.push_back({c().size(), (uint64_t)a.num}); d(0, 4); }
        else rm(0, false, {0xFF}, 4, a);
        return kErrorOk;
    }
    Error ret() { b(0xC3); return kErrorOk; }
    Error ret(Op a) { b(0xC2); d(a.num, 2); return kErrorOk; }
    Error leave() { b(0xC9); return kErrorOk; }
    Error nop() { b(0x90); return kErrorOk; }
    Error int3() { b(0xCC); return kErrorOk; }
    Error ud2() { b(0x0F); b(0x0B); return kErrorOk; }
    Error pause() { b(0xF3); b(0x90); return kErrorOk; }
    Error clc() { b(0xF8); return kErrorOk; }
    Error stc() { b(0xF9); return kErrorOk; }
    Error cdq() { b(0x99); return kErrorOk; }
    Error cqo() { b(0x48); b(0x99); return kErrorOk; }
    Error cld() { b(0xFC); return kErrorOk; }
    Error sfence() { b(0x0F); b(0xAE); b(0xF8); return kErrorOk; }
    Error lfence() { b(0x0F); b(0xAE); b(0xE8); return kErrorOk; }
    Error mfence() { b(0x0F); b(0xAE); b(0xF0); return kErrorOk; }
#define VERIF_CC(n, k) \
    Error j##n(Op a) { return branch(k, a); } \
    Error set##n(Op a) { rm(0, false, {0x0F, 0x90 | k}, 0, a, 0, true); return kErrorOk; } \
    Error cmov##n(Op a, Op x) { rm(p16(a.size), a.size == 8, {0x0F, 0x40 | k}, a.id, x); return kErrorOk; }
    VERIF_CC(o, 0) VERIF_CC(no, 1) VERIF_CC(b, 2) VERIF_CC(c, 2) VERIF_CC(nae, 2) VERIF_CC(ae, 3) VERIF_CC(nb, 3) VERIF_CC(nc, 3)
    VERIF_CC(e, 4) VERIF_CC(z, 4) VERIF_CC(ne, 5) VERIF_CC(nz, 5) VERIF_CC(be, 6) VERIF_CC(na, 6) VERIF_CC(a, 7) VERIF_CC(nbe, 7)
    VERIF_CC(s, 8) VERIF_CC(ns, 9) VERIF_CC(p, 10) VERIF_CC(np, 11) VERIF_CC(l, 12) VERIF_CC(nge, 12) VERIF_CC(ge, 13) VERIF_CC(nl, 13)
    VERIF_CC(le, 14) VERIF_CC(ng, 14) VERIF_CC(g, 15) VERIF_CC(nle, 15)
#undef VERIF_CC
    Error movdqa(Op a, Op x) { return vec(0x66, {0x0F, 0x6F}, {0x0F, 0x7F}, a, x); }
    Error movdqu(Op a, Op x) { return vec(0xF3, {0x0F, 0x6F}, {0x0F, 0x7F}, a, x); }
    Error movaps(Op a, Op x) { return vec(0, {0x0F, 0x28}, {0x0F, 0x29}, a, x); }
    Error movups(Op a, Op x) { return vec(0, {0x0F, 0x10}, {0x0F, 0x11}, a, x); }
    Error lddqu(Op a, Op x) { return vec(0xF2, {0x0F, 0xF0}, {}, a, x); }
    Error pxor(Op a, Op x) { return vec(0x66, {0x0F, 0xEF}, {}, a, x); }
    Error por(Op a, Op x) { return vec(0x66, {0x0F, 0xEB}, {}, a, x); }
    Error pand(Op a, Op x) { return vec(0x66, {0x0F, 0xDB}, {}, a, x); }
    Error pandn(Op a, Op x) { return vec(0x66, {0x0F, 0xDF}, {}, a, x); }
    Error pcmpeqb(Op a, Op x) { return vec(0x66, {0x0F, 0x74}, {}, a, x); }
    Error pcmpgtb(Op a, Op x) { return vec(0x66, {0x0F, 0x64}, {}, a, x); }
    Error paddb(Op a, Op x) { return vec(0x66, {0x0F, 0xFC}, {}, a, x); }
    Error psubb(Op a, Op x) { return vec(0x66, {0x0F, 0xF8}, {}, a, x); }
    Error psubusb(Op a, Op x) { return vec(0x66, {0x0F, 0xD8}, {}, a, x); }
    Error pminub(Op a, Op x) { return vec(0x66, {0x0F, 0xDA}, {}, a, x); }
    Error pmaxub(Op a, Op x) { return vec(0x66, {0x0F, 0xDE}, {}, a, x); }
    Error pshufb(Op a, Op x) { return vec(0x66, {0x0F, 0x38, 0x00}, {}, a, x); }
    Error ptest(Op a, Op x) { return vec(0x66, {0x0F, 0x38, 0x17}, {}, a, x); }
    Error xorps(Op a, Op x) { return vec(0, {0x0F, 0x57}, {}, a, x); }
    Error pmovmskb(Op a, Op x) { rm(0x66, false, {0x0F, 0xD7}, a.id, x); return kErrorOk; }
    Error movq(Op a, Op x)
    {
        if (a.kind == Op::Xmm && x.kind == Op::Gp) rm(0x66, true, {0x0F, 0x6E}, a.id, x);
        else if (a.kind == Op::Gp && x.kind == Op::Xmm) rm(0x66, true, {0x0F, 0x7E}, x.id, a);
        else if (a.kind == Op::Xmm) rm(0xF3, false, {0x0F, 0x7E}, a.id, x);
        else if (x.kind == Op::Xmm) rm(0x66, false, {0x0F, 0xD6}, x.id, a);
        else return bad("operands");
        return kErrorOk;
    }
    Error movd(Op a, Op x)
    {
        if (a.kind == Op::Xmm) rm(0x66, false, {0x0F, 0x6E}, a.id, x);
        else if (x.kind == Op::Xmm) rm(0x66, false, {0x0F, 0x7E}, x.id, a);
        else return bad("operands");
        return kErrorOk;
    }
    Error pcmpistri(Op a, Op x, Op i) { return str(0x63, a, x, i); }
    Error pcmpistrm(Op a, Op x, Op i) { return str(0x62, a, x, i); }
    Error pcmpestri(Op a, Op x, Op i) { return str(0x61, a, x, i); }
    Error pcmpestrm(Op a, Op x, Op i) { return str(0x60, a, x, i); }
};
class JitRuntime
{
    std::map<void *, size_t> m_blocks;
public:
    JitRuntime() {}
    JitRuntime(const JitRuntime&) = delete;
    JitRuntime& operator=(const JitRuntime&) = delete;
    ~JitRuntime() { for (auto& p : m_blocks) munmap(p.first, p.second); }
    CodeInfo getCodeInfo() const { return CodeInfo(); }
    template <typename F> Error add(F *dst, CodeHolder *h)
    {
        *dst = nullptr;
        if (h->m_error) return h->m_error;
        std::vector<uint8_t> code = h->m_code;
        for (auto& f : h->m_fixes)
        {
            if (f.label > h->m_labels.size() || h->m_labels[f.label - 1] < 0) return kErrorInvalidLabel;
            int32_t v = (int32_t)(h->m_labels[f.label - 1] + f.add - (int64_t)f.at);
            memcpy(&code[f.at], &v, 4);
        }
        while (code.size() % 8) code.push_back(0xCC);
        for (auto& a : h->m_abs)
        {
            int32_t v = (int32_t)((int64_t)code.size() - (int64_t)a.first - 4);
            memcpy(&code[a.first], &v, 4);
            for (int i = 0; i < 8; i++) code.push_back((uint8_t)(a.second >> (8 * i)));
        }
        if (code.empty()) return kErrorInvalidState;
        void *p = mmap(nullptr, code.size(), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) return 1;
        memcpy(p, code.data(), code.size());
        mprotect(p, code.size(), PROT_READ | PROT_EXEC);
        m_blocks[p] = code.size();
        static_assert(sizeof(F) == sizeof(void *), "function pointer");
        memcpy(dst, &p, sizeof p);
        return kErrorOk;
    }
    template <typename F> Error release(F f)
    {
        void *p;
        memcpy(&p, &f, sizeof p);
        auto i = m_blocks.find(p);
        if (i == m_blocks.end()) return kErrorInvalidState;
        munmap(i->first, i->second);
        m_blocks.erase(i);
        return kErrorOk;
    }
};
}
