// A stand-in for std::ostream. Symbolically, libstdc++'s compiled stream
// functions are replaced by the ones below, which record what is written: the
// characters, and a token for a number. Natively it is a std::ostringstream.
#pragma once
#include "common.hpp"

#ifdef YS_SYMBOLIC

static char g_written[512];
static size_t g_count;

// The layout of std::ostream: the table with the offset of its virtual base
// std::ios, then that with its width and flags.
struct FakeStream
{
    const long* table;
    struct
    {
        const long* table;
        long precision = 6;
        long width = 0;
        unsigned flags = 0x1002; // skipws, dec
        unsigned rest[80] = {};
    } ios;
    long tables[16] = {8};

    FakeStream()
    {
        table = tables + 3;
        ios.table = tables + 3;
        g_count = 0;
    }
    void* stream() { return this; }
    std::string_view text() const { return {g_written, g_count}; }
};

INL void put_bytes(const char* p, size_t n)
{
    for (size_t i = 0; i < n; ++i)
        g_written[g_count++] = p[i];
}

// 0xF8 is in no UTF-8 text.
template <typename T>
INL void put_number(T& out, uint64_t v, unsigned flags)
{
    out('\xF8');
    out(char(flags));
    for (int i = 0; i < 8; ++i)
        out(char(v >> (8 * i)));
}

INL FakeStream* write(FakeStream* s, const char* p, size_t n)
{
    if (s->ios.width)
        put_bytes("\xF9", 1);
    s->ios.width = 0;
    put_bytes(p, n);
    return s;
}

INL FakeStream* write_number(FakeStream* s, uint64_t v)
{
    write(s, "", 0);
    auto out = [](char c) { g_written[g_count++] = c; };
    put_number(out, v, s->ios.flags & 0x4A); // the base
    return s;
}

extern "C" {
FakeStream* fake_insert(FakeStream* s, const char* p, long n)
    asm("_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l");
FakeStream* fake_insert(FakeStream* s, const char* p, long n) { return write(s, p, size_t(n)); }

FakeStream* fake_text(FakeStream* s, const char* p) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
FakeStream* fake_text(FakeStream* s, const char* p) { return write(s, p, strlen(p)); }

FakeStream* fake_char(FakeStream* s, char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
FakeStream* fake_char(FakeStream* s, char c) { return write(s, &c, 1); }

FakeStream* fake_string(FakeStream* s, const std::string& t)
    asm("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
FakeStream* fake_string(FakeStream* s, const std::string& t) { return write(s, t.data(), t.size()); }

FakeStream* fake_put(FakeStream* s, char c) asm("_ZNSo3putEc");
FakeStream* fake_put(FakeStream* s, char c) { put_bytes(&c, 1); return s; }

FakeStream* fake_write(FakeStream* s, const char* p, long n) asm("_ZNSo5writeEPKcl");
FakeStream* fake_write(FakeStream* s, const char* p, long n) { put_bytes(p, size_t(n)); return s; }

FakeStream* fake_ulong(FakeStream* s, unsigned long v) asm("_ZNSolsEm");
FakeStream* fake_ulong(FakeStream* s, unsigned long v) { return write_number(s, v); }
FakeStream* fake_insert_ulong(FakeStream* s, unsigned long v) asm("_ZNSo9_M_insertImEERSoT_");
FakeStream* fake_insert_ulong(FakeStream* s, unsigned long v) { return write_number(s, v); }
FakeStream* fake_uint(FakeStream* s, unsigned v) asm("_ZNSolsEj");
FakeStream* fake_uint(FakeStream* s, unsigned v) { return write_number(s, v); }
FakeStream* fake_long(FakeStream* s, long v) asm("_ZNSolsEl");
FakeStream* fake_long(FakeStream* s, long v)
{
    // A negative number would have a sign.
    return v < 0 ? write(s, "-", 1) : write_number(s, (unsigned long)v);
}
FakeStream* fake_int(FakeStream* s, int v) asm("_ZNSolsEi");
FakeStream* fake_int(FakeStream* s, int v) { return fake_long(s, v); }
}

// What a decimal number looks like.
template <size_t N>
INL void number(Out<N>& out, uint64_t v)
{
    auto f = [&](char c) { out.byte(c); };
    put_number(f, v, 2);
}

#else

#include <sstream>

struct FakeStream
{
    std::ostringstream os;
    std::string s;
    void* stream() { return static_cast<std::ostream*>(&os); }
    std::string_view text() { s = os.str(); return s; }
};

template <size_t N>
INL void number(Out<N>& out, uint64_t v) { out.text(std::to_string(v)); }

#endif
