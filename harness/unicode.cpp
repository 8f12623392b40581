// Conversions between Unicode encodings.
//   W A        the units A (hexadecimal, joined by dots; - empty) of width W = 8, 16 or 32 converted to every other form
//   v W C A    the same for the scalar values C whose encoding is A, and back again
#include <algorithm>
#include <cstdint>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "lines.h"
#ifdef WITH_WHOLE
#include <pluto.hpp>
#else
#include <pluto/unicode.hpp>
#endif

namespace
{
    std::string g_out;
    typedef std::vector<long> Nums;
    typedef std::vector<Nums> Texts;

    std::string show(long x) { return std::to_string(x); }
    template<class T> std::string show(const std::vector<T>& v)
    {
        std::string s = "[";
        for (const auto& x : v) { if (s.size() > 1) s += ','; s += show(x); }
        return s + "]";
    }
    template<class T> std::string field(const char* n, const T& v) { return std::string(",\"") + n + "\":" + show(v); }
    template<class T> std::vector<T> uniq(std::vector<T> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
    void begin(const char* e) { if (g_out.back() != '[') g_out += ','; g_out += std::string("{\"e\":\"") + e + "\""; }

    template<size_t N> struct Unit;
    template<> struct Unit<1> { static long of(long x) { return x & 0xff; } };
    template<> struct Unit<2> { static long of(long x) { return x & 0xffff; } };
    template<> struct Unit<4> { static long of(long x) { return (int32_t)(uint32_t)x; } };      // beyond 2^31: negative, no scalar value either way
    template<class S> Nums units(const S& s) { Nums r; for (auto c : s) r.push_back(Unit<sizeof(c)>::of((long)c)); return r; }
    template<class S> S make(const Nums& a) { S s; for (long x : a) s.push_back((typename S::value_type)x); return s; }
    // Exactly the units, on the heap, without terminator.
    template<class E> struct Exact
    {
        std::unique_ptr<E[]> p; size_t n;
        explicit Exact(const Nums& a) : p(new E[a.size()]), n(a.size()) { for (size_t i = 0; i < n; ++i) p[i] = (E)a[i]; }
        const E* get() const { return p.get(); }
    };

    // What is in the destination beforehand: ends in the first half of an encoding.
    const Nums Q8{ 0x41, 0xe2, 0x82 }, Q16{ 0x41, 0xd83d }, Q32{ 0x41, 0xfffd };
    struct Out { Texts to8, to16, to32, p8, p16, p32; };

    template<int F, int T> struct Fn;
    template<> struct Fn<8, 16> { template<class... A> static void go(A&&... a) { pluto::utf8_to_utf16(std::forward<A>(a)...); } };
    template<> struct Fn<8, 32> { template<class... A> static void go(A&&... a) { pluto::utf8_to_utf32(std::forward<A>(a)...); } };
    template<> struct Fn<16, 8> { template<class... A> static void go(A&&... a) { pluto::utf16_to_utf8(std::forward<A>(a)...); } };
    template<> struct Fn<16, 32> { template<class... A> static void go(A&&... a) { pluto::utf16_to_utf32(std::forward<A>(a)...); } };
    template<> struct Fn<32, 8> { template<class... A> static void go(A&&... a) { pluto::utf32_to_utf8(std::forward<A>(a)...); } };
    template<> struct Fn<32, 16> { template<class... A> static void go(A&&... a) { pluto::utf32_to_utf16(std::forward<A>(a)...); } };

    // One element type of the source, one string type of the destination: from a string and from a pointer, into an empty and a filled one.
    template<int F, int T, class E, class S> void pair(const Nums& a, const Nums& q, Texts& to, Texts& p)
    {
        const auto s = make<std::basic_string<E>>(a); const Exact<E> x(a);
        { S d; Fn<F, T>::go(s, d); to.push_back(units(d)); }
        { S d; Fn<F, T>::go(x.get(), x.n, d); to.push_back(units(d)); }
        { S d = make<S>(q); Fn<F, T>::go(s, d); p.push_back(units(d)); }
        { S d = make<S>(q); d.shrink_to_fit(); Fn<F, T>::go(x.get(), x.n, d); p.push_back(units(d)); }
        if (units(s) != a) to.push_back(Nums{ -1 });
    }
    template<class E> void from8(const Nums& a, Out& o)
    {
        pair<8, 16, E, std::u16string>(a, Q16, o.to16, o.p16); pair<8, 32, E, std::u32string>(a, Q32, o.to32, o.p32); pair<8, 32, E, std::wstring>(a, Q32, o.to32, o.p32);
    }
    template<class E> void from16(const Nums& a, Out& o)
    {
        pair<16, 8, E, std::string>(a, Q8, o.to8, o.p8); pair<16, 32, E, std::u32string>(a, Q32, o.to32, o.p32); pair<16, 32, E, std::wstring>(a, Q32, o.to32, o.p32);
#if PLUTO_UTILS_HAS_CXX_20
        pair<16, 8, E, std::u8string>(a, Q8, o.to8, o.p8);
#endif
    }
    template<class E> void from32(const Nums& a, Out& o)
    {
        pair<32, 8, E, std::string>(a, Q8, o.to8, o.p8); pair<32, 16, E, std::u16string>(a, Q16, o.to16, o.p16);
#if PLUTO_UTILS_HAS_CXX_20
        pair<32, 8, E, std::u8string>(a, Q8, o.to8, o.p8);
#endif
    }
    // Pointers to integer types of the width, which have no string of their own.
    template<int F, int T, class E, class S> void raw(const Nums& a, Texts& to) { const Exact<E> x(a); S d; Fn<F, T>::go(x.get(), x.n, d); to.push_back(units(d)); }

#define NAMED(E, FN, OUT) { const auto s = make<std::basic_string<E>>(a); const Exact<E> x(a); OUT.push_back(units(pluto::FN(s))); OUT.push_back(units(pluto::FN(x.get(), x.n))); }
    Out convert(int w, const Nums& a)
    {
        Out o;
        if (w == 8)
        {
            from8<char>(a, o);
            raw<8, 16, unsigned char, std::u16string>(a, o.to16); raw<8, 32, signed char, std::u32string>(a, o.to32);
            NAMED(char, wstr, o.to32) NAMED(char, u16str, o.to16) NAMED(char, u32str, o.to32)
#if PLUTO_UTILS_HAS_CXX_20
            from8<char8_t>(a, o);
            NAMED(char, u8str, o.to8) NAMED(char8_t, str, o.to8) NAMED(char8_t, wstr, o.to32) NAMED(char8_t, u16str, o.to16) NAMED(char8_t, u32str, o.to32)
#endif
        }
        else if (w == 16)
        {
            from16<char16_t>(a, o);
            raw<16, 8, unsigned short, std::string>(a, o.to8); raw<16, 32, short, std::u32string>(a, o.to32);
            NAMED(char16_t, str, o.to8) NAMED(char16_t, wstr, o.to32) NAMED(char16_t, u32str, o.to32)
#if PLUTO_UTILS_HAS_CXX_20
            NAMED(char16_t, u8str, o.to8)
#endif
        }
        else
        {
            from32<char32_t>(a, o); from32<wchar_t>(a, o);
            raw<32, 8, uint32_t, std::string>(a, o.to8); raw<32, 16, int32_t, std::u16string>(a, o.to16);
            NAMED(wchar_t, str, o.to8) NAMED(wchar_t, u16str, o.to16) NAMED(wchar_t, u32str, o.to32)
            NAMED(char32_t, str, o.to8) NAMED(char32_t, u16str, o.to16) NAMED(char32_t, wstr, o.to32)
#if PLUTO_UTILS_HAS_CXX_20
            NAMED(wchar_t, u8str, o.to8) NAMED(char32_t, u8str, o.to8)
#endif
        }
        return o;
    }
    void fields(const Out& o)
    {
        g_out += field("to8", uniq(o.to8)) + field("to16", uniq(o.to16)) + field("to32", uniq(o.to32)) + field("p8", uniq(o.p8)) + field("p16", uniq(o.p16)) + field("p32", uniq(o.p32)) +
            field("q8", Q8) + field("q16", Q16) + field("q32", Q32);
    }

    Nums parse(const std::string& s)
    {
        Nums r; if (s == "-") return r;
        std::istringstream in(s); std::string w;
        while (std::getline(in, w, '.')) r.push_back((long)(int32_t)(uint32_t)std::stoul(w, nullptr, 16));
        return r;
    }
    std::string run(const std::string& name, const std::string& text)
    {
        std::istringstream in(text); std::string op, a, c; int w;
        g_out = "{\"sc\":\"" + name + "\",\"ev\":[";
        while (in >> op)
        {
            if (op == "v")
            {
                in >> w >> c >> a;
                const Nums u = parse(a); const Out o = convert(w, u);
                Texts back;
                for (auto& t : uniq(o.to8)) { Out b = convert(8, t); const Texts& x = w == 16 ? b.to16 : w == 32 ? b.to32 : b.to8; back.insert(back.end(), x.begin(), x.end()); }
                for (auto& t : uniq(o.to16)) { Out b = convert(16, t); const Texts& x = w == 8 ? b.to8 : w == 32 ? b.to32 : b.to16; back.insert(back.end(), x.begin(), x.end()); }
                for (auto& t : uniq(o.to32)) { Out b = convert(32, t); const Texts& x = w == 8 ? b.to8 : w == 16 ? b.to16 : b.to32; back.insert(back.end(), x.begin(), x.end()); }
                begin("valid"); g_out += ",\"w\":" + show(w) + field("c", parse(c)) + field("u", u) + field("back", uniq(back)); fields(o); g_out += "}";
            }
            else
            {
                in >> a; w = std::stoi(op);
                const Nums u = parse(a);
                begin("conv"); g_out += ",\"w\":" + show(w) + field("u", u); fields(convert(w, u)); g_out += "}";
            }
        }
        return g_out + "]}";
    }
}

int main(int argc, char** argv) { return lines::drive(argc, argv, run); }
