// Numbers and other values as text, and back.
//   g L                   use locale L (0 C, 1 en_US.UTF-8) as the global one for the rest of the program
//   n PATTERN             the low bits of the hexadecimal pattern as a value of every integer type: binary, octal, hexadecimal text; text and back
//   f K                   K / 8 as a floating-point value: text and back
//   t A                   a text: itself as text; as a word, text and back
//   z A                   text read as a value of every type
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <locale>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "lines.h"
#ifdef WITH_WHOLE
#include <pluto.hpp>
#else
#include <pluto/string.hpp>
#endif

namespace
{
    std::string g_out;
    typedef std::vector<long> Nums;
    typedef std::vector<Nums> Texts;

    long code(char c) { return (unsigned char)c; }
    template<class E> long code(E c) { return (long)c; }
    template<class S> Nums codes(const S& s) { Nums r; for (auto c : s) r.push_back(code(c)); return r; }
    std::string show(long x) { return std::to_string(x); }
    template<class T> std::string show(const std::vector<T>& v)
    {
        std::string s = "[";
        for (const auto& x : v) { if (s.size() > 1) s += ','; s += show(x); }
        return s + "]";
    }
    template<class T> std::string field(const char* n, const T& v) { return std::string(",\"") + n + "\":" + show(v); }
    template<class T> std::vector<T> uniq(std::vector<T> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
    void begin(const char* e) { if (g_out.back() != '[') g_out += ','; g_out += std::string("{\"e\":\"") + e + "\""; }

    enum Tiny : signed char { tiny = 1 };
    enum Big : unsigned long long { big = 1 };
    struct Pair
    {
        int a, b;
        friend std::ostream& operator<<(std::ostream& o, const Pair& p) { return o << p.a << ' ' << p.b; }
        friend std::istream& operator>>(std::istream& i, Pair& p) { int a, b; if (i >> a >> b) { p.a = a; p.b = b; } return i; }
        friend std::wostream& operator<<(std::wostream& o, const Pair& p) { return o << p.a << L' ' << p.b; }
        friend std::wistream& operator>>(std::wistream& i, Pair& p) { int a, b; if (i >> a >> b) { p.a = a; p.b = b; } return i; }
    };

    // The bits of a value, highest first (little-endian machine).
    template<class T> Nums bits(const T& t)
    {
        unsigned char raw[sizeof(T)]; std::memcpy(raw, &t, sizeof t);
        Nums r; for (size_t i = sizeof t; i-- > 0;) for (int b = 7; b >= 0; --b) r.push_back(raw[i] >> b & 1);
        return r;
    }
    Nums bits(long double t) { double d = (double)t; Nums r = bits(d); r.push_back(d == t ? 0 : 1); return r; }
    Nums bits(const Pair& p) { Nums r = bits(p.a), s = bits(p.b); r.insert(r.end(), s.begin(), s.end()); return r; }
    template<class T> T value(const unsigned char* low)
    {
        T t; std::memcpy(&t, low, sizeof t); return t;
    }
    template<> bool value<bool>(const unsigned char* low) { return low[0] & 1; }

    template<class T> void number(const char* name, const unsigned char* low)
    {
        const T v = value<T>(low);
        begin("num"); g_out += std::string(",\"t\":\"") + name + "\"" + field("bits", bits(v)) + field("bin", Texts{ codes(pluto::bin(v)) }) + field("oct", Texts{ codes(pluto::oct(v)) }) + field("hex", Texts{ codes(pluto::hex(v)) }) + "}";
    }
    template<class T> void back_value(const char* name, const T& v)
    {
        const std::string s = pluto::str(v); const std::wstring w = pluto::wstr(v);
        const std::unique_ptr<char[]> ps(new char[s.size()]); std::copy(s.begin(), s.end(), ps.get());
        const std::unique_ptr<wchar_t[]> pw(new wchar_t[w.size()]); std::copy(w.begin(), w.end(), pw.get());
        Texts b{ bits(pluto::str_to<T>(s)), bits(pluto::wstr_to<T>(w)), bits(pluto::str_to<T>(ps.get(), s.size())), bits(pluto::wstr_to<T>(pw.get(), w.size())) };
        begin("back"); g_out += std::string(",\"t\":\"") + name + "\"" + field("v", bits(v)) + field("back", uniq(b)) + field("text", codes(s)) + "}";
    }
    template<class T> void back(const char* name, const unsigned char* low) { back_value(name, value<T>(low)); }

    void numbers(const std::string& hex)
    {
        std::string h = std::string(32 - std::min<size_t>(32, hex.size()), '0') + hex;
        unsigned char low[16];
        for (int i = 0; i < 16; ++i) low[i] = (unsigned char)std::stoi(h.substr(30 - 2 * i, 2), nullptr, 16);
        number<bool>("bool", low); number<char>("char", low); number<signed char>("schar", low); number<unsigned char>("uchar", low);
        number<short>("short", low); number<unsigned short>("ushort", low); number<int>("int", low); number<unsigned>("uint", low);
        number<long>("long", low); number<unsigned long>("ulong", low); number<long long>("llong", low); number<unsigned long long>("ullong", low);
        number<wchar_t>("wchar", low); number<char16_t>("char16", low); number<char32_t>("char32", low);
        number<Tiny>("enum8", low); number<Big>("enum64", low);
        __extension__ typedef __int128 I; __extension__ typedef unsigned __int128 U;
        number<I>("int128", low); number<U>("uint128", low);
#if PLUTO_UTILS_HAS_CXX_20
        number<char8_t>("char8", low);
#endif
        back<bool>("bool", low); back<short>("short", low); back<unsigned short>("ushort", low); back<int>("int", low); back<unsigned>("uint", low);
        back<long>("long", low); back<unsigned long>("ulong", low); back<long long>("llong", low); back<unsigned long long>("ullong", low);
        back_value("pair", Pair{ value<int>(low), value<short>(low + 4) });
    }
    void floats(long k)
    {
        back_value("double", (double)k / 8); back_value("float", (float)k / 8); back_value("ldouble", (long double)k / 8);
    }

    template<class E> struct Exact
    {
        std::unique_ptr<E[]> p; size_t n;
        template<class S> explicit Exact(const S& s) : p(new E[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
        const E* get() const { return p.get(); }
    };
    template<class S> S make(const Nums& a) { S s; for (long x : a) s.push_back((typename S::value_type)x); return s; }
    void texts(const Nums& a)
    {
        const auto s = make<std::string>(a); const auto w = make<std::wstring>(a); const auto u = make<std::u16string>(a); const auto U = make<std::u32string>(a);
        Texts r{ codes(pluto::str(s)), codes(pluto::str(Exact<char>(s).get(), s.size())), codes(pluto::wstr(w)), codes(pluto::wstr(Exact<wchar_t>(w).get(), w.size())),
                 codes(pluto::u16str(u)), codes(pluto::u16str(Exact<char16_t>(u).get(), u.size())), codes(pluto::u32str(U)), codes(pluto::u32str(Exact<char32_t>(U).get(), U.size())) };
#if PLUTO_UTILS_HAS_CXX_20
        const auto e = make<std::u8string>(a);
        r.push_back(codes(pluto::u8str(e))); r.push_back(codes(pluto::u8str(Exact<char8_t>(e).get(), e.size())));
#endif
        if (std::find(a.begin(), a.end(), 0) == a.end()) { r.push_back(codes(pluto::str(s.c_str()))); r.push_back(codes(pluto::wstr(w.c_str()))); }
        begin("back"); g_out += ",\"t\":\"text\"" + field("v", a) + field("back", uniq(r)) + "}";
        bool word = !a.empty(); for (long c : a) word = word && c > 32 && c < 127;
        if (!word) return;
        Texts b{ codes(pluto::str_to<std::string>(pluto::str(s))), codes(pluto::wstr_to<std::wstring>(pluto::wstr(w))), codes(pluto::str_to<std::string>(s.data(), s.size())), codes(pluto::wstr_to<std::wstring>(w.data(), w.size())) };
        if (a.size() == 1)
        {
            b.push_back(Nums{ code(pluto::str_to<char>(pluto::str(s[0]))) }); b.push_back(Nums{ (long)pluto::wstr_to<wchar_t>(pluto::wstr(w[0])) });
            b.push_back(Nums{ (long)pluto::str_to<signed char>(pluto::str((signed char)s[0])) }); b.push_back(Nums{ (long)pluto::str_to<unsigned char>(pluto::str((unsigned char)s[0])) });
        }
        begin("back"); g_out += ",\"t\":\"word\"" + field("v", a) + field("back", uniq(b)) + "}";
    }

    template<class E> Nums blanks(const Nums& a)
    {
        const auto& f = std::use_facet<std::ctype<E>>(std::locale());
        Nums r; for (long x : a) if (f.is(std::ctype_base::space, (E)x)) r.push_back(x);
        return uniq(r);
    }
    template<class T> Texts read(const std::string& s) { return Texts{ bits(pluto::str_to<T>(s)), bits(pluto::str_to<T>(Exact<char>(s).get(), s.size())) }; }
    template<class T> Texts read(const std::wstring& s) { return Texts{ bits(pluto::wstr_to<T>(s)), bits(pluto::wstr_to<T>(Exact<wchar_t>(s).get(), s.size())) }; }
    template<class T, class S> void add(Texts& t, const S& s) { Texts r = read<T>(s); t.insert(t.end(), r.begin(), r.end()); }
    template<class S> void reads(const Nums& a)
    {
        typedef typename S::value_type E;
        const S s = make<S>(a);
        const std::string env = field("a", a) + field("sp", blanks<E>(a));
        {
            Texts t;
            add<bool>(t, s); add<short>(t, s); add<unsigned short>(t, s); add<int>(t, s); add<unsigned>(t, s); add<long>(t, s); add<unsigned long>(t, s); add<long long>(t, s); add<unsigned long long>(t, s); add<Pair>(t, s);
            begin("parse"); g_out += ",\"t\":\"int\"" + env + field("v", uniq(t)) + "}";
        }
        {
            Texts t; add<float>(t, s); add<double>(t, s); add<long double>(t, s);
            begin("parse"); g_out += ",\"t\":\"float\"" + env + field("v", uniq(t)) + "}";
        }
        {
            Texts t; add<E>(t, s);
            begin("parse"); g_out += ",\"t\":\"word\"" + env + field("v", uniq(t)) + "}";
        }
    }

    Nums parse(const std::string& s)
    {
        Nums r; if (s == "-") return r;
        std::istringstream in(s); std::string w;
        while (std::getline(in, w, '.')) r.push_back(std::stol(w, nullptr, 16));
        return r;
    }
    std::string run(const std::string& name, const std::string& text)
    {
        std::istringstream in(text); in.imbue(std::locale::classic());
        std::string op, a; long k;
        g_out = "{\"sc\":\"" + name + "\",\"ev\":[";
        std::locale::global(std::locale::classic());
        while (in >> op)
        {
            if (op == "g") { in >> k; std::locale::global(std::locale(k ? "en_US.UTF-8" : "C")); }
            else if (op == "n") { in >> a; numbers(a); }
            else if (op == "f") { in >> k; floats(k); }
            else if (op == "t") { in >> a; texts(parse(a)); }
            else if (op == "z") { in >> a; reads<std::string>(parse(a)); reads<std::wstring>(parse(a)); }
            else _exit(6);
        }
        return g_out + "]}";
    }
}

int main(int argc, char** argv) { return lines::drive(argc, argv, run); }
