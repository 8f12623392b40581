// Text functions: splitting, joining, replacing, stripping, case and case-insensitive matching.
// A program is a list of cases; strings are written as hexadecimal codes joined by dots, "-" being empty.
//   s A B            split A by separator B, and by any of B; joining the pieces again
//   j S A B ... ;    join the strings A, B, ... with separator S, plain and with mapping functions
//   r A F R          replace F by R in A, and any of F by R
//   w L A            split A by the whitespace of locale L
//   p L A            strip A
//   l L A            casing of A
//   i L A B          case-insensitive matching of A against B
//   c L X Y Y ... ;  comparators applied to X and every Y
// Locales: 0 the default (no argument), 1 C, 2 en_US.UTF-8, 3 an odd one of our own, 4 the system's.
#include <algorithm>
#include <array>
#include <clocale>
#include <deque>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <locale>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "lines.h"
#ifdef WITH_WHOLE
#include <pluto.hpp>
#else
#include <pluto/string.hpp>
#endif

namespace
{
    std::string g_out;
    typedef std::vector<long> Nums;
    typedef std::vector<Nums> Texts;        // several texts
    typedef std::vector<Texts> Lists;       // several lists of texts

    // ------------------------------------------------------------ odd locale
    // '_' and '0' are the only spaces; 'x' is an upper-case letter whose lower-case form is 'q', 'q' becomes 'x'; '1' becomes '2' when upper-cased
    struct OddC : std::ctype<char>
    {
        static const mask* table()
        {
            static mask t[table_size] = {};
            static bool done = false;
            if (!done) { for (auto& m : t) m = mask(); t['_'] = space; t['0'] = space; t['x'] = upper; t['q'] = lower; t[1] = lower; done = true; }
            return t;
        }
        OddC() : std::ctype<char>(table()) {}
        char up(char c) const { return c == 'q' ? 'x' : c == '1' ? '2' : c; }
        char down(char c) const { return c == 'x' ? 'q' : c; }
        char do_toupper(char c) const override { return up(c); }
        char do_tolower(char c) const override { return down(c); }
        const char* do_toupper(char* b, const char* e) const override { for (; b != e; ++b) *b = up(*b); return e; }
        const char* do_tolower(char* b, const char* e) const override { for (; b != e; ++b) *b = down(*b); return e; }
    };
    struct OddW : std::ctype<wchar_t>
    {
        wchar_t up(wchar_t c) const { return c == L'q' ? L'x' : c == L'1' ? L'2' : c == 0x10400 ? 0x10401 : c; }
        wchar_t down(wchar_t c) const { return c == L'x' ? L'q' : c == 0x10401 ? 0x10400 : c; }
        wchar_t do_toupper(wchar_t c) const override { return up(c); }
        wchar_t do_tolower(wchar_t c) const override { return down(c); }
        const wchar_t* do_toupper(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = up(*b); return e; }
        const wchar_t* do_tolower(wchar_t* b, const wchar_t* e) const override { for (; b != e; ++b) *b = down(*b); return e; }
        mask of(wchar_t c) const
        {
            if (c == L'_' || c == L'0' || c == 0x20ac) return space;
            if (c == L'x' || c == 0x10401) return upper;
            if (c == L'q' || c == 1 || c == 0x10400) return lower;
            return mask();
        }
        bool do_is(mask m, wchar_t c) const override { return (of(c) & m) != 0; }
        const wchar_t* do_is(const wchar_t* b, const wchar_t* e, mask* v) const override { for (; b != e; ++b) *v++ = of(*b); return e; }
        const wchar_t* do_scan_is(mask m, const wchar_t* b, const wchar_t* e) const override { while (b != e && !do_is(m, *b)) ++b; return b; }
        const wchar_t* do_scan_not(mask m, const wchar_t* b, const wchar_t* e) const override { while (b != e && do_is(m, *b)) ++b; return b; }
    };
    std::locale make_locale(int l)
    {
        switch (l)
        {
            case 1: return std::locale("C");
            case 2: return std::locale("en_US.UTF-8");
            case 3: return std::locale(std::locale(std::locale::classic(), new OddC), new OddW);
            case 4: return std::locale("");
            default: return std::locale(PLUTO_LOCALE_DEFAULT_LOCALE);
        }
    }

    // ------------------------------------------------------------ texts
    template<class E> bool fits(const Nums& a) { for (long x : a) if (sizeof(E) < 4 && x >> (8 * sizeof(E))) return false; return true; }
    template<class S> S make(const Nums& a) { S s; for (long x : a) s.push_back((typename S::value_type)x); return s; }
    long code(char c) { return (unsigned char)c; }
    template<class E> long code(E c) { return (long)c; }
    template<class S> Nums codes(const S& s) { Nums r; for (auto c : s) r.push_back(code(c)); return r; }
    template<class C> Texts each(const C& l) { Texts r; for (const auto& s : l) r.push_back(codes(s)); return r; }

    std::string show(long x) { return std::to_string(x); }
    template<class T> std::string show(const std::vector<T>& v)
    {
        std::string s = "[";
        for (const auto& x : v) { if (s.size() > 1) s += ','; s += show(x); }
        return s + "]";
    }
    template<class T> std::string field(const char* n, const T& v) { return std::string(",\"") + n + "\":" + show(v); }
    template<class T> std::vector<T> uniq(std::vector<T> v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
    void begin(const char* e) { if (g_out.back() != '[') g_out += ','; g_out += std::string("{\"e\":\"") + e + "\""; }

    // A text of exactly the right size on the heap, without terminator, so that reading past it is seen.
    template<class E> struct Exact
    {
        std::unique_ptr<E[]> p; size_t n;
        template<class S> explicit Exact(const S& s) : p(new E[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
        E* get() const { return p.get(); }
        Nums now() const { Nums r; for (size_t i = 0; i < n; ++i) r.push_back(code(p[i])); return r; }
    };

    struct Ops { const Nums& a; const Nums& b; const Nums& c; const std::vector<Nums>& l; };

    // ------------------------------------------------------------ functions without a locale, for every string type
    template<class S> void split_all(const Nums& ca, const Nums& cb, Lists& r, Texts& back, Lists& any)
    {
        typedef typename S::value_type E;
        if (!fits<E>(ca) || !fits<E>(cb)) return;
        const S a = make<S>(ca), b = make<S>(cb);
        const std::vector<S> v = pluto::split<E>(a, b);
        r.push_back(each(v)); back.push_back(codes(pluto::join<E>(v, b))); back.push_back(codes(pluto::join<E>(v.begin(), v.end(), b)));
        any.push_back(each(pluto::split_any_of<E>(a, b)));
        r.push_back(each(pluto::split<>(a, b))); any.push_back(each(pluto::split_any_of<>(a, b)));
        if (codes(a) != ca || codes(b) != cb) r.push_back(Texts{ Nums{ -1 } });      // the arguments are left alone
    }
    template<class S> void split_named(const Nums& ca, const Nums& cb, Lists& r, Texts& back, Lists& any)
    {
        if (!fits<typename S::value_type>(ca) || !fits<typename S::value_type>(cb)) return;
        const S a = make<S>(ca), b = make<S>(cb);
        const std::vector<S> v = pluto::split(a, b);
        r.push_back(each(v)); back.push_back(codes(pluto::join(v, b))); back.push_back(codes(pluto::join(v.begin(), v.end(), b)));
        any.push_back(each(pluto::split_any_of(a, b)));
    }
#if PLUTO_STRING_OVERLOAD_FOR_UNICODE
    const bool unicode_overloads = true;
#else
    const bool unicode_overloads = false;
#endif
    template<class S, bool> struct Named { template<class... A> static void split(A&...) {} template<class... A> static void join(A&&...) {} template<class... A> static void replace(A&...) {} };
    template<class S> void join_named(const Nums&, const std::vector<Nums>&, Texts&, Texts&, Texts&);
    template<class S> void replace_named(const Nums&, const Nums&, const Nums&, Texts&, Texts&);
    template<class S> struct Named<S, true>
    {
        static void split(const Nums& a, const Nums& b, Lists& r, Texts& back, Lists& any) { split_named<S>(a, b, r, back, any); }
        static void join(const Nums& s, const std::vector<Nums>& l, Texts& r, Texts& m, Texts& mi) { join_named<S>(s, l, r, m, mi); }
        static void replace(const Nums& a, const Nums& f, const Nums& x, Texts& r, Texts& any) { replace_named<S>(a, f, x, r, any); }
    };

    void do_split(const Nums& a, const Nums& b)
    {
        Lists r, any; Texts back;
        split_all<std::string>(a, b, r, back, any); split_all<std::wstring>(a, b, r, back, any); split_all<std::u16string>(a, b, r, back, any); split_all<std::u32string>(a, b, r, back, any);
        split_named<std::string>(a, b, r, back, any); split_named<std::wstring>(a, b, r, back, any);
        Named<std::u16string, unicode_overloads>::split(a, b, r, back, any); Named<std::u32string, unicode_overloads>::split(a, b, r, back, any);
#if PLUTO_UTILS_HAS_CXX_20
        split_all<std::u8string>(a, b, r, back, any); Named<std::u8string, unicode_overloads>::split(a, b, r, back, any);
#endif
        begin("split"); g_out += field("a", a) + field("b", b) + field("r", uniq(r)) + field("j", uniq(back)) + field("y", uniq(any)) + "}";
    }

    // mapping functions: x -> < x >, and x -> x followed by how many were mapped before
    template<class S> struct Around { S operator()(const S& x) const { S r; r.push_back('<'); r += x; r.push_back('>'); return r; } };
    template<class S> struct Index { int* n; S operator()(const S& x) const { S r(x); r.push_back((typename S::value_type)('0' + (*n)++ % 10)); return r; } };
    template<class S> struct Ref { const S& operator()(const std::shared_ptr<S>& x) const { return *x; } };

    template<class S, class C> void join_one(const C& c, const S& sep, Texts& r, Texts& m, Texts& mi)
    {
        typedef typename S::value_type E;
        r.push_back(codes(pluto::join<E>(c, sep))); r.push_back(codes(pluto::join<E>(std::begin(c), std::end(c), sep)));
        m.push_back(codes(pluto::map_join<E>(c, sep, Around<S>()))); m.push_back(codes(pluto::map_join<E>(std::begin(c), std::end(c), sep, Around<S>())));
        { int n = 0; mi.push_back(codes(pluto::map_join<E>(c, sep, Index<S>{ &n }))); }
        { int n = 0; mi.push_back(codes(pluto::map_join<E>(std::begin(c), std::end(c), sep, Index<S>{ &n }))); }
    }
    template<class S> void join_all(const Nums& cs, const std::vector<Nums>& cl, Texts& r, Texts& m, Texts& mi)
    {
        typedef typename S::value_type E;
        if (!fits<E>(cs)) return;
        std::vector<S> v;
        for (auto& x : cl) { if (!fits<E>(x)) return; v.push_back(make<S>(x)); }
        const S sep = make<S>(cs);
        join_one(v, sep, r, m, mi); join_one(std::list<S>(v.begin(), v.end()), sep, r, m, mi); join_one(std::deque<S>(v.begin(), v.end()), sep, r, m, mi);
        join_one(std::forward_list<S>(v.begin(), v.end()), sep, r, m, mi);
        if (v.size() == 3) { const S a[] = { v[0], v[1], v[2] }; join_one(a, sep, r, m, mi); join_one(std::array<S, 3>{ { v[0], v[1], v[2] } }, sep, r, m, mi); }
        std::vector<std::shared_ptr<S>> p; for (auto& x : v) p.push_back(std::make_shared<S>(x));
        r.push_back(codes(pluto::map_join<E>(p, sep, Ref<S>())));
        bool nul = false; for (auto& x : v) nul = nul || x.find(E(0)) != S::npos;
        if (!nul) { std::vector<const E*> z; for (auto& x : v) z.push_back(x.c_str()); r.push_back(codes(pluto::join<E>(z, sep))); }
        if (each(v) != Texts(cl.begin(), cl.end())) r.push_back(Nums{ -1 });
    }
    template<class S> void join_named(const Nums& cs, const std::vector<Nums>& cl, Texts& r, Texts& m, Texts& mi)
    {
        if (!fits<typename S::value_type>(cs)) return;
        std::vector<S> v;
        for (auto& x : cl) { if (!fits<typename S::value_type>(x)) return; v.push_back(make<S>(x)); }
        const std::list<S> l(v.begin(), v.end()); const S sep = make<S>(cs);
        r.push_back(codes(pluto::join(v, sep))); r.push_back(codes(pluto::join(l, sep))); r.push_back(codes(pluto::join(v.begin(), v.end(), sep))); r.push_back(codes(pluto::join(l.begin(), l.end(), sep)));
        m.push_back(codes(pluto::map_join(v, sep, Around<S>()))); m.push_back(codes(pluto::map_join(l.begin(), l.end(), sep, Around<S>())));
        { int n = 0; mi.push_back(codes(pluto::map_join(l, sep, Index<S>{ &n }))); }
        { int n = 0; mi.push_back(codes(pluto::map_join(v.begin(), v.end(), sep, Index<S>{ &n }))); }
        {   // mapping first, then joining
            std::vector<S> t; pluto::map(v, t, Around<S>()); m.push_back(codes(pluto::join(t, sep)));
        }
    }
    void do_join(const Nums& s, const std::vector<Nums>& l)
    {
        Texts r, m, mi;
        join_all<std::string>(s, l, r, m, mi); join_all<std::wstring>(s, l, r, m, mi); join_all<std::u16string>(s, l, r, m, mi); join_all<std::u32string>(s, l, r, m, mi);
        join_named<std::string>(s, l, r, m, mi); join_named<std::wstring>(s, l, r, m, mi);
        Named<std::u16string, unicode_overloads>::join(s, l, r, m, mi); Named<std::u32string, unicode_overloads>::join(s, l, r, m, mi);
#if PLUTO_UTILS_HAS_CXX_20
        join_all<std::u8string>(s, l, r, m, mi); Named<std::u8string, unicode_overloads>::join(s, l, r, m, mi);
#endif
        begin("join"); g_out += field("s", s) + field("l", l) + field("r", uniq(r)) + field("m", uniq(m)) + field("i", uniq(mi)) + "}";
    }

    template<class S> void replace_all(const Nums& ca, const Nums& cf, const Nums& cr, Texts& r, Texts& any)
    {
        typedef typename S::value_type E;
        if (!fits<E>(ca) || !fits<E>(cf) || !fits<E>(cr)) return;
        const S f = make<S>(cf), x = make<S>(cr);
        S a = make<S>(ca); pluto::replace<E>(a, f, x); r.push_back(codes(a));
        a = make<S>(ca); pluto::replace<>(a, f, x); r.push_back(codes(a));
        a = make<S>(ca); pluto::replace_any_of<E>(a, f, x); any.push_back(codes(a));
        a = make<S>(ca); a.shrink_to_fit(); pluto::replace_any_of<>(a, f, x); any.push_back(codes(a));
        if (codes(f) != cf || codes(x) != cr) r.push_back(Nums{ -1 });
    }
    template<class S> void replace_named(const Nums& ca, const Nums& cf, const Nums& cr, Texts& r, Texts& any)
    {
        typedef typename S::value_type E;
        if (!fits<E>(ca) || !fits<E>(cf) || !fits<E>(cr)) return;
        const S f = make<S>(cf), x = make<S>(cr);
        S a = make<S>(ca); pluto::replace(a, f, x); r.push_back(codes(a));
        a = make<S>(ca); pluto::replace_any_of(a, f, x); any.push_back(codes(a));
    }
    void do_replace(const Nums& a, const Nums& f, const Nums& x)
    {
        Texts r, any;
        replace_all<std::string>(a, f, x, r, any); replace_all<std::wstring>(a, f, x, r, any); replace_all<std::u16string>(a, f, x, r, any); replace_all<std::u32string>(a, f, x, r, any);
        replace_named<std::string>(a, f, x, r, any); replace_named<std::wstring>(a, f, x, r, any);
        Named<std::u16string, unicode_overloads>::replace(a, f, x, r, any); Named<std::u32string, unicode_overloads>::replace(a, f, x, r, any);
#if PLUTO_UTILS_HAS_CXX_20
        replace_all<std::u8string>(a, f, x, r, any); Named<std::u8string, unicode_overloads>::replace(a, f, x, r, any);
#endif
        begin("replace"); g_out += field("a", a) + field("f", f) + field("x", x) + field("r", uniq(r)) + field("y", uniq(any)) + "}";
    }

    // ------------------------------------------------------------ functions of a locale
    // What the locale says about every element of the case, asked of the standard library.
    template<class E> std::string table(const std::locale& loc, std::vector<Nums> texts)
    {
        const auto& f = std::use_facet<std::ctype<E>>(loc);
        std::set<long> all; for (auto& t : texts) all.insert(t.begin(), t.end());
        Nums k, up, lo; Nums sp, isup, islo;
        for (long x : all)
        {
            const E c = (E)x;
            k.push_back(x); up.push_back(code(f.toupper(c))); lo.push_back(code(f.tolower(c)));
            if (f.is(std::ctype_base::space, c)) sp.push_back(x);
            if (f.is(std::ctype_base::upper, c)) isup.push_back(x);
            if (f.is(std::ctype_base::lower, c)) islo.push_back(x);
        }
        return field("k", k) + field("up", up) + field("lo", lo) + field("sp", sp) + field("isup", isup) + field("islo", islo);
    }

    template<class S> void white(int L, const Nums& ca)
    {
        typedef typename S::value_type E;
        if (!fits<E>(ca)) return;
        const std::locale loc = make_locale(L); const S a = make<S>(ca);
        Lists r;
        r.push_back(each(pluto::split<E>(a, loc))); r.push_back(each(pluto::split(a, loc))); r.push_back(each(pluto::split<>(a, loc)));
        if (!L) { r.push_back(each(pluto::split(a))); r.push_back(each(pluto::split<E>(a))); }
        if (L == 4) r.push_back(each(pluto::split(a, pluto::system_locale())));
        if (L == 1) r.push_back(each(pluto::split(a, pluto::c_locale())));
        begin("white"); g_out += ",\"L\":" + show(L) + field("a", ca) + table<E>(loc, { ca }) + field("r", uniq(r)) + "}";
    }
    template<class S> void strips(int L, const Nums& ca)
    {
        typedef typename S::value_type E;
        if (!fits<E>(ca)) return;
        const std::locale loc = make_locale(L);
        Texts l, r, b;
        S a;
        for (int shrink = 0; shrink < 2; ++shrink)
        {
            auto fresh = [&] { a = make<S>(ca); if (shrink) a.shrink_to_fit(); };
            fresh(); pluto::lstrip(a, loc); l.push_back(codes(a)); fresh(); pluto::rstrip(a, loc); r.push_back(codes(a)); fresh(); pluto::strip(a, loc); b.push_back(codes(a));
            if (!L) { fresh(); pluto::lstrip(a); l.push_back(codes(a)); fresh(); pluto::rstrip(a); r.push_back(codes(a)); fresh(); pluto::strip(a); b.push_back(codes(a)); }
        }
        begin("strip"); g_out += ",\"L\":" + show(L) + field("a", ca) + table<E>(loc, { ca }) + field("l", uniq(l)) + field("r", uniq(r)) + field("b", uniq(b)) + "}";
    }
    template<class S> void casing(int L, const Nums& ca)
    {
        typedef typename S::value_type E;
        if (!fits<E>(ca)) return;
        const std::locale loc = make_locale(L); const S a = make<S>(ca);
        Texts lo, up; Nums isl, isu;
        S t(a); pluto::lower(t, loc); lo.push_back(codes(t)); t = a; pluto::upper(t, loc); up.push_back(codes(t));
        { Exact<E> x(a); pluto::lower(x.get(), x.n, loc); lo.push_back(x.now()); }
        { Exact<E> x(a); pluto::upper(x.get(), x.n, loc); up.push_back(x.now()); }
        t = a; for (E& c : t) c = pluto::lower(c, loc); lo.push_back(codes(t));
        t = a; for (E& c : t) c = pluto::upper(c, loc); up.push_back(codes(t));
        { const Exact<E> x(a); isl.push_back(pluto::is_lower((const E*)x.get(), x.n, loc)); isu.push_back(pluto::is_upper((const E*)x.get(), x.n, loc)); }
        isl.push_back(pluto::is_lower(a, loc)); isu.push_back(pluto::is_upper(a, loc)); isl.push_back(pluto::is_lower<E>(a, loc)); isu.push_back(pluto::is_upper<E>(a, loc)); isl.push_back(pluto::is_lower<>(a, loc));
        { bool l = true, u = true; for (E c : a) { l = l && pluto::is_lower(c, loc); u = u && pluto::is_upper(c, loc); } isl.push_back(l); isu.push_back(u); }
        if (!L)
        {
            t = a; pluto::lower(t); lo.push_back(codes(t)); t = a; pluto::upper(t); up.push_back(codes(t));
            { Exact<E> x(a); pluto::lower(x.get(), x.n); lo.push_back(x.now()); }
            { Exact<E> x(a); pluto::upper(x.get(), x.n); up.push_back(x.now()); }
            t = a; for (E& c : t) c = pluto::lower(c); lo.push_back(codes(t));
            t = a; for (E& c : t) c = pluto::upper(c); up.push_back(codes(t));
            { const Exact<E> x(a); isl.push_back(pluto::is_lower((const E*)x.get(), x.n)); isu.push_back(pluto::is_upper((const E*)x.get(), x.n)); }
            isl.push_back(pluto::is_lower(a)); isu.push_back(pluto::is_upper(a));
            bool l = true, u = true; for (E c : a) { l = l && pluto::is_lower(c); u = u && pluto::is_upper(c); }
            isl.push_back(l); isu.push_back(u);
        }
        begin("case"); g_out += ",\"L\":" + show(L) + field("a", ca) + table<E>(loc, { ca }) + field("low", uniq(lo)) + field("upp", uniq(up)) + field("isl", uniq(isl)) + field("isu", uniq(isu)) + "}";
    }

    template<class S> void insensitive(int L, const Nums& ca, const Nums& cb)
    {
        typedef typename S::value_type E;
        if (!fits<E>(ca) || !fits<E>(cb)) return;
        const std::locale loc = make_locale(L); const S a = make<S>(ca), b = make<S>(cb);
        const Exact<E> ea(a), eb(b); const E* x = ea.get(); const E* y = eb.get(); const size_t m = ea.n, n = eb.n;
        Nums eq, sw, ew, fs, rs, cs;
#define ALL(name, out, sub, subp) \
        out.push_back((long)(pluto::name(a, b, loc) sub)); out.push_back((long)(pluto::name<>(a, b, loc) sub)); out.push_back((long)(pluto::name<E>(a, b, loc) sub)); out.push_back((long)(pluto::name(x, m, y, n, loc) subp)); \
        if (!L) { out.push_back((long)(pluto::name(a, b) sub)); out.push_back((long)(pluto::name(x, m, y, n) subp)); out.push_back((long)(pluto::name(a, b, pluto::default_locale()) sub)); }
        ALL(iequals, eq, , ) ALL(istarts_with, sw, , ) ALL(iends_with, ew, , ) ALL(icontains, cs, , )
        ALL(ifind, fs, - a.begin(), - x)
#if PLUTO_UTILS_HAS_CXX_17
        ALL(irfind, rs, - a.begin(), - x)
#endif
        // the comparator given to the case-sensitive functions
        const pluto::is_iequal<E> p(loc);
        eq.push_back(pluto::equals(a, b, p)); sw.push_back(pluto::starts_with(a, b, p)); ew.push_back(pluto::ends_with(a, b, p)); fs.push_back(pluto::find(a, b, p) - a.begin()); cs.push_back(pluto::contains(a, b, p));
        begin("insens"); g_out += ",\"L\":" + show(L) + field("a", ca) + field("b", cb) + table<E>(loc, { ca, cb }) +
            field("eq", uniq(eq)) + field("sw", uniq(sw)) + field("ew", uniq(ew)) + field("fs", uniq(fs)) + field("rs", uniq(rs)) + field("cs", uniq(cs)) + "}";
    }

    // A comparator made from a locale that is gone by the time it is used.
    template<template<class> class P, class E> std::unique_ptr<P<E>> orphan(int L) { const std::locale loc = make_locale(L); return std::unique_ptr<P<E>>(new P<E>(loc)); }
    template<template<class> class P, class E> std::unique_ptr<P<E>> copied(int L)
    {
        const auto p = orphan<P, E>(L);
        return std::unique_ptr<P<E>>(new P<E>(*p));
    }
    template<template<class> class P, class E> std::vector<Nums> compare(int L, long x, const Nums& ys)
    {
        std::vector<Nums> out;
        const std::locale loc = make_locale(L); const P<E> p(loc);
        const auto q = orphan<P, E>(L), r = copied<P, E>(L);
        Nums a, b, c, d;
        for (long y : ys) { a.push_back(p((E)x, (E)y)); b.push_back((*q)((E)x, (E)y)); c.push_back((*r)((E)x, (E)y)); }
        out.push_back(a); out.push_back(b); out.push_back(c);
        if (!L) { const P<E> z; for (long y : ys) d.push_back(z((E)x, (E)y)); out.push_back(d); }
        return uniq(out);
    }
    // Order is that of the element type, so elements are given by their own value here (char may be negative).
    template<class E> void comparators(int L, long x, const Nums& ys)
    {
        Nums all(ys); all.push_back(x);
        if (!fits<E>(all)) return;
        const std::locale keep = make_locale(L);
        const auto& g = std::use_facet<std::ctype<E>>(keep);
        Nums val, up; for (long y : ys) { val.push_back((long)(E)y); up.push_back((long)g.toupper((E)y)); }
        begin("cmp"); g_out += ",\"L\":" + show(L) + ",\"x\":" + show((long)(E)x) + ",\"ux\":" + show((long)g.toupper((E)x)) + field("y", val) + field("uy", up) +
            field("eq", compare<pluto::is_iequal, E>(L, x, ys)) + field("ne", compare<pluto::is_not_iequal, E>(L, x, ys)) + field("lt", compare<pluto::is_iless, E>(L, x, ys)) +
            field("gt", compare<pluto::is_igreater, E>(L, x, ys)) + field("le", compare<pluto::is_iless_equal, E>(L, x, ys)) + field("ge", compare<pluto::is_igreater_equal, E>(L, x, ys)) + "}";
    }

    Nums parse(const std::string& s)
    {
        Nums r; if (s == "-") return r;
        std::istringstream in(s); std::string w;
        while (std::getline(in, w, '.')) r.push_back(std::stol(w, nullptr, 16));
        return r;
    }
    std::string run(const std::string& name, const std::string& text)
    {
        std::istringstream in(text); std::string op, a, b, c; int L; long x;
        g_out = "{\"sc\":\"" + name + "\",\"ev\":[";
        while (in >> op)
        {
            if (op == "s") { in >> a >> b; do_split(parse(a), parse(b)); }
            else if (op == "r") { in >> a >> b >> c; do_replace(parse(a), parse(b), parse(c)); }
            else if (op == "j") { in >> a; std::vector<Nums> l; while (in >> b && b != ";") l.push_back(parse(b)); do_join(parse(a), l); }
            else if (op == "w") { in >> L >> a; white<std::string>(L, parse(a)); white<std::wstring>(L, parse(a)); }
            else if (op == "p") { in >> L >> a; strips<std::string>(L, parse(a)); strips<std::wstring>(L, parse(a)); }
            else if (op == "l") { in >> L >> a; casing<std::string>(L, parse(a)); casing<std::wstring>(L, parse(a)); }
            else if (op == "i") { in >> L >> a >> b; insensitive<std::string>(L, parse(a), parse(b)); insensitive<std::wstring>(L, parse(a), parse(b)); }
            else if (op == "c") { in >> L >> std::hex >> x >> std::dec; Nums ys; while (in >> b && b != ";") for (long y : parse(b)) ys.push_back(y); comparators<char>(L, x, ys); comparators<wchar_t>(L, x, ys); }
            else _exit(6);
        }
        return g_out + "]}";
    }
}

int main(int argc, char** argv) { return lines::drive(argc, argv, run); }
