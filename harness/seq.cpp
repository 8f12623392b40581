// Sequence matching (lines starting with m or x) and container transforms (lines starting with t).
//   m P a b ...        pairs of sequences (digits are ranks; - is empty) matched with equivalence P
//   x X M Q a a ...    one element X, predicate rank % M == Q
//   t ops              see transform()
#include <algorithm>
#include <array>
#include <climits>
#include <cmath>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "lines.h"
#ifdef WITH_WHOLE
#include <pluto.hpp>
#endif
#include <pluto/container.hpp>
#include <pluto/string.hpp>
#include <pluto/value.hpp>

namespace
{
    std::string g_out;
    typedef std::vector<long> Nums;

    // ------------------------------------------------------------ elements of several types, by rank
    template<class T> struct Rank
    {
        static const std::vector<T>& tab() { static const std::vector<T> t{ T(0), T('a'), T(-1), T(' '), T('A'), T('b'), T(127), T(-128), T('z'), T('/') }; return t; }
        static T of(int r) { return tab()[(size_t)r]; }
        static int get(const T& t) { return (int)(std::find(tab().begin(), tab().end(), t) - tab().begin()); }
    };
    template<> struct Rank<int>
    {
        static const std::vector<int>& tab() { static const std::vector<int> t{ 0, 1, -1, INT_MAX, INT_MIN, 256, 65536, 7, -256, 42 }; return t; }
        static int of(int r) { return tab()[(size_t)r]; }
        static int get(int t) { return (int)(std::find(tab().begin(), tab().end(), t) - tab().begin()); }
    };
    // Equality comparable and nothing else; owns memory so that a stray copy or read shows.
    struct Obj
    {
        std::shared_ptr<int> p;
        Obj(int r = 0) : p(std::make_shared<int>(r)) {}
        bool operator==(const Obj& o) const { return *p == *o.p; }
        bool operator!=(const Obj& o) const { return *p != *o.p; }
    };
    template<> struct Rank<Obj> { static Obj of(int r) { return Obj(r); } static int get(const Obj& o) { return *o.p; } };

    struct Mod      // predicate on (left element, right element): an equivalence, or -1 <=, -2 <, -3 left is right + 1
    {
        int p;
        template<class A, class B> bool operator()(const A& a, const B& b) const
        {
            const int x = Rank<A>::get(a), y = Rank<B>::get(b);
            return p == -1 ? x <= y : p == -2 ? x < y : p == -3 ? x == y + 1 : p ? x % p == y % p : x == y;
        }
    };
    struct In       // predicate
    {
        int m, q;
        template<class A> bool operator()(const A& a) const { return Rank<A>::get(a) % m == q; }
    };

    template<class C> C make(const std::vector<int>& v)
    {
        std::vector<typename C::value_type> t;
        for (int r : v) t.push_back(Rank<typename C::value_type>::of(r));
        return C(t.begin(), t.end());
    }
    // An array of exactly the right size on the heap, so that reading past it is seen.
    template<class T> struct Exact
    {
        std::unique_ptr<T[]> p; size_t n;
        explicit Exact(const std::vector<int>& v) : p(new T[v.size()]), n(v.size()) { for (size_t i = 0; i < n; ++i) p[i] = Rank<T>::of(v[i]); }
        const T* begin() const { return p.get(); }
        const T* end() const { return p.get() + n; }
    };
    template<class T> size_t length(const T& c) { return (size_t)std::distance(std::begin(c), std::end(c)); }

    // ------------------------------------------------------------ matching
    struct M { Nums eq, es, sw, ew, fs, rs, cs; };
    template<class C, class I> long at(const C& c, I i) { return (long)std::distance(std::begin(c), i); }

    template<class L, class R> void forward(M& m, const L& a, const R& b, int p)
    {
        const auto ab = std::begin(a), ae = std::end(a); const auto bb = std::begin(b), be = std::end(b);
        const bool same = length(a) == length(b);
        const Mod mod{ p };
        if (same) m.es.push_back(pluto::equals_same_size(ab, ae, bb, mod));
        m.eq.push_back(pluto::equals(ab, ae, bb, be, mod)); m.eq.push_back(pluto::equals(a, b, mod));
        m.sw.push_back(pluto::starts_with(ab, ae, bb, be, mod)); m.sw.push_back(pluto::starts_with(a, b, mod));
        m.fs.push_back(at(a, pluto::find(ab, ae, bb, be, mod))); m.fs.push_back(at(a, pluto::find_sequence(a, b, mod)));
        m.cs.push_back(pluto::contains(ab, ae, bb, be, mod)); m.cs.push_back(pluto::contains_sequence(a, b, mod));
#if PLUTO_UTILS_HAS_CXX_17
        m.rs.push_back(at(a, pluto::rfind(ab, ae, bb, be, mod))); m.rs.push_back(at(a, pluto::rfind_sequence(a, b, mod)));
#endif
    }
    template<class L, class R> void plain(M& m, const L& a, const R& b)       // default predicate: same element type only
    {
        const auto ab = std::begin(a), ae = std::end(a); const auto bb = std::begin(b), be = std::end(b);
        if (length(a) == length(b)) m.es.push_back(pluto::equals_same_size(ab, ae, bb));
        m.eq.push_back(pluto::equals(ab, ae, bb, be)); m.eq.push_back(pluto::equals(a, b));
        m.sw.push_back(pluto::starts_with(ab, ae, bb, be)); m.sw.push_back(pluto::starts_with(a, b));
        m.fs.push_back(at(a, pluto::find(ab, ae, bb, be))); m.fs.push_back(at(a, pluto::find_sequence(a, b)));
        m.cs.push_back(pluto::contains(ab, ae, bb, be)); m.cs.push_back(pluto::contains_sequence(a, b));
#if PLUTO_UTILS_HAS_CXX_17
        m.rs.push_back(at(a, pluto::rfind(ab, ae, bb, be))); m.rs.push_back(at(a, pluto::rfind_sequence(a, b)));
#endif
    }
    template<class L, class R> void both(M& m, const L& a, const R& b, int p)
    {
        forward(m, a, b, p);
        m.ew.push_back(pluto::ends_with(std::begin(a), std::end(a), std::begin(b), std::end(b), Mod{ p })); m.ew.push_back(pluto::ends_with(a, b, Mod{ p }));
    }
    template<class L, class R> void bothplain(M& m, const L& a, const R& b, int p)
    {
        both(m, a, b, p);
        if (p) return;
        plain(m, a, b);
        m.ew.push_back(pluto::ends_with(std::begin(a), std::end(a), std::begin(b), std::end(b))); m.ew.push_back(pluto::ends_with(a, b));
    }
    template<class T> void pointers(M& m, const std::vector<int>& va, const std::vector<int>& vb, int p)
    {
        const Exact<T> a(va), b(vb); const Mod mod{ p };
        const T* x = a.begin(); const T* y = b.begin();
        m.eq.push_back(pluto::equals(x, a.n, y, b.n, mod)); m.sw.push_back(pluto::starts_with(x, a.n, y, b.n, mod)); m.ew.push_back(pluto::ends_with(x, a.n, y, b.n, mod));
        m.fs.push_back(pluto::find(x, a.n, y, b.n, mod) - x); m.cs.push_back(pluto::contains(x, a.n, y, b.n, mod));
        if (!p)
        {
            m.eq.push_back(pluto::equals(x, a.n, y, b.n)); m.sw.push_back(pluto::starts_with(x, a.n, y, b.n)); m.ew.push_back(pluto::ends_with(x, a.n, y, b.n));
            m.fs.push_back(pluto::find(x, a.n, y, b.n) - x); m.cs.push_back(pluto::contains(x, a.n, y, b.n));
        }
#if PLUTO_UTILS_HAS_CXX_17
        m.rs.push_back(pluto::rfind(x, a.n, y, b.n, mod) - x);
        if (!p) m.rs.push_back(pluto::rfind(x, a.n, y, b.n) - x);
#endif
        bothplain(m, a, b, p);
    }
    template<class S> void strings(M& m, const std::vector<int>& va, const std::vector<int>& vb, int p)
    {
        const S a = make<S>(va), b = make<S>(vb); const Mod mod{ p };
        m.eq.push_back(pluto::equals(a, b, mod)); m.sw.push_back(pluto::starts_with(a, b, mod)); m.ew.push_back(pluto::ends_with(a, b, mod));
        m.fs.push_back(at(a, pluto::find(a, b, mod))); m.cs.push_back(pluto::contains(a, b, mod));
        if (!p)
        {
            m.eq.push_back(pluto::equals(a, b)); m.sw.push_back(pluto::starts_with(a, b)); m.ew.push_back(pluto::ends_with(a, b));
            m.fs.push_back(at(a, pluto::find(a, b))); m.cs.push_back(pluto::contains(a, b));
        }
#if PLUTO_UTILS_HAS_CXX_17
        m.rs.push_back(at(a, pluto::rfind(a, b, mod)));
        if (!p) m.rs.push_back(at(a, pluto::rfind(a, b)));
#endif
        bothplain(m, a, b, p);
    }

    std::vector<int> ranks(const std::string& s) { std::vector<int> v; for (char c : s) if (c != '-') v.push_back(c - '0'); return v; }
    template<class C> std::string arr(const C& c)
    {
        std::string s = "[";
        for (auto x : c) { if (s.size() > 1) s += ','; s += std::to_string(x); }
        return s + "]";
    }
    std::string field(const char* n, const Nums& v) { return std::string(",\"") + n + "\":" + arr(v); }
    std::string fields(const char* n, const std::vector<std::vector<long>>& v)
    {
        std::string s = std::string(",\"") + n + "\":[";
        for (size_t i = 0; i < v.size(); ++i) { if (i) s += ','; s += arr(v[i]); }
        return s + "]";
    }
    void begin(const char* e) { if (g_out.back() != '[') g_out += ','; g_out += std::string("{\"e\":\"") + e + "\""; }
    // Most answers agree: only the different ones are written.
    Nums uniq(Nums v) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }

    void match(int p, const std::vector<int>& a, const std::vector<int>& b)
    {
        M m;
        pointers<char>(m, a, b, p); pointers<int>(m, a, b, p); pointers<wchar_t>(m, a, b, p);
        strings<std::string>(m, a, b, p); strings<std::wstring>(m, a, b, p); strings<std::u16string>(m, a, b, p); strings<std::u32string>(m, a, b, p);
#if PLUTO_UTILS_HAS_CXX_20
        strings<std::u8string>(m, a, b, p);
#endif
        const auto av = make<std::vector<int>>(a); const auto bv = make<std::vector<int>>(b);
        const auto ad = make<std::deque<int>>(a); const auto bl = make<std::list<int>>(b);
        const auto bd = make<std::deque<int>>(b); const auto al = make<std::list<Obj>>(a); const auto bo = make<std::vector<Obj>>(b);
        bothplain(m, av, bv, p); bothplain(m, ad, bl, p); bothplain(m, ad, bv, p); bothplain(m, al, bo, p); bothplain(m, make<std::vector<Obj>>(a), make<std::list<Obj>>(b), p); bothplain(m, av, bd, p);
        {   // the other way round is another question, answered here so that lists are also on the left
            M r; both(r, bl, ad, p);
            M s; both(s, bv, av, p);
            if (r.eq != s.eq || r.sw != s.sw || r.ew != s.ew || r.fs != s.fs || r.rs != s.rs || r.cs != s.cs) m.eq.push_back(-7);
        }
        // different element types, only with a predicate
        both(m, av, make<std::string>(b), p); both(m, make<std::list<wchar_t>>(a), bv, p); both(m, make<std::string>(a), bo, p);
        forward(m, make<std::forward_list<int>>(a), make<std::forward_list<int>>(b), p); forward(m, av, make<std::forward_list<Obj>>(b), p);
        if (!p) plain(m, make<std::forward_list<Obj>>(a), make<std::forward_list<Obj>>(b));
        {   // reverse iterators
            const std::vector<int> ra(a.rbegin(), a.rend()), rb(b.rbegin(), b.rend());
            const auto x = make<std::vector<int>>(ra); const auto y = make<std::list<int>>(rb);
            m.sw.push_back(pluto::starts_with(x.rbegin(), x.rend(), y.rbegin(), y.rend(), Mod{ p })); m.ew.push_back(pluto::ends_with(x.rbegin(), x.rend(), y.rbegin(), y.rend(), Mod{ p }));
            m.eq.push_back(pluto::equals(x.rbegin(), x.rend(), y.rbegin(), y.rend(), Mod{ p })); m.fs.push_back(pluto::find(x.rbegin(), x.rend(), y.rbegin(), y.rend(), Mod{ p }) - x.rbegin());
            m.cs.push_back(pluto::contains(x.rbegin(), x.rend(), y.rbegin(), y.rend(), Mod{ p }));
        }
        begin("match");
        g_out += ",\"p\":" + std::to_string(p) + ",\"a\":" + arr(a) + ",\"b\":" + arr(b);
        g_out += field("eq", uniq(m.eq)) + field("es", uniq(m.es)) + field("sw", uniq(m.sw)) + field("ew", uniq(m.ew)) + field("fs", uniq(m.fs)) + field("rs", uniq(m.rs)) + field("cs", uniq(m.cs)) + "}";
    }

    struct E1 { Nums fe, re, ce, fi, ri, fn, rn; };
    template<class C> void one_forward(E1& r, const C& c, int x, In in)
    {
        typedef typename std::decay<decltype(*std::begin(c))>::type T;
        const T e = Rank<T>::of(x); const auto b = std::begin(c), z = std::end(c);
        r.fe.push_back(at(c, pluto::find(b, z, e))); r.fe.push_back(at(c, pluto::find_elem(c, e)));
        r.ce.push_back(pluto::contains(b, z, e)); r.ce.push_back(pluto::contains_elem(c, e));
        r.fi.push_back(at(c, pluto::find_if(b, z, in))); r.fi.push_back(at(c, pluto::find_if(c, in)));
        r.fn.push_back(at(c, pluto::find_if_not(b, z, in))); r.fn.push_back(at(c, pluto::find_if_not(c, in)));
    }
    template<class C> void one(E1& r, const C& c, int x, In in)
    {
        one_forward(r, c, x, in);
        typedef typename std::decay<decltype(*std::begin(c))>::type T;
        const T e = Rank<T>::of(x); const auto b = std::begin(c), z = std::end(c);
        r.re.push_back(at(c, pluto::rfind(b, z, e))); r.re.push_back(at(c, pluto::rfind_elem(c, e)));
        r.ri.push_back(at(c, pluto::rfind_if(b, z, in))); r.ri.push_back(at(c, pluto::rfind_if(c, in)));
        r.rn.push_back(at(c, pluto::rfind_if_not(b, z, in))); r.rn.push_back(at(c, pluto::rfind_if_not(c, in)));
    }
    void elem(int x, int mm, int q, const std::vector<int>& a)
    {
        E1 r; const In in{ mm, q };
        one(r, make<std::vector<int>>(a), x, in); one(r, make<std::deque<Obj>>(a), x, in); one(r, make<std::list<Obj>>(a), x, in); one(r, make<std::string>(a), x, in);
        one(r, make<std::list<wchar_t>>(a), x, in); one(r, make<std::u16string>(a), x, in);
        one_forward(r, make<std::forward_list<int>>(a), x, in); one(r, Exact<char>(a), x, in); one(r, Exact<int>(a), x, in);
        if (a.size() == 4)
        {
            int arr4[4]; for (int i = 0; i < 4; ++i) arr4[i] = Rank<int>::of(a[(size_t)i]);
            one(r, arr4, x, in);
            std::array<Obj, 4> o{ { Obj(a[0]), Obj(a[1]), Obj(a[2]), Obj(a[3]) } }; one(r, o, x, in);
        }
        begin("elem");
        g_out += ",\"x\":" + std::to_string(x) + ",\"m\":" + std::to_string(mm) + ",\"q\":" + std::to_string(q) + ",\"a\":" + arr(a);
        g_out += field("fe", uniq(r.fe)) + field("re", uniq(r.re)) + field("ce", uniq(r.ce)) + field("fi", uniq(r.fi)) + field("ri", uniq(r.ri)) + field("fn", uniq(r.fn)) + field("rn", uniq(r.rn)) + "}";
    }

    // ------------------------------------------------------------ transforms
    // Values are key * 100 + id; comparison looks at the key only.
    struct V
    {
        long v; std::unique_ptr<long> owned;
        V(long x = 0) : v(x), owned(new long(x)) {}
        V(const V& o) : v(*o.owned), owned(new long(*o.owned)) {}
        V(V&& o) noexcept : v(o.v), owned(std::move(o.owned)) { o.v = -1; }
        V& operator=(const V& o) { if (this != &o) { v = *o.owned; owned.reset(new long(v)); } return *this; }
        V& operator=(V&& o) noexcept { if (this != &o) { v = o.v; owned = std::move(o.owned); o.v = -1; } return *this; }
        bool operator<(const V& o) const { return v / 100 < o.v / 100; }
        bool operator==(long key) const { return v / 100 == key; }
        explicit operator bool() const { return v / 100 != 0; }
    };
    struct Total { long v; Total(long x = 0) : v(x) {} Total& operator+=(const V& o) { v += o.v / 100; return *this; } };
    template<class T> long raw(const T& t) { return (long)t; }
    long raw(const V& t) { return t.owned ? t.v : -1; }
    template<class T> long key(const T& t) { return raw(t) / 100; }
    struct KeyLess { template<class T> bool operator()(const T& a, const T& b) const { return key(a) < key(b); } };
    struct KeyMore { template<class T> bool operator()(const T& a, const T& b) const { return key(a) > key(b); } };
    struct KeyMod { template<class T> bool operator()(const T& a, const T& b) const { return key(a) % 3 < key(b) % 3; } };
    struct KeyIn { int m, q; template<class T> bool operator()(const T& a) const { return key(a) % m == q; } };
    struct KeyF { template<class T> long operator()(const T& a) const { return (key(a) + 1) * 3; } };

    template<class C> Nums dump(const C& c) { Nums n; for (auto& x : c) n.push_back(raw(x)); return n; }
    template<class C> C fill(const Nums& n) { C c; for (long x : n) c.push_back(typename C::value_type(x)); return c; }
    typedef std::vector<Nums> Many;
    void put(Many& m, const Nums& n) { if (std::find(m.begin(), m.end(), n) == m.end()) m.push_back(n); }

    long long big(long x) { switch (x) { case 1000000: return LLONG_MAX; case -1000000: return LLONG_MIN; case 999999: return (long long)INT_MAX + 1; case -999999: return (long long)INT_MIN - 1; case 999998: return 1LL << 32; case -999998: return -(1LL << 32); } return x; }

    struct Three { std::vector<long> v; std::deque<V> d; std::list<V> l; std::vector<V> o; };

    void transform(std::istringstream& in)
    {
        Three t; std::string op;
        auto cur = [&] { return dump(t.v); };
        auto same = [&](Many& m) { put(m, dump(t.v)); put(m, dump(t.d)); put(m, dump(t.l)); put(m, dump(t.o)); };
        while (in >> op)
        {
            long x = 0, y = 0, z = 0, k = 0;
            sscanf(op.c_str() + 1, "%ld,%ld,%ld,%ld", &x, &y, &z, &k);
            Many r;
            switch (op[0])
            {
                case '=':       // =keys as digits
                {
                    Nums n; long id = 1;
                    for (char c : op.substr(1)) if (c != '-') n.push_back((c - '0') * 100 + id++ % 100);
                    t.v = n; t.d = fill<std::deque<V>>(n); t.l = fill<std::list<V>>(n); t.o = fill<std::vector<V>>(n);
                    begin("set"); g_out += ",\"c\":" + arr(n) + "}";
                    break;
                }
                case 's':
                    put(r, dump(pluto::slice(t.v, big(x), big(y)))); put(r, dump(pluto::slice(t.d, big(x), big(y)))); put(r, dump(pluto::slice(t.l, big(x), big(y)))); put(r, dump(pluto::slice(t.o, big(x), big(y))));
                    { std::string s; for (long e : t.v) s += (char)(e / 100); std::string q = pluto::slice(s, big(x), big(y)); Nums w = r[0], u; for (long& e : w) e /= 100; for (char c : q) u.push_back(c); if (u != w) put(r, u); }
                    begin("slice"); g_out += ",\"from\":" + std::to_string(x) + ",\"to\":" + std::to_string(y) + fields("r", r) + ",\"c\":" + arr(cur()) + "}";
                    break;
                case 'S':
                    put(r, dump(pluto::slice(t.v, big(x)))); put(r, dump(pluto::slice(t.d, big(x)))); put(r, dump(pluto::slice(t.l, big(x)))); put(r, dump(pluto::slice(t.o, big(x))));
                    begin("slice1"); g_out += ",\"to\":" + std::to_string(x) + fields("r", r) + ",\"c\":" + arr(cur()) + "}";
                    break;
                case 'f':
                {
                    const KeyIn p{ (int)x, (int)y };
                    { auto c = t.o; auto e = pluto::filter(c.begin(), c.end(), p); put(r, dump(std::vector<V>(c.begin(), e))); }
                    { auto c = t.l; auto e = pluto::filter(c.begin(), c.end(), p); put(r, dump(std::list<V>(c.begin(), e))); }
                    bool back = &pluto::filter(t.v, p) == &t.v && &pluto::filter(t.d, p) == &t.d && &pluto::filter(t.l, p) == &t.l && &pluto::filter(t.o, p) == &t.o;
                    same(r);
                    if (!back) put(r, { -5 });
                    begin("filter"); g_out += ",\"m\":" + std::to_string(x) + ",\"q\":" + std::to_string(y) + fields("r", r) + "}";
                    break;
                }
                case 'o':       // sort: the containers need not agree on the order of equal keys, so all follow the first afterwards
                {
                    { auto c = t.o; if (x == 0) pluto::sort(c.begin(), c.end()); else if (x == 1) pluto::sort(c.begin(), c.end(), KeyMore()); else pluto::sort(c.begin(), c.end(), KeyMod()); put(r, dump(c)); }
                    bool back = true;
                    if (x == 0) { back = &pluto::sort(t.d) == &t.d; pluto::sort(t.o); pluto::sort(t.v, KeyLess()); }
                    else if (x == 1) { back = &pluto::sort(t.d, KeyMore()) == &t.d; pluto::sort(t.o, KeyMore()); pluto::sort(t.v, KeyMore()); }
                    else { back = &pluto::sort(t.d, KeyMod()) == &t.d; pluto::sort(t.o, KeyMod()); pluto::sort(t.v, KeyMod()); }
                    put(r, dump(t.d)); put(r, dump(t.o));
                    if (!back) put(r, { -5 });
                    const Nums n = cur();
                    t.d = fill<std::deque<V>>(n); t.l = fill<std::list<V>>(n); t.o = fill<std::vector<V>>(n);
                    begin("sort"); g_out += ",\"k\":" + std::to_string(x) + ",\"c\":" + arr(n) + fields("r", r) + "}";
                    break;
                }
                case 'r':
                {
                    { auto c = t.l; pluto::reverse(c.begin(), c.end()); put(r, dump(c)); }
                    bool back = &pluto::reverse(t.v) == &t.v && &pluto::reverse(t.d) == &t.d && &pluto::reverse(t.l) == &t.l && &pluto::reverse(t.o) == &t.o;
                    same(r);
                    if (!back) put(r, { -5 });
                    begin("reverse"); g_out += fields("r", r) + "}";
                    break;
                }
                case 'm':       // into a destination that already holds x elements
                {
                    Nums d; for (long i = 0; i < x; ++i) d.push_back(9000 + i);
                    Many s;
                    { std::vector<long> q(d); bool b = &pluto::map(t.v, q, KeyF()) == &q; put(r, q); if (!b) put(r, { -5 }); }
                    { std::list<long> q(d.begin(), d.end()); pluto::map(t.l, q, KeyF()); put(r, dump(q)); }
                    { std::deque<long> q(d.begin(), d.end()); pluto::map(t.o, q, KeyF()); put(r, dump(q)); }
                    { std::vector<V> q(d.begin(), d.end()); pluto::map(t.d, q, [](const V& e) { return V(KeyF()(e)); }); put(r, dump(q)); }
                    { std::vector<long> q(d); q.resize(d.size() + t.d.size(), -3); auto e = pluto::map(t.d.begin(), t.d.end(), q.begin() + (long)d.size(), KeyF()); put(r, q); if (e != q.end()) put(r, { -5 }); }
                    if (!x)
                    {
                        put(r, pluto::map<std::vector<long>>(t.v, KeyF())); put(r, pluto::map<std::vector<long>>(t.l, KeyF())); put(r, dump(pluto::map<std::list<long>>(t.o, KeyF())));
                        put(r, pluto::map(t.v, KeyF())); put(r, dump(pluto::map(t.d, KeyF()))); put(r, dump(pluto::map(t.l, KeyF())));
                        put(r, dump(pluto::map(t.o, [](const V& e) { return V(KeyF()(e)); })));
                        put(s, dump(pluto::map<std::set<long>>(t.v, KeyF())));
                    }
                    { std::set<long> q(d.begin(), d.end()); pluto::map(t.l, q, KeyF()); put(s, dump(q)); }
                    begin("map"); g_out += ",\"d\":" + arr(d) + fields("r", r);
                    // a set: compared as a set of values; duplicates or unsorted content would show as several entries
                    g_out += ",\"s\":[";
                    for (size_t i = 0; i < s.size(); ++i) { if (i) g_out += ','; g_out += arr(s[i]); }
                    g_out += "],\"c\":" + arr(cur()) + "}";
                    break;
                }
                case 'e':
                {
                    Nums n; const auto& cv = t.v; bool back = &pluto::for_each(cv, [&](const long& e) { n.push_back(e); }) == &cv; put(r, n);
                    n.clear(); pluto::for_each(t.l, [&](const V& e) { n.push_back(e.v); }); put(r, n);
                    n.clear(); pluto::for_each(t.d.begin(), t.d.end(), [&](const V& e) { n.push_back(e.v); }); put(r, n);
                    struct Fn { Nums n; void operator()(const V& e) { n.push_back(e.v); } };
                    put(r, pluto::for_each(t.o.begin(), t.o.end(), Fn()).n);
                    if (!back) put(r, { -5 });
                    begin("each"); g_out += fields("r", r) + ",\"c\":" + arr(cur()) + "}";
                    break;
                }
                case 'b':
                {
                    auto up = [](V& e) { e = V(e.v + 100); };
                    bool back = &pluto::for_each(t.v, [](long& e) { e += 100; }) == &t.v && &pluto::for_each(t.l, up) == &t.l && &pluto::for_each(t.o, up) == &t.o;
                    pluto::for_each(t.d.begin(), t.d.end(), up);
                    same(r);
                    if (!back) put(r, { -5 });
                    begin("bump"); g_out += fields("r", r) + "}";
                    break;
                }
                case 'a':       // aggregates: predicate x,y; element z; start k
                {
                    const KeyIn p{ (int)x, (int)y };
                    Nums keys; for (long e : t.v) keys.push_back(e / 100);
                    Nums any, all, anyt, allt, cnt, cnte, sum, sum0, mn, mx, mnp, mxp, len;
                    any = { pluto::any(t.v, p), pluto::any(t.d, p), pluto::any(t.l, p), pluto::any(t.o, p) };
                    all = { pluto::all(t.v, p), pluto::all(t.d, p), pluto::all(t.l, p), pluto::all(t.o, p) };
                    anyt = { pluto::any(keys), pluto::any(t.d), pluto::any(t.l), pluto::any(t.o, pluto::is_true()), !pluto::all(keys, pluto::is_false()) };
                    allt = { pluto::all(keys), pluto::all(t.d), pluto::all(t.l), pluto::all(t.o, pluto::is_true()), !pluto::any(keys, pluto::is_false()) };
                    { std::vector<bool> vb; for (long e : keys) vb.push_back(e != 0); anyt.push_back(pluto::any(vb)); allt.push_back(pluto::all(vb)); }
                    cnt = { (long)pluto::count_if(t.v, p), (long)pluto::count_if(t.d, p), (long)pluto::count_if(t.l, p), (long)pluto::count_if(t.o, p) };
                    cnte = { (long)pluto::count(keys, z), (long)pluto::count(t.d, z), (long)pluto::count(t.l, z), (long)pluto::count(t.o, z) };
                    sum0 = { pluto::sum(keys), pluto::sum(keys, 0L), pluto::sum(t.d, Total()).v };
                    sum = { pluto::sum(keys, k), pluto::sum(t.l, Total(k)).v, pluto::sum(t.o, Total(k)).v, (long)pluto::sum(keys, (double)k) };
                    len = { (long)pluto::len(t.v), (long)pluto::len(t.d), (long)pluto::len(t.l), (long)pluto::len(t.o) };
                    if (!t.v.empty())
                    {
                        auto where = [](const std::vector<V>& c, const V& e) { return (long)(&e - c.data()); };
                        auto pos = [](const std::list<V>& c, const V& e) { long i = 0; for (auto& q : c) { if (&q == &e) return i; ++i; } return -1L; };
                        auto dpos = [](const std::deque<V>& c, const V& e) { long i = 0; for (auto& q : c) { if (&q == &e) return i; ++i; } return -1L; };
                        mn = { where(t.o, (pluto::min)(t.o)), pos(t.l, (pluto::min)(t.l)), dpos(t.d, (pluto::min)(t.d)), &(pluto::min)(keys) - keys.data(), where(t.o, (pluto::min)(t.o, KeyLess())) };
                        mx = { where(t.o, (pluto::max)(t.o)), pos(t.l, (pluto::max)(t.l)), dpos(t.d, (pluto::max)(t.d)), &(pluto::max)(keys) - keys.data(), where(t.o, (pluto::max)(t.o, KeyLess())) };
                        mnp = { where(t.o, (pluto::min)(t.o, KeyMod())), pos(t.l, (pluto::min)(t.l, KeyMod())), &(pluto::min)(t.v, KeyMod()) - t.v.data() };
                        mxp = { where(t.o, (pluto::max)(t.o, KeyMod())), pos(t.l, (pluto::max)(t.l, KeyMod())), &(pluto::max)(t.v, KeyMod()) - t.v.data() };
                    }
                    begin("agg");
                    g_out += ",\"m\":" + std::to_string(x) + ",\"q\":" + std::to_string(y) + ",\"x\":" + std::to_string(z) + ",\"init\":" + std::to_string(k);
                    g_out += field("any", uniq(any)) + field("all", uniq(all)) + field("anyt", uniq(anyt)) + field("allt", uniq(allt)) + field("cnt", uniq(cnt)) + field("cnte", uniq(cnte));
                    g_out += field("sum", uniq(sum)) + field("sum0", uniq(sum0)) + field("min", uniq(mn)) + field("max", uniq(mx)) + field("minp", uniq(mnp)) + field("maxp", uniq(mxp)) + field("len", uniq(len)) + "}";
                    break;
                }
                case '2':       // two values with keys x and y
                {
                    const V a(x * 100 + 1), b(y * 100 + 2); const int ia = (int)x, ib = (int)y;
                    auto w = [&](const V& e) { return &e == &a ? 0L : &e == &b ? 1L : -1L; };
                    auto wi = [&](const int& e) { return &e == &ia ? 0L : &e == &ib ? 1L : -1L; };
                    struct Mod3 { bool operator()(int p, int q) const { return p % 3 < q % 3; } };
                    Nums mn{ w((pluto::min)(a, b)), wi((pluto::min)(ia, ib)), w((pluto::min)(a, b, KeyLess())) }, mx{ w((pluto::max)(a, b)), wi((pluto::max)(ia, ib)), w((pluto::max)(a, b, KeyLess())) };
                    Nums mnp{ w((pluto::min)(a, b, KeyMod())), wi((pluto::min)(ia, ib, Mod3())) }, mxp{ w((pluto::max)(a, b, KeyMod())), wi((pluto::max)(ia, ib, Mod3())) };
                    Nums cp{ pluto::copy(a).v, pluto::copy(x * 100 + 1), raw(pluto::copy(a)) };
                    begin("two");
                    g_out += ",\"x\":" + std::to_string(x * 100 + 1) + ",\"y\":" + std::to_string(y * 100 + 2) + field("min", uniq(mn)) + field("max", uniq(mx)) + field("minp", uniq(mnp)) + field("maxp", uniq(mxp)) + field("copy", uniq(cp)) + "}";
                    break;
                }
                case '|':
                {
                    Nums n{ pluto::abs(x), pluto::abs((int)x), (long)pluto::abs((long long)x), (long)pluto::abs((double)x), (long)pluto::abs((float)x) };
                    if (x >= -127 && x <= 127) n.push_back(pluto::abs((signed char)x));
                    if (x >= -32767 && x <= 32767) n.push_back(pluto::abs((short)x));
                    begin("abs"); g_out += ",\"x\":" + std::to_string(x) + field("r", uniq(n)) + "}";
                    break;
                }
                case '~':
                {
                    Nums n{ (long)pluto::round((double)x / 10.0), (long)pluto::round((long double)x / 10.0L) };
                    if (x % 10 == 0) { n.push_back((long)pluto::round((float)(x / 10))); n.push_back((long)pluto::round((int)(x / 10))); }
                    begin("round"); g_out += ",\"x\":" + std::to_string(x) + field("r", uniq(n)) + "}";
                    break;
                }
                case '^':
                {
                    Nums n{ (long)pluto::pow((double)x, (double)y), (long)pluto::pow((int)x, (int)y), (long)pluto::pow((long double)x, (long double)y), (long)pluto::pow((float)x, (float)y), (long)pluto::pow(x, y) };
                    static_assert(std::is_same<decltype(pluto::pow(1.f, 1.f)), float>::value && std::is_same<decltype(pluto::pow(1., 1.)), double>::value && std::is_same<decltype(pluto::pow(1.L, 1.L)), long double>::value && std::is_same<decltype(pluto::pow(1, 1)), double>::value, "pow");
                    begin("pow"); g_out += ",\"x\":" + std::to_string(x) + ",\"y\":" + std::to_string(y) + field("r", uniq(n)) + "}";
                    break;
                }
                default: _exit(6);
            }
        }
    }

    std::string run(const std::string& name, const std::string& text)
    {
        std::istringstream in(text);
        std::string w, a, b; in >> w;
        g_out = "{\"sc\":\"" + name + "\",\"ev\":[";
        if (w == "m") { int p; in >> p; while (in >> a >> b) match(p, ranks(a), ranks(b)); }
        else if (w == "x") { int x, m, q; in >> x >> m >> q; while (in >> a) elem(x, m, q, ranks(a)); }
        else transform(in);
        return g_out + "]}";
    }
}

int main(int argc, char** argv) { return lines::drive(argc, argv, run); }
