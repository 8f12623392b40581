// Interprets programs over ranges of several point types.  Points are given by rank in a table of distinct, increasing
// values of the type (extremes included); with the table "id" a point is its own rank.
//   first word: type    nI,b,e  make   cI,j  copy-construct   aI,j  assign   bI,v  eI,v  set a point
//   ?I,j compare   rI read   sI size   $ sort all
#include <algorithm>
#include <limits>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

#include "lines.h"
#include <pluto/range.hpp>

namespace
{
    std::string g_out;
    void ev(const std::string& s) { if (g_out.back() != '[') g_out += ','; g_out += s; }

    // A point type that offers nothing but the six comparisons, and does not behave like a number.
    struct Point
    {
        std::string v;
        bool operator==(const Point& o) const { return v == o.v; }
        bool operator!=(const Point& o) const { return v != o.v; }
        bool operator<(const Point& o) const { return v < o.v; }
        bool operator>(const Point& o) const { return v > o.v; }
        bool operator<=(const Point& o) const { return v <= o.v; }
        bool operator>=(const Point& o) const { return v >= o.v; }
    };

    template<class T> struct Table { static std::vector<T> get(bool)
    {
        typedef std::numeric_limits<T> L;
        std::vector<T> v{ L::lowest(), T(L::lowest() + T(1)), T(L::max() / T(2)), T(L::max() - T(1)), L::max(), T(0), T(1), T(2) };
        if (L::is_signed) v.push_back(T(-1));
        std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
        return v;
    } };
    char g_mem[16];
    template<> struct Table<void*> { static std::vector<void*> get(bool) { std::vector<void*> v{ nullptr }; for (char& c : g_mem) v.push_back(&c); return v; } };
    template<> struct Table<Point> { static std::vector<Point> get(bool) { return { Point{ "" }, Point{ "a" }, Point{ "aa" }, Point{ "ab" }, Point{ "b" }, Point{ "ba" }, Point{ "c" } }; } };

    template<class T> long long sizeOf(const pluto::range<T>& r) { return (long long)r.size(); }
    inline long long sizeOf(const pluto::range<Point>&) { return 0; }
    inline long long sizeOf(const pluto::range<void*>&) { return 0; }
    template<class T> T num(long v) { return (T)v; }
    template<> Point num<Point>(long) { return Point{}; }
    template<> void* num<void*>(long) { return nullptr; }

    template<class T>
    std::string go(const std::string& name, std::istringstream& in, bool id)
    {
        const std::vector<T> tab = id ? std::vector<T>() : Table<T>::get(true);
        auto val = [&](int k) { return id ? num<T>(k) : tab[(size_t)k % tab.size()]; };
        auto rank = [&](const T& t) { long v = 0; if (id) { while (!(num<T>(v) == t) && v < 100) ++v; return v; } return (long)(std::find(tab.begin(), tab.end(), t) - tab.begin()); };
        auto norm = [&](int k) { return id ? k : (int)((size_t)k % tab.size()); };
        std::map<int, std::unique_ptr<pluto::range<T>>> m;
        g_out = "{\"sc\":\"" + name + "\",\"ev\":[";
        std::string op; char b[300];
        while (in >> op)
        {
            int i = 0, j = 0, k = 0;
            sscanf(op.c_str() + 1, "%d,%d,%d", &i, &j, &k);
            switch (op[0])
            {
                case 'n': m[i].reset(new pluto::range<T>(val(j), val(k))); snprintf(b, sizeof b, "{\"e\":\"new\",\"i\":%d,\"b\":%d,\"x\":%d}", i, norm(j), norm(k)); ev(b); break;
                case 'c': m[i].reset(new pluto::range<T>(*m[j])); snprintf(b, sizeof b, "{\"e\":\"copy\",\"i\":%d,\"j\":%d}", i, j); ev(b); break;
                case 'a': *m[i] = *m[j]; snprintf(b, sizeof b, "{\"e\":\"copy\",\"i\":%d,\"j\":%d}", i, j); ev(b); break;
                case 'b': m[i]->begin = val(j); snprintf(b, sizeof b, "{\"e\":\"begin\",\"i\":%d,\"b\":%d}", i, norm(j)); ev(b); break;
                case 'e': m[i]->end = val(j); snprintf(b, sizeof b, "{\"e\":\"end\",\"i\":%d,\"x\":%d}", i, norm(j)); ev(b); break;
                case 'r': snprintf(b, sizeof b, "{\"e\":\"read\",\"i\":%d,\"b\":%ld,\"x\":%ld}", i, rank(m[i]->begin), rank(m[i]->end)); ev(b); break;
                case 's': snprintf(b, sizeof b, "{\"e\":\"size\",\"i\":%d,\"r\":%lld}", i, sizeOf(*m[i])); ev(b); break;
                case '?':
                {
                    const pluto::range<T>& r = *m[i]; const pluto::range<T>& s = *m[j];
                    snprintf(b, sizeof b, "{\"e\":\"cmp\",\"i\":%d,\"j\":%d,\"eq\":%d,\"eq2\":%d,\"ne\":%d,\"lt\":%d,\"lt2\":%d,\"gt\":%d,\"le\":%d,\"ge\":%d,\"ov\":%d,\"no\":%d}", i, j,
                        r == s, r.is_equal(s), r != s, r < s, r.is_less(s), r > s, r <= s, r >= s, r.is_overlapping(s), r.is_less_no_overlap(s));
                    ev(b); break;
                }
                case '$':
                {
                    std::vector<std::pair<pluto::range<T>, int>> v;
                    for (auto& x : m) v.emplace_back(*x.second, x.first);
                    std::sort(v.begin(), v.end(), [](const std::pair<pluto::range<T>, int>& x, const std::pair<pluto::range<T>, int>& y) { return x.first < y.first; });
                    std::string s = "{\"e\":\"sort\",\"p\":[";
                    for (auto& x : v) { if (s.back() != '[') s += ','; s += std::to_string(x.second); }
                    ev(s + "]}"); break;
                }
                default: _exit(6);
            }
        }
        return g_out + "]}";
    }

    std::string run(const std::string& name, const std::string& text)
    {
        std::istringstream in(text);
        std::string ty; in >> ty;
        bool id = ty.back() == '#';
        if (id) ty.pop_back();
        if (ty == "int") return go<int>(name, in, id);
        if (ty == "uint") return go<unsigned>(name, in, id);
        if (ty == "long") return go<long>(name, in, id);
        if (ty == "ulong") return go<unsigned long>(name, in, id);
        if (ty == "ll") return go<long long>(name, in, id);
        if (ty == "ull") return go<unsigned long long>(name, in, id);
        if (ty == "ptr") return go<void*>(name, in, id);
        if (ty == "dbl") return go<double>(name, in, id);
        if (ty == "pt") return go<Point>(name, in, id);
        _exit(6);
    }

    static_assert(std::is_same<pluto::int_range, pluto::range<int>>::value && std::is_same<pluto::uint_range, pluto::range<unsigned>>::value &&
        std::is_same<pluto::long_range, pluto::range<long>>::value && std::is_same<pluto::ulong_range, pluto::range<unsigned long>>::value &&
        std::is_same<pluto::long_long_range, pluto::range<long long>>::value && std::is_same<pluto::ulong_long_range, pluto::range<unsigned long long>>::value &&
        std::is_same<pluto::pvoid_range, pluto::range<void*>>::value, "range types");
}

int main(int argc, char** argv) { return lines::drive(argc, argv, run); }
