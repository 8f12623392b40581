// Runs histories of operations on pluto::lru_cache objects (several at a time, with copies and moves).
#include <memory>
#include <string>
#include <vector>

#include "lines.h"
#include <pluto/lru_cache.hpp>

namespace
{
    // A key ordered by something other than its identity's natural order, and not default-constructible.
    struct Odd
    {
        int v;
        explicit Odd(int x) : v(x) {}
        bool operator<(const Odd& o) const { return (v * 7) % 11 != (o.v * 7) % 11 ? (v * 7) % 11 < (o.v * 7) % 11 : v > o.v; }
    };

    template<class T> struct Conv;
    template<> struct Conv<int> { static int to(int v) { return v; } static int from(int v) { return v; } static int none() { return -1; } };
    template<> struct Conv<std::string>
    {
        static std::string to(int v) { return std::string(40, 'k') + std::to_string(v); }
        static int from(const std::string& s) { return s.empty() ? -1 : atoi(s.c_str() + 40); }
        static std::string none() { return std::string(); }
    };
    template<> struct Conv<Odd> { static Odd to(int v) { return Odd(v); } };
    template<> struct Conv<std::vector<std::string>>
    {
        static std::vector<std::string> to(int v) { return std::vector<std::string>(3, Conv<std::string>::to(v)); }
        static int from(const std::vector<std::string>& s) { return s.empty() ? -1 : Conv<std::string>::from(s.at(2)); }
        static std::vector<std::string> none() { return {}; }
    };

    template<class K, class V>
    std::string history(const std::string& name, const std::string& text)
    {
        typedef pluto::lru_cache<K, V> Cache;
        std::unique_ptr<Cache> obj[8];
        std::string out = "{\"sc\":\"" + name + "\",\"ev\":[";
        char b[200]; bool first = true;
        auto ev = [&](const char* op, int o, int k, int v, long r, long rv)
        {
            snprintf(b, sizeof b, "%s{\"e\":\"op\",\"op\":\"%s\",\"o\":%d,\"k\":%d,\"v\":%d,\"r\":%ld,\"rv\":%ld}", first ? "" : ",", op, o, k, v, r, rv);
            first = false; out += b;
        };
        for (size_t i = 0; i < text.size();)
        {
            size_t e = text.find(' ', i); if (e == std::string::npos) e = text.size();
            char c = 0; int o = 0, x = 0, y = 0;
            sscanf(text.c_str() + i, "%c%d,%d,%d", &c, &o, &x, &y);
            i = e + 1;
            if (!c || c == ' ') continue;
            auto& p = obj[o];
            switch (c)
            {
                case 'n': p.reset(new Cache((std::size_t)x)); ev("new", o, x, 0, 0, 0); break;
                case 'i': ev("insert", o, x, y, p->insert(Conv<K>::to(x), Conv<V>::to(y)), 0); break;
                case 'a': ev("assign", o, x, y, p->insert_or_assign(Conv<K>::to(x), Conv<V>::to(y)), 0); break;
                case 'g': { V v = Conv<V>::none(); bool r = p->get(Conv<K>::to(x), v); ev("get", o, x, 0, r, Conv<V>::from(v)); break; }
                case 'r': ev("remove", o, x, 0, p->remove(Conv<K>::to(x)), 0); break;
                case 'c': { const Cache& q = *p; ev("contains", o, x, 0, q.contains(Conv<K>::to(x)), 0); break; }
                case 's': { const Cache& q = *p; ev("size", o, 0, 0, (long)q.size(), 0); break; }
                case 'e': { const Cache& q = *p; ev("empty", o, 0, 0, q.empty(), 0); break; }
                case 'p': { const Cache& q = *p; ev("cap", o, 0, 0, (long)q.capacity(), 0); break; }
                case 'P': p->capacity((std::size_t)x); ev("resize", o, x, 0, 0, 0); break;
                case 'x': p->clear(); ev("clear", o, 0, 0, 0, 0); break;
                case 'C': p.reset(new Cache(*obj[x])); ev("copynew", o, x, 0, 0, 0); break;
                case 'A': *p = *obj[x]; ev("copy", o, x, 0, 0, 0); break;
                case 'M': p.reset(new Cache(std::move(*obj[x]))); ev("movenew", o, x, 0, 0, 0); break;
                case 'V': *p = std::move(*obj[x]); ev("move", o, x, 0, 0, 0); break;
                case 'd': p.reset(); ev("destroy", o, 0, 0, 0, 0); break;
                default: fprintf(stderr, "bad op %c\n", c); _exit(9);
            }
        }
        return out + "]}";
    }

    std::string run(const std::string& name, const std::string& text)
    {
        const std::string t = text.substr(1);
        switch (text[0])
        {
            case 'I': return history<int, int>(name, t);
            case 'S': return history<std::string, std::string>(name, t);
            case 'O': return history<Odd, std::vector<std::string>>(name, t);
            case 'M': return history<std::string, int>(name, t);
        }
        return "{}";
    }
}

int main(int argc, char** argv) { return lines::drive(argc, argv, run); }
