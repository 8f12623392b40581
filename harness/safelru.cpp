// Runs scenarios of concurrent operations on pluto::safe_lru_cache under the controlled scheduler.
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>

#include "vsched.h"
#include <pluto/safe_lru_cache.hpp>

namespace
{
    typedef std::vector<std::string> Prog;
    typedef pluto::safe_lru_cache<std::string, std::vector<int>> Cache;
    std::map<int, Prog>* g_progs;
    Cache*               g_cache;
    int                  g_client_of[64];

    std::string key(int k) { return std::string(20, 'q') + std::to_string(k); }
    std::vector<int> val(int v) { return std::vector<int>(3, v); }
    long back(const std::vector<int>& v)
    {
        if (v.size() != 3 || v[0] != v[1] || v[1] != v[2]) return -7;
        return v[0];
    }

    void call(const std::string& th, const char* op, int k = 0, int v = 0)
    {
        vs::ev("{\"e\":\"call\",\"th\":\"%s\",\"op\":\"%s\",\"k\":%d,\"v\":%d}", th.c_str(), op, k, v);
    }
    void ret(const std::string& th, long r = 0, long rv = 0) { vs::ev("{\"e\":\"ret\",\"th\":\"%s\",\"r\":%ld,\"rv\":%ld}", th.c_str(), r, rv); }

    void run_ops(const std::string& th, const Prog& ops);
    void client(void* p)
    {
        int k = (int)(long)p;
        char nm[16]; snprintf(nm, sizeof nm, "c%d", k);
        vs::name_thread(nm);
        run_ops(nm, (*g_progs)[k]);
    }

    void run_op(const std::string& th, const std::string& op)
    {
        char c = 0; int x = 0, y = 0;
        sscanf(op.c_str(), "%c%d,%d", &c, &x, &y);
        switch (c)
        {
            case 'n': g_cache = new Cache((std::size_t)x); vs::ev("{\"e\":\"new\",\"k\":%d}", x); break;
            case 'D': delete g_cache; break;
            case 'i': { call(th, "insert", x, y); bool r = g_cache->insert(key(x), val(y)); ret(th, r); break; }
            case 'a': { call(th, "assign", x, y); bool r = g_cache->insert_or_assign(key(x), val(y)); ret(th, r); break; }
            case 'g': { call(th, "get", x); std::vector<int> v(3, -1); bool r = g_cache->get(key(x), v); ret(th, r, back(v)); break; }
            case 'r': { call(th, "remove", x); bool r = g_cache->remove(key(x)); ret(th, r); break; }
            case 'c': { call(th, "contains", x); bool r = ((const Cache*)g_cache)->contains(key(x)); ret(th, r); break; }
            case 's': { call(th, "size"); long r = (long)((const Cache*)g_cache)->size(); ret(th, r); break; }
            case 'e': { call(th, "empty"); bool r = ((const Cache*)g_cache)->empty(); ret(th, r); break; }
            case 'p': { call(th, "cap"); long r = (long)((const Cache*)g_cache)->capacity(); ret(th, r); break; }
            case 'P': call(th, "resize", x); g_cache->capacity((std::size_t)x); ret(th); break;
            case 'x': call(th, "clear"); g_cache->clear(); ret(th); break;
            case 'X': { int id; vs::spawn(client, (void*)(long)x, &id); g_client_of[x] = id; break; }
            case 'J': vs::join(g_client_of[x]); break;
            default: vs::fail("bad_scenario");
        }
    }
    void run_ops(const std::string& th, const Prog& ops) { for (const auto& o : ops) run_op(th, o); }

    Prog words(const std::string& s)
    {
        Prog p; std::string c;
        for (char ch : s + " ") { if (ch == ' ') { if (!c.empty()) p.push_back(c); c.clear(); } else c += ch; }
        return p;
    }
    void parse(const std::string& text)
    {
        g_progs = new std::map<int, Prog>();
        std::string sec;
        for (char ch : text + ";")
        {
            if (ch != ';') { sec += ch; continue; }
            size_t a = sec.find_first_not_of(' '), b = sec.find(':');
            if (a != std::string::npos && b != std::string::npos) (*g_progs)[atoi(sec.substr(a + 1, b - a - 1).c_str())] = words(sec.substr(b + 1));
            sec.clear();
        }
    }
    void scenario(const std::string&) { run_ops("c0", (*g_progs)[0]); }
}

int main(int argc, char** argv)
{
    vs::Hooks h;
    h.scenario = scenario;
    h.before = parse;
    return vs::driver(argc, argv, h);
}
