// Interprets small programs of nested scopes, exceptions and scope guards, recording what happens.
//   {E3,7 ... }   a scope with guard 3 (E exit, S success, F fail), task 7 given to the constructor (0: empty function)
//   +3,7          add task 7 to guard 3 (0: an empty function)
//   !  throw      R  leave the scope (or task) by return      ^ rethrow (in a handler)
//   ( ... | ... ) try with handler     [ ... ] an object whose destructor runs the statements when the scope ends
//   sections: "m: ... ; k7: ... "  main program and task bodies
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include "lines.h"
#include <pluto/scope.hpp>

namespace
{
    struct Stmt { char c; char kind; int g, t; std::vector<Stmt> a, b; };
    typedef std::vector<Stmt> Body;

    std::string g_out; bool g_first; int g_throws;
    std::map<int, Body> g_tasks;
    std::map<int, pluto::on_scope_exit*> g_e;
    std::map<int, pluto::on_scope_success*> g_s;
    std::map<int, pluto::on_scope_fail*> g_f;

    void ev(const char* e, int g = 0, int t = 0, const char* k = "")
    {
        char b[160];
        snprintf(b, sizeof b, "%s{\"e\":\"%s\",\"g\":%d,\"t\":%d,\"k\":\"%s\"}", g_first ? "" : ",", e, g, t, k);
        g_first = false; g_out += b;
        if (g_out.size() > 200000) _exit(8);
    }

    bool exec(const Body& b);

    struct Weird { std::string s; };
    [[noreturn]] void throw_it()
    {
        ev("throw");
        switch (g_throws++ % 3) { case 0: throw std::runtime_error("x"); case 1: throw 42; default: throw Weird{ std::string(40, 'w') }; }
    }

    struct Task
    {
        int t;
        std::shared_ptr<int> alive;
        void operator()() const
        {
            struct Done { int t; ~Done() { ev("done", 0, t); } } done{ t };
            ev("run", 0, t);
            exec(g_tasks[t]);
        }
    };
    std::function<void()> task(int t) { return t ? std::function<void()>(Task{ t, std::make_shared<int>(t) }) : std::function<void()>(); }

    void put(std::map<int, pluto::on_scope_exit*>& m, int g, pluto::on_scope_exit* p) { m[g] = p; }
    std::map<int, pluto::on_scope_exit*>& reg(pluto::on_scope_exit*) { return g_e; }
    std::map<int, pluto::on_scope_success*>& reg(pluto::on_scope_success*) { return g_s; }
    std::map<int, pluto::on_scope_fail*>& reg(pluto::on_scope_fail*) { return g_f; }

    // Runs the statements when destroyed; nothing escapes it.
    struct AtEnd
    {
        const Body* b = nullptr;
        ~AtEnd()
        {
            if (!b) return;
            ev("enter", 0, 0, "O");
            try { exec(*b); } catch (...) { ev("caught"); }
            ev("left", 0, 0, "O");
        }
    };

    bool exec_with_ends(const Body& b, size_t i)
    {
        // statements of b from i on; every '[ ]' becomes a local object
        for (; i < b.size(); ++i)
        {
            if (b[i].c == '[')
            {
                AtEnd at; at.b = &b[i].a;
                return exec_with_ends(b, i + 1);
            }
            Body one(1, b[i]);
            if (!exec(one)) return false;
        }
        return true;
    }

    template<class G>
    void scope(const Stmt& s, const char* k)
    {
        struct Left { int g; const char* k; ~Left() { reg((G*)nullptr).erase(g); ev("left", g, 0, k); } } left{ s.g, k };
        ev("enter", s.g, s.t < 0 ? 0 : s.t, s.t < 0 ? k : k);
        std::unique_ptr<int> pad;
        struct Run
        {
            static void with(G& guard, const Stmt& s)
            {
                reg((G*)nullptr)[s.g] = &guard;
                exec_with_ends(s.a, 0);
            }
        };
        if (s.t < 0)
        {
            G guard;
            struct Leave { int g; ~Leave() { ev("leave", g); } } leave{ s.g };
            Run::with(guard, s);
        }
        else
        {
            G guard{ task(s.t) };
            ev("add", s.g, s.t);
            struct Leave { int g; ~Leave() { ev("leave", g); } } leave{ s.g };
            Run::with(guard, s);
        }
    }

    bool exec(const Body& b)
    {
        for (const Stmt& s : b)
        {
            switch (s.c)
            {
                case '{':
                    if (s.kind == 'E') scope<pluto::on_scope_exit>(s, "E");
                    else if (s.kind == 'S') scope<pluto::on_scope_success>(s, "S");
                    else scope<pluto::on_scope_fail>(s, "F");
                    break;
                case '+':
                    if (g_e.count(s.g)) g_e[s.g]->add(task(s.t));
                    else if (g_s.count(s.g)) g_s[s.g]->add(task(s.t));
                    else if (g_f.count(s.g)) g_f[s.g]->add(task(s.t));
                    else _exit(7);
                    ev("add", s.g, s.t);
                    break;
                case '!': throw_it();
                case '^': ev("throw"); throw;
                case 'R': return false;
                case '(':
                    ev("enter", 0, 0, "Y");
                    try { exec_with_ends(s.a, 0); }
                    catch (...)
                    {
                        ev("caught");
                        struct Pop { ~Pop() { ev("left", 0, 0, "Y"); } } pop;
                        exec_with_ends(s.b, 0);
                        break;
                    }
                    ev("left", 0, 0, "Y");
                    break;
                case '[': { AtEnd at; at.b = &s.a; break; }
                default: _exit(6);
            }
        }
        return true;
    }

    Body parse(const std::string& s, size_t& i, const char* stop)
    {
        Body b;
        for (; i < s.size(); ++i)
        {
            char c = s[i];
            if (c == ' ') continue;
            if (strchr(stop, c)) return b;
            Stmt st{ c, 0, 0, -1, {}, {} };
            int n = 0;
            if (c == '{')
            {
                st.kind = s[++i];
                st.g = (int)strtol(s.c_str() + i + 1, nullptr, 10);
                while (i + 1 < s.size() && isdigit(s[i + 1])) ++i;
                if (i + 1 < s.size() && s[i + 1] == ',') { st.t = atoi(s.c_str() + i + 2); ++i; while (i + 1 < s.size() && isdigit(s[i + 1])) ++i; }
                ++i;
                st.a = parse(s, i, "}");
            }
            else if (c == '(') { ++i; st.a = parse(s, i, "|"); ++i; st.b = parse(s, i, ")"); }
            else if (c == '[') { ++i; st.a = parse(s, i, "]"); }
            else if (c == '+') { sscanf(s.c_str() + i + 1, "%d,%d%n", &st.g, &st.t, &n); i += (size_t)n; }
            b.push_back(st);
        }
        return b;
    }

    std::string run(const std::string& name, const std::string& text)
    {
        g_tasks.clear(); g_e.clear(); g_s.clear(); g_f.clear(); g_throws = 0;
        Body m; std::string sec;
        for (char c : text + ";")
        {
            if (c != ';') { sec += c; continue; }
            size_t a = sec.find_first_not_of(' '), b = sec.find(':');
            if (a != std::string::npos && b != std::string::npos)
            {
                size_t i = b + 1;
                Body body = parse(sec, i, "");
                if (sec[a] == 'm') m = body; else g_tasks[atoi(sec.c_str() + a + 1)] = body;
            }
            sec.clear();
        }
        g_out = "{\"sc\":\"" + name + "\",\"ev\":["; g_first = true;
        ev("enter", 0, 0, "Y");
        try { exec_with_ends(m, 0); } catch (...) { ev("caught"); }
        ev("left", 0, 0, "Y");
        ev("end");
        return g_out + "]}";
    }
}

int main(int argc, char** argv) { return lines::drive(argc, argv, run); }
