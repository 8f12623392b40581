// Runs thread-pool scenarios on the real pluto::thread_pool under the controlled scheduler.
#include <chrono>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "vsched.h"
#include <pluto/thread_pool.hpp>

namespace
{
    typedef std::vector<std::string> Prog;
    std::map<int, Prog>*    g_progs;
    std::map<int, Prog>*    g_tasks;
    pluto::thread_pool*     g_pool;
    int                     g_client_of[64];

    // Counts live copies of the state captured by a task, to see tasks outlive the pool.
    struct Task
    {
        int id;
        void operator()() const;
    };

    void run_ops(const std::string& th, const Prog& ops);

    void Task::operator()() const
    {
        char old[16]; snprintf(old, sizeof old, "%s", vs::thread_name());
        char nm[16]; snprintf(nm, sizeof nm, "k%d", id);
        vs::name_thread(nm);
        vs::ev("{\"e\":\"start\",\"id\":%d}", id);
        vs::point();
        auto it = g_tasks->find(id);
        if (it != g_tasks->end()) run_ops(nm, it->second);
        vs::ev("{\"e\":\"end_task\",\"id\":%d}", id);
        vs::point();
        vs::name_thread(old);
    }

    void call(const std::string& th, const char* op, int id = 0, int pr = 0, long a = 0)
    {
        vs::ev("{\"e\":\"call\",\"th\":\"%s\",\"op\":\"%s\",\"id\":%d,\"pr\":%d,\"a\":%ld}", th.c_str(), op, id, pr, a);
    }
    void ret(const std::string& th, long v = 0) { vs::ev("{\"e\":\"ret\",\"th\":\"%s\",\"v\":%ld}", th.c_str(), v); }

    std::vector<std::string> split_args(const std::string& s)
    {
        std::vector<std::string> r; std::string c;
        for (char ch : s) { if (ch == ',') { r.push_back(c); c.clear(); } else c += ch; }
        r.push_back(c);
        return r;
    }

    struct Pr { char kind; int value; };    // 'd' default, 'n' number, 'e' enumerator
    Pr parse_pr(const std::string& s, int dflt)
    {
        if (s == "d") return { 'd', dflt };
        if (s[0] == 'e') return { 'e', atoi(s.c_str() + 1) };
        return { 'n', atoi(s.c_str()) };
    }

    void client(void* p)
    {
        int k = (int)(long)p;
        char nm[16]; snprintf(nm, sizeof nm, "c%d", k);
        vs::name_thread(nm);
        run_ops(nm, (*g_progs)[k]);
    }

    using clk = pluto::thread_pool::clock_type;
    clk::time_point at(long ms)
    {
        return clk::time_point(std::chrono::duration_cast<clk::duration>(std::chrono::nanoseconds(vs::epoch_ns() + ms * 1000000)));
    }

    void run_op(const std::string& th, const std::string& op)
    {
        const char c = op[0];
        const std::string rest = op.substr(1);
        auto args = split_args(rest);
        auto num = [&](size_t i) { return i < args.size() ? atol(args[i].c_str()) : 0l; };
        pluto::thread_pool& pool = *g_pool;
        switch (c)
        {
            case 'N':
                g_pool = new pluto::thread_pool((std::size_t)num(0));
                vs::ev("{\"e\":\"new\",\"n\":%ld}", num(0));
                break;
            case 'D':
                call(th, "destroy");
                delete g_pool;
                ret(th);
                break;
            case 'A':
            {
                int id = (int)num(0); Pr p = parse_pr(args.size() > 1 ? args[1] : "d", 0);
                call(th, "async", id, p.value);
                if (p.kind == 'd') pool.run_async(Task{ id });
                else if (p.kind == 'e') pool.run_async(Task{ id }, (pluto::thread_pool::priority)p.value);
                else pool.run_async(Task{ id }, (signed char)p.value);
                ret(th);
                break;
            }
            case 'S':
            {
                int id = (int)num(0); Pr p = parse_pr(args.size() > 1 ? args[1] : "d", 32);
                call(th, "sync", id, p.value);
                if (p.kind == 'd') pool.run_sync(Task{ id });
                else if (p.kind == 'e') pool.run_sync(Task{ id }, (pluto::thread_pool::priority)p.value);
                else pool.run_sync(Task{ id }, (signed char)p.value);
                ret(th);
                break;
            }
            case '@':
            {
                int id = (int)num(0); Pr p = parse_pr(args[1], 0); long t = num(2);
                call(th, "at", id, p.value, t * 1000);
                if (p.kind == 'd') pool.run_at(at(t), Task{ id });
                else if (p.kind == 'e') pool.run_at(at(t), Task{ id }, (pluto::thread_pool::priority)p.value);
                else pool.run_at(at(t), Task{ id }, (signed char)p.value);
                ret(th);
                break;
            }
            case '+':
            {
                int id = (int)num(0); Pr p = parse_pr(args[1], 0); long t = num(2);
                call(th, "after", id, p.value, t * 1000);
                const auto d = std::chrono::milliseconds(t);
                if (p.kind == 'd') pool.run_after(d, Task{ id });
                else if (p.kind == 'e') pool.run_after(d, Task{ id }, (pluto::thread_pool::priority)p.value);
                else pool.run_after(d, Task{ id }, (signed char)p.value);
                ret(th);
                break;
            }
            case 'R': call(th, "resize", 0, 0, num(0)); pool.target_workers_size((std::size_t)num(0)); ret(th); break;
            case 'O': call(th, "setstop", 0, 0, num(0)); pool.on_stop(num(0) ? pluto::thread_pool::action::complete_tasks : pluto::thread_pool::action::join_all); ret(th); break;
            case 'W': call(th, "waitidle"); pool.wait_until_no_tasks_waiting(); ret(th); break;
            case 'C': call(th, "waitall"); pool.wait_until_all_tasks_complete(); ret(th); break;
            case 'q':
            {
                long v = 0;
                switch (rest[0])
                {
                    case 'w': call(th, "workers"); v = (long)pool.workers_size(); break;
                    case 't': call(th, "target"); v = (long)pool.target_workers_size(); break;
                    case 'a': call(th, "active"); v = (long)pool.active_workers_size(); break;
                    case 'i': call(th, "idle"); v = (long)pool.waiting_workers_size(); break;
                    case 'n': call(th, "tasks"); v = (long)pool.tasks_size(); break;
                    case 'x': call(th, "atasks"); v = (long)pool.active_tasks_size(); break;
                    case 'p': call(th, "wtasks"); v = (long)pool.waiting_tasks_size(); break;
                    case 's': call(th, "sched"); v = (long)pool.scheduled_tasks_size(); break;
                    case 'o': call(th, "onstop"); v = (pool.on_stop() == pluto::thread_pool::action::complete_tasks); break;
                }
                if (v > 1000000 || v < -1000000) v = -999999;
                ret(th, v);
                break;
            }
            case 'H': vs::hold(); break;
            case 'Z': vs::settle(); break;
            case 'G': vs::gate_wait((int)num(0)); break;
            case 'g': vs::gate_open((int)num(0)); break;
            case 'V': vs::advance(num(0) * 1000000); break;
            case 'B': vs::sleep_until(num(0) * 1000000); break;
            case 'X': { int id; vs::spawn(client, (void*)num(0), &id); g_client_of[num(0)] = id; break; }
            case 'J': vs::join(g_client_of[num(0)]); break;
            default: vs::fail("bad_scenario");
        }
    }

    void run_ops(const std::string& th, const Prog& ops) { for (const auto& o : ops) run_op(th, o); }

    Prog words(const std::string& s)
    {
        Prog p; std::string c;
        for (char ch : s + " ") { if (ch == ' ') { if (!c.empty()) p.push_back(c); c.clear(); } else c += ch; }
        return p;
    }

    // text:  section ; section ; ...   with section "c<k>: ops" or "k<id>: ops"
    void parse(const std::string& text)
    {
        g_progs = new std::map<int, Prog>(); g_tasks = new std::map<int, Prog>();
        std::string sec;
        for (char ch : text + ";")
        {
            if (ch != ';') { sec += ch; continue; }
            size_t a = sec.find_first_not_of(' '), b = sec.find(':');
            if (a != std::string::npos && b != std::string::npos)
            {
                int k = atoi(sec.substr(a + 1, b - a - 1).c_str());
                ((sec[a] == 'c') ? *g_progs : *g_tasks)[k] = words(sec.substr(b + 1));
            }
            sec.clear();
        }
    }

    void scenario(const std::string&) { run_ops("c0", (*g_progs)[0]); }
}

int main(int argc, char** argv)
{
    vs::Hooks h;
    h.scenario = scenario;
    h.before = parse;
    return vs::driver(argc, argv, h);
}
