// Runs histories of operations on pluto::stopwatch with a clock that advances a given amount at each reading.
#include <chrono>
#include <ctime>
#include <string>

#include "lines.h"

namespace
{
    long long g_now = 0, g_tick = 0;
    bool g_real = true;
    long long read_clock() { long long t = g_now; g_now += g_tick; return t; }
    struct manual_clock
    {
        typedef std::chrono::nanoseconds duration;
        typedef duration::rep rep;
        typedef duration::period period;
        typedef std::chrono::time_point<manual_clock> time_point;
        static constexpr bool is_steady = true;
        static time_point now() noexcept { return time_point(duration(read_clock())); }
    };
}

#ifdef MANUAL
#define PLUTO_STOPWATCH_CLOCK_TYPE manual_clock
#else
extern "C" int clock_gettime(clockid_t, struct timespec* ts) noexcept
{
    long long t = read_clock();
    ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
    return 0;
}
#endif
#include <pluto/stopwatch.hpp>

namespace
{
    std::string run(const std::string& name, const std::string& text)
    {
        std::string out = "{\"sc\":\"" + name + "\",\"ev\":[";
        bool first = true; char b[400];
        pluto::stopwatch* w = nullptr;
        g_now = 1000; g_tick = 0;
        auto pair = [](long long v, long long unit, char* o) { snprintf(o, 64, "[%lld,%lld]", v / unit, v % unit); };
        auto ev = [&](const char* op, long long t0, const std::string& extra)
        {
            snprintf(b, sizeof b, "%s{\"e\":\"%s\",\"from\":[%lld,%lld],\"to\":[%lld,%lld]%s}", first ? "" : ",", op, t0 / 1000000000, t0 % 1000000000,
                     (g_now - (g_now > t0 ? g_tick : 0)) / 1000000000, (g_now - (g_now > t0 ? g_tick : 0)) % 1000000000, extra.c_str());
            first = false; out += b;
        };
        for (size_t i = 0; i < text.size();)
        {
            size_t e = text.find(' ', i); if (e == std::string::npos) e = text.size();
            std::string op = text.substr(i, e - i); i = e + 1;
            if (op.empty()) continue;
            const long long arg = op.size() > 1 ? atoll(op.c_str() + 1) : 0, t0 = g_now;
            char p[64];
            auto value = [&](const char* unit, long long v, long long scale)
            {
                pair(v, scale, p);
                ev("read", t0, std::string(",\"u\":\"") + unit + "\",\"v\":" + p);
            };
            static pluto::stopwatch none; const pluto::stopwatch& c = w ? *w : none;
            switch (op[0])
            {
                case 'N': delete w; w = arg == 2 ? new pluto::stopwatch() : new pluto::stopwatch(arg == 1); ev(arg == 1 ? "new1" : "new0", t0, ""); break;
                case 'T': g_tick = arg; break;
                case '+': g_now += arg; break;
                case 's': w->start(); ev("start", t0, ""); break;
                case 'p': w->stop(); ev("stop", t0, ""); break;
                case 'r': w->reset(); ev("reset", t0, ""); break;
                case 'R': w->restart(); ev("restart", t0, ""); break;
                case 'S': { long long v = (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(w->stop_and_time()).count(); pair(v, 1000000000, p); ev("stoptime", t0, std::string(",\"v\":") + p); break; }
                case 'i': { bool v = c.is_running(); ev("running", t0, v ? ",\"v\":[1,0]" : ",\"v\":[0,0]"); break; }
                case 't': value("time", (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(c.time()).count(), 1000000000); break;
                case 'a': value("ns", (long long)c.in_nanoseconds(), 1000000000); break;
                case 'b': value("us", (long long)c.in_microseconds(), 1000000); break;
                case 'c': value("ms", (long long)c.in_milliseconds(), 1000); break;
                case 'd': value("s", (long long)c.in_seconds(), 1); break;
                case 'e': value("m", (long long)c.in_minutes(), 1); break;
                case 'f': value("h", (long long)c.in_hours(), 1); break;
                case 'A': value("nsp", (long long)c.nanoseconds_part(), 1000); break;
                case 'B': value("usp", (long long)c.microseconds_part(), 1000); break;
                case 'C': value("msp", (long long)c.milliseconds_part(), 1000); break;
                case 'D': value("sp", (long long)c.seconds_part(), 1); break;
                case 'E': value("mp", (long long)c.minutes_part(), 1); break;
                case 'F': value("hp", (long long)c.hours_part(), 1); break;
                case 'g': value("s", (long long)c.count<std::chrono::seconds>(), 1); break;
                case 'G': value("ms", (long long)c.count<std::chrono::milliseconds>(), 1000); break;
                case 'h': value("us", (long long)c.count<std::chrono::microseconds>(), 1000000); break;
                case 'H': value("s7", (long long)c.count<std::chrono::seconds>(7), 1); break;
                case 'y': { pluto::stopwatch x(*w); delete w; w = new pluto::stopwatch(); *w = x; break; }    // a copy carries on
                case 'w': // every unit and part of one moment
                {
                    long long keep = g_tick; g_tick = 0;
                    snprintf(b, sizeof b, "%s{\"e\":\"parts\",\"from\":[%lld,%lld],\"to\":[%lld,%lld],\"h\":%lld,\"mi\":%lld,\"s\":%lld,\"ms\":%lld,\"us\":%lld,\"ns\":%lld}", first ? "" : ",",
                             g_now / 1000000000, g_now % 1000000000, g_now / 1000000000, g_now % 1000000000, (long long)c.hours_part(), (long long)c.minutes_part(), (long long)c.seconds_part(),
                             (long long)c.milliseconds_part(), (long long)c.microseconds_part(), (long long)c.nanoseconds_part());
                    first = false; out += b;
                    g_tick = keep;
                    break;
                }
                default: _exit(9);
            }
        }
        delete w;
        return out + "]}";
    }
}

int main(int argc, char** argv) { return lines::drive(argc, argv, run); }
