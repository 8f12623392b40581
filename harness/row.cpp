// Default log rows and headers, level names, file names, broken-down times and identities.
//   g L            global locale (0 C, 1 en_US.UTF-8) for the streams made from here on
//   x F            stream flags left behind by the caller: 0 none, 1 hex showbase uppercase showpos, 2 left and '*' fill, 3 internal and '0' fill
//   z ZONE         time zone (POSIX TZ string)
//   r D S U N TID LEVEL FILE LINE FUNC MSG    one row: day, second of the day, microsecond, nanosecond of the entry (UTC); texts as hexadecimal bytes
//   h              the header
//   n LEVEL        the names of a level
//   b PATH         base file name
//   t D S          broken-down times
//   i K            identities of K threads
//   o N SEED       N entries logged without source information (where it is hidden), what a log writer is given
//   l N SEED       N entries logged in every way there is into a real file, with the default writers
#include <algorithm>
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <ctime>
#include <cstdint>
#include <iomanip>
#include <iostream>
#include <locale>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fake
{
    typedef std::chrono::time_point<std::chrono::system_clock, std::chrono::nanoseconds> point;
    std::atomic<long long> ns{ 0 };
    struct clock
    {
        typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period;
        typedef point time_point;
        static const bool is_steady = false;
        static time_point now() { return time_point(duration(ns.load())); }
        static std::time_t to_time_t(const time_point& t) { return std::chrono::system_clock::to_time_t(std::chrono::time_point_cast<std::chrono::system_clock::duration>(t)); }
    };
}
#define PLUTO_LOGGER_CLOCK_TYPE fake::clock

#include "lines.h"
#ifdef WITH_WHOLE
#include <pluto.hpp>
#else
#include <pluto/logger.hpp>
#endif

namespace
{
    std::string g_out, g_dir;
    int g_flags = 0;

    // One character of JSON text per byte.
    std::string quote(const std::string& s)
    {
        std::string r = "\"";
        for (char c : s)
        {
            const unsigned char u = (unsigned char)c;
            if (u < 32 || u > 126 || c == '"' || c == '\\') { char b[8]; snprintf(b, sizeof b, "\\u%04x", u); r += b; }
            else r += c;
        }
        return r + "\"";
    }
    std::string num(long long x) { char b[32]; snprintf(b, sizeof b, "%lld", x); return b; }
    std::string text(const char* n, const std::string& s) { return std::string(",\"") + n + "\":" + quote(s); }
    std::string field(const char* n, long long x) { return std::string(",\"") + n + "\":" + num(x); }
    void begin(const char* e) { if (g_out.back() != '[') g_out += ','; g_out += std::string("{\"e\":\"") + e + "\""; }
    std::string parse(const std::string& s)
    {
        std::string r; if (s == "-") return r;
        size_t i = 0; while (i < s.size()) { size_t j = s.find('.', i); if (j == std::string::npos) j = s.size(); r += (char)std::stoi(s.substr(i, j - i), nullptr, 16); i = j + 1; }
        return r;
    }
    void dirty(std::ostream& o)
    {
        if (g_flags == 1) o << std::hex << std::showbase << std::uppercase << std::showpos;
        if (g_flags == 2) o << std::left << std::setfill('*');
        if (g_flags == 3) o << std::internal << std::setfill('0');
    }
    long offset(std::time_t t) { std::tm tm{}; ::localtime_r(&t, &tm); return tm.tm_gmtoff; }
    long long floor_s(long long ns) { long long s = ns / 1000000000LL; return ns % 1000000000LL < 0 ? s - 1 : s; }
    std::string when(long long ns)
    {
        const long long s = floor_s(ns), d = s >= 0 ? s / 86400 : -((86399 - s) / 86400);
        return field("d", d) + field("s", s - d * 86400) + field("us", (ns - s * 1000000000LL) / 1000) + field("off", offset((std::time_t)s));
    }

    void row(long long ns, unsigned long long tid, int level, const std::string& file, int line, const std::string& func, const std::string& msg)
    {
        std::ostringstream o; dirty(o);
        const pluto::log_entry e(fake::point(std::chrono::nanoseconds(ns)), (std::size_t)tid, (pluto::log_level)level, pluto::source_info(file.c_str(), line, func.c_str()), msg);
        pluto::logger::default_log_writer(o, e);
        char t[32]; snprintf(t, sizeof t, "%llu", tid);
        begin("row"); g_out += when(ns) + text("tid", t) + field("level", level) + text("file", file) + text("line", num(line)) + text("func", func) + text("msg", msg) + field("hide", PLUTO_LOGGER_HIDE_SOURCE_INFO) + text("row", o.str()) + "}";
    }
    void header()
    {
        std::ostringstream o; dirty(o);
        pluto::logger::default_header_writer(o);
        begin("header"); g_out += field("hide", PLUTO_LOGGER_HIDE_SOURCE_INFO) + text("text", o.str()) + "}";
    }
    void names(int l)
    {
        const auto v = (pluto::log_level)l;
        begin("names"); g_out += field("level", l) + text("str", pluto::log_level_to_c_str(v)) + text("title", pluto::log_level_to_title(v)) + text("abbr", pluto::log_level_to_shortened(v)) + text("ch", std::string(1, pluto::log_level_to_char(v))) + "}";
    }
    void base(const std::string& p)
    {
        const std::string copy(p);
        const std::unique_ptr<char[]> x(new char[p.size() + 1]); std::memcpy(x.get(), p.c_str(), p.size() + 1);
        const char* r = pluto::file_name(x.get());
        begin("base"); g_out += text("path", p) + text("name", r) + field("at", r - x.get()) + "}";
    }
    std::string fields(const char* n, const std::tm& t)
    {
        return std::string(",\"") + n + "\":[" + num(t.tm_year + 1900) + "," + num(t.tm_mon + 1) + "," + num(t.tm_mday) + "," + num(t.tm_hour) + "," + num(t.tm_min) + "," + num(t.tm_sec) + "," + num(t.tm_wday) + "," + num(t.tm_yday) + "]";
    }
    void times(long d, long s)
    {
        const std::time_t t = (std::time_t)d * 86400 + s;
        begin("tm"); g_out += field("d", d) + field("s", s) + field("off", offset(t)) + fields("loc", pluto::local_time(t)) + fields("gm", pluto::gm_time(t)) + "}";
    }
    void identities(int k)
    {
        // k threads alive at the same time, each asking twice
        struct Answer { std::string a, b, os; int pid; };
        std::vector<Answer> r((size_t)k); std::vector<std::thread> ts; std::mutex m; std::condition_variable c; int here = 0;
        auto str = [](std::size_t x) { char b[32]; snprintf(b, sizeof b, "%zu", x); return std::string(b); };
        for (int i = 0; i < k; ++i) ts.emplace_back([&, i] {
            r[(size_t)i].a = str(pluto::thread_id()); r[(size_t)i].pid = pluto::process_id(); r[(size_t)i].os = str((size_t)::syscall(SYS_gettid));
            std::unique_lock<std::mutex> l(m); ++here; c.notify_all(); c.wait(l, [&] { return here == k; });
            r[(size_t)i].b = str(pluto::thread_id()); });
        for (auto& t : ts) t.join();
        begin("ids"); g_out += text("pid", num(pluto::process_id())) + text("real", num(::getpid())) + ",\"ids\":[";
        for (int i = 0; i < k; ++i) g_out += std::string(i ? "," : "") + "[" + quote(r[(size_t)i].a) + "," + quote(r[(size_t)i].b) + "," + quote(r[(size_t)i].os) + "," + quote(num(r[(size_t)i].pid)) + "]";
        g_out += "]}";
    }

    // What a process is told before it forks, in the child, in the child's child, and afterwards in the parent.
    struct Told { unsigned long long tid, ostid; long long pid, ospid; };
    Told ask() { return Told{ pluto::thread_id(), (unsigned long long)::syscall(SYS_gettid), (long long)pluto::process_id(), (long long)::getpid() }; }
    void forked(bool thread)
    {
        std::vector<Told> told;
        auto body = [&]
        {
            int fd[2]; if (::pipe(fd)) _exit(7);
            told.push_back(ask());
            const pid_t p = ::fork();
            if (p == 0)
            {
                Told x = ask(); if (::write(fd[1], &x, sizeof x) != (ssize_t)sizeof x) _exit(1);
                const pid_t q = ::fork();
                if (q == 0) { x = ask(); _exit(::write(fd[1], &x, sizeof x) == (ssize_t)sizeof x ? 0 : 1); }
                int st; ::waitpid(q, &st, 0); _exit(0);
            }
            ::close(fd[1]);
            Told x; while (::read(fd[0], &x, sizeof x) == (ssize_t)sizeof x) told.push_back(x);
            ::close(fd[0]); int st; ::waitpid(p, &st, 0);
            told.push_back(ask());
        };
        if (thread) std::thread(body).join(); else body();
        begin("forked"); g_out += ",\"told\":[";
        for (size_t i = 0; i < told.size(); ++i)
            g_out += std::string(i ? "," : "") + "[" + quote(std::to_string(told[i].tid)) + "," + quote(std::to_string(told[i].ostid)) + "," + quote(num(told[i].pid)) + "," + quote(num(told[i].ospid)) + "]";
        g_out += "]}";
    }

    // Entries logged in every way into a file; what is found in the file afterwards.
    struct Expect { long long ns; int level; std::string file, line, func, msg; };
    void logged(int n, unsigned seed)
    {
        const std::string path = g_dir + "/log" + num(getpid()) + ".txt";
        ::unlink(path.c_str());
        std::vector<Expect> ex;
        auto rnd = [&] { seed = seed * 1103515245u + 12345u; return (int)(seed >> 16 & 0x7fff); };
        fake::ns = 1700000000000000000LL + (long long)rnd() * 1000001LL;
        {
            pluto::logger log; log.buffer_flush_size((size_t)(1 + rnd() % 3));
            for (int i = 0; i < n; ++i)
            {
                fake::ns += (long long)rnd() * 7919001LL;
                const std::string msg = "message " + num(i); int line = 0; const char* fn = __func__; std::string file = __FILE__;
                int lv = rnd() % 9;
                switch (rnd() % 9)
                {
#define AT line = __LINE__;
                    case 0: AT PLUTO_LOG_WRITE_WITH(log, path, critical, msg); lv = 7; break;
                    case 1: AT PLUTO_LOG_WRITEF_WITH(log, path, info, "%s %d", "message", i); lv = 3; break;
                    case 2: AT PLUTO_LOG_STREAM_WITH(log, path, warning, "message " << i); lv = 5; break;
#if PLUTO_UTILS_HAS_FORMAT
                    case 3: AT PLUTO_LOG_FORMAT_WITH(log, path, trace, "message {}", i); lv = 1; break;
                    case 4: line = 123456; fn = "some_function_of_a_long_name"; { int q = i; log.format(path, (pluto::log_level)lv, pluto::source_info("/very/long/path/to/a_file_with_a_long_name.cpp", line, fn), "message {}", q); file = "to/a_file_with_a_long_name.cpp"; } break;
#endif
                    case 5: file = "f"; line = 0; fn = ""; log.write(path, (pluto::log_level)lv, pluto::source_info("dir\\f", 0, ""), msg); break;
                    case 6: file = "g.h"; line = 7; fn = "operator()"; log.writef(path, (pluto::log_level)lv, pluto::source_info("a/b\\c/g.h", 7, "operator()"), "message %d", i); break;
                    case 7: file = ""; line = -1; fn = "f"; log.stream(path, (pluto::log_level)lv, pluto::source_info("x/", -1, "f")) << "message " << i; break;
                    default: AT PLUTO_LOG_STREAM_WITH(log, path, fatal, msg); lv = 8; break;
                }
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
                (void)fn;
#endif
                ex.push_back(Expect{ fake::ns, lv, file, num(line), fn, msg });
            }
        }
        begin("written"); g_out += field("hide", PLUTO_LOGGER_HIDE_SOURCE_INFO) + text("tid", num(::syscall(SYS_gettid))) + ",\"ex\":[";
        for (size_t i = 0; i < ex.size(); ++i)
            g_out += std::string(i ? "," : "") + "{\"i\":" + num((long long)i) + when(ex[i].ns) + field("level", ex[i].level) + text("file", ex[i].file) + text("line", ex[i].line) + text("func", ex[i].func) + text("msg", ex[i].msg) + "}";
        g_out += "],\"lines\":[";
        std::ifstream in(path); std::string l; bool first = true; in.imbue(std::locale::classic());
        while (std::getline(in, l)) { g_out += (first ? "" : ",") + quote(l); first = false; }
        g_out += "]}";
        in.close(); ::unlink(path.c_str());
    }

#if PLUTO_LOGGER_HIDE_SOURCE_INFO
    void plain(int n, unsigned seed)
    {
        const std::string path = g_dir + "/log" + num(getpid()) + ".txt";
        ::unlink(path.c_str());
        auto rnd = [&] { seed = seed * 1103515245u + 12345u; return (int)(seed >> 16 & 0x7fff); };
        begin("plain"); g_out += ",\"ex\":[";
        std::string got;
        {
            pluto::logger log; log.write_header(false);
            log.log_writer([&](std::ostream& o, const pluto::log_entry& e) {
                got += std::string(got.empty() ? "" : ",") + "{\"level\":" + num((int)e.level) + text("file", e.source.file) + text("line", num(e.source.line)) + text("func", e.source.function) + text("msg", e.message) + "}";
                o << e.message; });
            for (int i = 0; i < n; ++i)
            {
                std::string msg = "message " + num(i); int lv = rnd() % 9;
                switch (rnd() % 10)
                {
                    case 0: log.write(path, (pluto::log_level)lv, msg); break;
                    case 1: log.writef(path, (pluto::log_level)lv, "message %d", i); break;
                    case 2: log.writef(path, (pluto::log_level)lv, "%s", msg.c_str()); break;
                    case 3: log.stream(path, (pluto::log_level)lv) << "message " << i; break;
                    case 4: PLUTO_LOG_WRITE_WITH(log, path, critical, msg); lv = 7; break;
                    case 5: PLUTO_LOG_WRITEF_WITH(log, path, info, "%s %d", "message", i); lv = 3; break;
                    case 6: PLUTO_LOG_STREAM_WITH(log, path, warning, "message " << i); lv = 5; break;
#if PLUTO_UTILS_HAS_FORMAT
                    case 7: log.format(path, (pluto::log_level)lv, "message {}", i); break;
                    case 8: PLUTO_LOG_FORMAT_WITH(log, path, trace, "message {}", i); lv = 1; break;
#endif
                    default: { auto&& s = log.stream(path, (pluto::log_level)lv); s << msg; s.end(); } break;
                }
                g_out += std::string(i ? "," : "") + "{\"level\":" + num(lv) + text("msg", msg) + "}";
            }
        }
        g_out += "],\"got\":[" + got + "]}";
        ::unlink(path.c_str());
    }
#endif

    std::string run(const std::string& name, const std::string& program)
    {
        std::istringstream in(program); in.imbue(std::locale::classic());
        std::string op, a, b, c; long d, s, u, n; int k; unsigned long long tid;
        g_out = "{\"sc\":\"" + name + "\",\"ev\":[";
        std::locale::global(std::locale::classic()); g_flags = 0; setenv("TZ", "UTC0", 1); tzset();
        while (in >> op)
        {
            if (op == "g") { in >> k; std::locale::global(std::locale(k ? "en_US.UTF-8" : "C")); }
            else if (op == "x") in >> g_flags;
            else if (op == "z") { in >> a; setenv("TZ", a.c_str(), 1); tzset(); }
            else if (op == "r") { long line; in >> d >> s >> u >> n >> tid >> k >> a >> line >> b >> c; row(((long long)d * 86400 + s) * 1000000000LL + u * 1000LL + n, tid, k, parse(a), (int)line, parse(b), parse(c)); }
            else if (op == "h") header();
            else if (op == "n") { in >> k; names(k); }
            else if (op == "b") { in >> a; base(parse(a)); }
            else if (op == "t") { in >> d >> s; times(d, s); }
            else if (op == "i") { in >> k; identities(k); }
            else if (op == "f") { in >> k; forked(k != 0); }
            else if (op == "o")
            {
                unsigned seed; in >> k >> seed;
#if PLUTO_LOGGER_HIDE_SOURCE_INFO
                plain(k, seed);
#endif
            }
            else if (op == "l") { unsigned seed; in >> k >> seed; logged(k, seed); }
            else _exit(6);
        }
        return g_out + "]}";
    }
}

int main(int argc, char** argv) { const char* d = getenv("SCRATCH"); g_dir = d ? d : "."; return lines::drive(argc, argv, run); }
