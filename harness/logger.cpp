// Runs logger scenarios on the real pluto::logger under the controlled scheduler, with real files in a
// scratch directory (as an unprivileged user) and injected file-system failures.
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ftw.h>
#include <grp.h>
#include <map>
#include <sstream>
#include <string>
#include <sys/stat.h>
#include <unistd.h>
#include <vector>

#include "vsched.h"

static thread_local const char* t_src_file = "";
static thread_local int         t_src_line = 0;
static thread_local const char* t_src_func = "";
#define PLUTO_LOGGER_SOURCE_INFO_ARGS t_src_file, t_src_line, t_src_func
#ifdef INITIAL      // every initial setting configured
namespace pluto { struct log_entry; }
namespace { void row_writer(std::ostream&, const pluto::log_entry&); void header_writer(std::ostream&); }
#define PLUTO_LOGGER_INITIAL_LEVEL warning
#define PLUTO_LOGGER_INITIAL_CREATE_DIRS false
#define PLUTO_LOGGER_INITIAL_WRITE_HEADER false
#define PLUTO_LOGGER_INITIAL_BUFFER_MAX_SIZE 7
#define PLUTO_LOGGER_INITIAL_BUFFER_FLUSH_SIZE 3
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_SIZE 120
#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT 4
#define PLUTO_LOGGER_INITIAL_LOG_WRITER ::row_writer
#define PLUTO_LOGGER_INITIAL_HEADER_WRITER ::header_writer
#define EXPECTED "5,7,3,120,4,0,0,1"
#else
#define EXPECTED "0,0,1,0,1,1,1,1"
#endif
#include <pluto/logger.hpp>

namespace
{
    typedef std::vector<std::string> Prog;
    std::map<int, Prog>*        g_progs;
    pluto::logger*              g_log;
    int                         g_client_of[64];
    char                        g_scratch[256];
    thread_local bool           t_bypass = false;
    size_t                      g_tid_of[64];   // real thread id of the client with this scheduler id
    char                        g_tid_name[64][16];

    struct Inject { int skip, count; };
    Inject                      g_inject[4];    // pending injected failures: open, mkdir, rename, remove
    int kind_of(const char* k) { return k[0] == 'o' ? 0 : k[0] == 'm' ? 1 : k[2] == 'n' ? 2 : 3; }

    const int NFILES = 5;
    bool g_touched[NFILES];
    const char* const FILES[NFILES] = { "f0.log", "sub/dir/f1.log", "f2", "f3.a.log", "sub2/.f4" };
    std::string full(int f) { return std::string(g_scratch) + "/" + FILES[f]; }
    std::string given(int f) { return f == 2 ? std::string("f2") : full(f); }

    int which(const char* path)
    {
        std::string p(path);
        size_t s = p.rfind('/');
        std::string b = s == std::string::npos ? p : p.substr(s + 1);
        if (b.compare(0, 2, "f0") == 0) return 0;
        if (b.compare(0, 2, "f1") == 0) return 1;
        if (b.compare(0, 2, "f2") == 0) return 2;
        if (b.compare(0, 2, "f3") == 0) return 3;
        if (b.compare(0, 3, ".f4") == 0) return 4;
        if (p.find("sub2") != std::string::npos) return 4;
        if (p.find("sub") != std::string::npos) return 1;
        return -1;
    }

    bool injected(const char* kind, const char* path)
    {
        if (t_bypass || vs::tid() < 0) return false;
        vs::point();
        Inject& in = g_inject[kind_of(kind)];
        if (in.count == 0) return false;
        if (in.skip > 0) { --in.skip; return false; }
        --in.count;
        vs::ev("{\"e\":\"fsfail\",\"th\":\"%s\",\"k\":\"%s\",\"f\":%d}", vs::thread_name(), kind, which(path));
        return true;
    }

    void missing(const char* p)
    {
        const int e = errno;
        if (!t_bypass && vs::tid() >= 0 && e == ENOENT) vs::ev_again("{\"e\":\"nofile\",\"th\":\"%s\",\"f\":%d}", vs::thread_name(), which(p));
        errno = e;
    }

    template<class F> F real(const char* n) { return (F)dlsym(RTLD_NEXT, n); }

    struct Bypass { bool old; Bypass() : old(t_bypass) { t_bypass = true; } ~Bypass() { t_bypass = old; } };
}

extern "C" FILE* fopen(const char* p, const char* m)
{
    static auto r = real<FILE*(*)(const char*, const char*)>("fopen");
    if (injected("open", p)) { errno = EACCES; return nullptr; }
    FILE* f = r(p, m);
    if (!f) missing(p);
    return f;
}
extern "C" FILE* fopen64(const char* p, const char* m)
{
    static auto r = real<FILE*(*)(const char*, const char*)>("fopen64");
    if (injected("open", p)) { errno = EACCES; return nullptr; }
    FILE* f = r(p, m);
    if (!f) missing(p);
    return f;
}
extern "C" int mkdir(const char* p, mode_t m)
{
    static auto r = real<int(*)(const char*, mode_t)>("mkdir");
    if (injected("mkdir", p)) { errno = EACCES; return -1; }
    const int x = r(p, m);
    if (x == 0 && !t_bypass && vs::tid() >= 0) vs::ev("{\"e\":\"mkdir\",\"th\":\"%s\",\"f\":%d}", vs::thread_name(), which(p));
    return x;
}
extern "C" int rename(const char* a, const char* b)
{
    static auto r = real<int(*)(const char*, const char*)>("rename");
    if (injected("rename", a)) { errno = EACCES; return -1; }
    return r(a, b);
}
extern "C" int remove(const char* p)
{
    static auto r = real<int(*)(const char*)>("remove");
    if (injected("remove", p)) { errno = EACCES; return -1; }
    return r(p);
}
extern "C" int unlink(const char* p) noexcept
{
    static auto r = real<int(*)(const char*)>("unlink");
    if (injected("remove", p)) { errno = EACCES; return -1; }
    return r(p);
}

namespace
{
    const char* const SRC_FILE[3] = { "dir/alpha.cpp", "beta.cpp", "C:\\x\\gamma_with_a_rather_long_name.cpp" };
    const char* const SRC_FUNC[3] = { "run", "operator()", "a_function_with_quite_a_long_name_indeed" };

    std::string hash_of(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
        char b[48]; snprintf(b, sizeof b, "%zu:%08x", s.size(), (unsigned)(h ^ (h >> 32)));
        return b;
    }

    std::string message(int id, long len, int kind)
    {
        std::string m;
        switch (kind)
        {
            case 1: m = "100% {} {0} %d %n \\n \"quoted\" |pipe|"; break;
            case 2: m = std::string("nul\0inside\0", 11); break;
            case 3: m = "line one\nline two\r\n\ttabbed\n"; break;
            case 4: m = "  leading and trailing  "; break;
            case 5: m = "#HDR"; break;
            case 6: m = "\xC3\xA9\xE2\x82\xAC\xF0\x9F\x98\x80\xFF"; break;
            default: break;
        }
        while ((long)m.size() < len) m += (char)('a' + (m.size() * 7 + (size_t)id * 3) % 26);
        return m;
    }

    // fixed overhead row: every field has a known length
    void write_row(std::ostream& s, const pluto::log_entry& e, char mark)
    {
        char b[160];
        const long long us = std::chrono::duration_cast<std::chrono::microseconds>(e.time.time_since_epoch()).count() - vs::epoch_ns() / 1000;
        snprintf(b, sizeof b, "%c%06d|%+03d|%010zu|%012lld|%06zu|%06zu|%08zu|", mark, e.source.line, (int)e.level, e.thread_id, us,
                 strlen(e.source.file), strlen(e.source.function), e.message.size());
        s << b << e.source.file << '|' << e.source.function << '|' << e.message;
    }
    void row_writer(std::ostream& s, const pluto::log_entry& e) { write_row(s, e, 'R'); }
    void other_writer(std::ostream& s, const pluto::log_entry& e) { write_row(s, e, 'Q'); }
    const size_t ROW_FIXED = 7 + 1 + 3 + 1 + 10 + 1 + 12 + 1 + 6 + 1 + 6 + 1 + 8 + 1 + 1 + 1 + 1;
    void header_writer(std::ostream& s) { s << "#HDR"; }

    std::string slurp(const std::string& p)
    {
        std::string r; char b[65536];
        int fd = open(p.c_str(), O_RDONLY);
        if (fd < 0) return r;
        for (ssize_t n; (n = read(fd, b, sizeof b)) > 0;) r.append(b, (size_t)n);
        close(fd);
        return r;
    }

    // content -> JSON list of items; recs receives the full records
    std::string parse_content(const std::string& c, std::string& recs)
    {
        std::string out = "[";
        size_t i = 0;
        auto item = [&](const std::string& x) { if (out.size() > 1) out += ","; out += "\"" + x + "\""; };
        while (i < c.size())
        {
            if (c.compare(i, 5, "#HDR\n") == 0) { item("H"); i += 5; continue; }
            if (c[i] == 'P')
            {
                size_t nl = c.find('\n', i);
                unsigned k = 0, len = 0;
                if (nl != std::string::npos && sscanf(c.c_str() + i, "P%u:%u", &k, &len) == 2 && i + len <= c.size() && c[i + len - 1] == '\n')
                { item("P" + std::to_string(k)); i += len; continue; }
            }
            int line, lvl; size_t tid, fl, ul, ml; long long us;
            if ((c[i] == 'R' || c[i] == 'Q') && c.size() - i > 60 &&
                sscanf(c.c_str() + i + 1, "%6d|%3d|%10zu|%12lld|%6zu|%6zu|%8zu|", &line, &lvl, &tid, &us, &fl, &ul, &ml) == 7)
            {
                size_t p = i + ROW_FIXED - 3;
                if (fl < 4096 && ul < 4096 && p + fl + ul + ml + 3 <= c.size() && c[p + fl] == '|' && c[p + fl + 1 + ul] == '|' && c[p + fl + ul + ml + 2] == '\n')
                {
                    std::string f = c.substr(p, fl), u = c.substr(p + fl + 1, ul), m = c.substr(p + fl + ul + 2, ml);
                    const char* who = "?";
                    for (int k = 0; k < 64; ++k) if (g_tid_of[k] && g_tid_of[k] == tid) who = g_tid_name[k];
                    std::string r = "{\"id\":" + std::to_string(line) + ",\"lvl\":" + std::to_string(lvl) + ",\"th\":\"" + who +
                        "\",\"t\":" + std::to_string(us) + ",\"w\":" + (c[i] == 'Q' ? "1" : "0") + ",\"src\":\"" + hash_of(f + "|" + u) + "\",\"m\":\"" + hash_of(m) + "\"}";
                    if (recs.size() > 1) recs += ",";
                    recs += r;
                    item("R" + std::to_string(line));
                    i = p + fl + ul + ml + 3;
                    continue;
                }
            }
            item("garbage");
            break;
        }
        return out + "]";
    }

    void snapshot(int f)
    {
        Bypass b;
        struct Own { Own() { vs::own_work(true); } ~Own() { vs::own_work(false); } } own;
        const std::string path = full(f), base = path.substr(path.rfind('/') + 1), dir = path.substr(0, path.rfind('/'));
        const size_t dot = base.rfind('.');
        const bool ext = dot != std::string::npos && dot != 0;
        const std::string stem = ext ? base.substr(0, dot) : base, suf = ext ? base.substr(dot) : "";
        std::map<long, std::string> found; bool junk = false;
        if (DIR* d = opendir(dir.c_str()))
        {
            while (dirent* e = readdir(d))
            {
                std::string n = e->d_name;
                if (which((dir + "/" + n).c_str()) != f || n == "." || n == ".." || e->d_type == DT_DIR) continue;
                if (n == base) { found[0] = n; continue; }
                long k = -1;
                if (n.size() > stem.size() + 1 + suf.size() && n.compare(0, stem.size() + 1, stem + "_") == 0 && n.compare(n.size() - suf.size(), suf.size(), suf) == 0)
                {
                    std::string mid = n.substr(stem.size() + 1, n.size() - suf.size() - stem.size() - 1);
                    if (mid.find_first_not_of("0123456789") == std::string::npos && mid[0] != '0' && mid.size() < 7) k = atol(mid.c_str());
                }
                if (k > 0) found[k] = n; else junk = true;
            }
            closedir(d);
        }
        std::string files = "[", recs = "[";
        for (auto& p : found)
        {
            if (files.size() > 1) files += ",";
            files += "{\"i\":" + std::to_string(p.first) + ",\"items\":" + parse_content(slurp(dir + "/" + p.second), recs) + "}";
        }
        files += "]"; recs += "]";
        if (!g_touched[f] && found.empty() && !junk) return;
        std::string all = "{\"e\":\"fs\",\"f\":" + std::to_string(f) + ",\"junk\":" + (junk ? "1" : "0") + ",\"files\":" + files + ",\"recs\":" + recs + "}";
        vs::ev_raw(all);
    }

    void ret(const std::string& th, long v = 0, long v2 = 0)
    {
        vs::ev("{\"e\":\"ret\",\"th\":\"%s\",\"v\":%ld,\"ev\":%ld,\"t\":%lld}", th.c_str(), v, v2, (long long)(vs::now() / 1000));
    }
    void call(const std::string& th, const char* op, long a = 0)
    {
        vs::ev("{\"e\":\"call\",\"th\":\"%s\",\"op\":\"%s\",\"a\":%ld,\"t\":%lld}", th.c_str(), op, a, (long long)(vs::now() / 1000));
    }

    long setting(int i)
    {
        const pluto::logger& l = *g_log;
        switch (i)
        {
            case 0: return (long)l.level();
            case 1: return (long)l.buffer_max_size();
            case 2: return (long)l.buffer_flush_size();
            case 3: return (long)l.file_rotation_size();
            case 4: return (long)l.file_rotation_limit();
            case 5: return l.write_header();
            case 6: return l.create_dirs();
            default: return l.is_logging();
        }
    }
    std::string settings() { std::string r; for (int i = 0; i < 8; ++i) r += (i ? "," : "") + std::to_string(setting(i)); return r; }

    std::vector<std::string> split_args(const std::string& s)
    {
        std::vector<std::string> r; std::string c;
        for (char ch : s) { if (ch == ',') { r.push_back(c); c.clear(); } else c += ch; }
        r.push_back(c);
        return r;
    }
    void run_ops(const std::string& th, const Prog& ops);
    void client(void* p)
    {
        int k = (int)(long)p;
        char nm[16]; snprintf(nm, sizeof nm, "c%d", k);
        vs::name_thread(nm);
        run_ops(nm, (*g_progs)[k]);
    }

#define LEVEL_SWITCH(lvl, CALL) \
    switch (lvl) { \
        case -1: CALL(header); break; case 0: CALL(verbose); break; case 1: CALL(trace); break; case 2: CALL(debug); break; \
        case 3: CALL(info); break; case 4: CALL(notice); break; case 5: CALL(warning); break; case 6: CALL(error); break; \
        case 7: CALL(critical); break; case 8: CALL(fatal); break; case 9: CALL(off); break; default: break; }

    void do_log(const std::string& th, int f, int id, int lvl, long len, const std::string& api, int kind)
    {
        pluto::logger& L = *g_log;
        g_touched[f] = true;
        vs::own_work(true);
        std::string m = message(id, len, kind);
        const char* sf = SRC_FILE[id % 3]; const char* sn = SRC_FUNC[(id / 3) % 3];
        std::string expect = m;
        std::string scheme;
        if (api == "q" || api == "MQ")          // the scheme itself, with conversions escaped
        {
            for (char c : std::string(m.c_str())) { scheme += c; if (c == '%') scheme += c; }
            expect = m.c_str();
        }
        else if (api == "p" || api == "MP") expect = m.c_str();
        else if (api == "v") expect = std::to_string(id) + "-" + m.c_str() + "-" + (id % 2 ? "x" : "y");
        else if (api == "z") expect = std::to_string(id) + "%ls";      // formatting fails: the scheme is recorded
        else if (api == "g") expect = std::to_string(id) + "-" + m + "-" + (id % 2 ? "x" : "y");
        else if (api == "t" || api == "MT") expect = m + std::to_string(id) + "c" + "0.5";
        const bool macro = api[0] == 'M';
        vs::ev("{\"e\":\"call\",\"th\":\"%s\",\"op\":\"log\",\"a\":%d,\"t\":%lld,\"f\":%d,\"lvl\":%d,\"m\":\"%s\",\"src\":\"%s\",\"len\":%zu,\"api\":\"%s\",\"macro\":%d}",
               th.c_str(), id, (long long)(vs::now() / 1000), f, lvl, hash_of(expect).c_str(), hash_of(std::string(sf) + "|" + sn).c_str(),
               ROW_FIXED + strlen(sf) + strlen(sn) + expect.size(), api.c_str(), (int)macro);
        vs::own_work(false);
        const pluto::source_info si{ sf, id, sn };
        const auto lv = (pluto::log_level)lvl;
        const std::string file = given(f);
        t_src_file = sf; t_src_line = id; t_src_func = sn;
        long evals = 0;
        if (api == "w") L.write(file, lv, si, m);
        else if (api == "p") L.writef(file, lv, si, "%s", m.c_str());
        else if (api == "q") L.writef(file, lv, si, scheme.c_str());
        else if (api == "v") L.writef(file, lv, si, "%d-%s-%c", id, m.c_str(), id % 2 ? 'x' : 'y');
        else if (api == "z") { std::string bad = std::to_string(id) + "%ls"; const wchar_t* volatile wide = L"\x20AC"; L.writef(file, lv, si, bad.c_str(), wide); }
        else if (api == "f") L.format(file, lv, si, "{}", m);
        else if (api == "g") L.format(file, lv, si, "{}-{}-{}", id, m, id % 2 ? 'x' : 'y');
        else if (api == "s") { auto&& st = L.stream(file, lv, si); st << m; st.end(); }
        else if (api == "t") { auto&& st = L.stream(file, lv, si); st << m << id << 'c' << 0.5; }
        else if (api == "e") { auto&& st = L.stream(file, lv, si); vs::point(); st << m; vs::point(); st.end(); vs::point(); }
        else if (api == "d") { (void)(L.stream(file, lv, si) << m); }
#define M_W(l) PLUTO_LOG_WRITE_WITH(L, file, l, (++evals, m))
#define M_P(l) PLUTO_LOG_WRITEF_WITH(L, file, l, "%s", (++evals, m.c_str()))
#define M_Q(l) PLUTO_LOG_WRITEF_WITH(L, file, l, (++evals, scheme.c_str()))
#define M_F(l) PLUTO_LOG_FORMAT_WITH(L, file, l, "{}", (++evals, m))
#define M_S(l) PLUTO_LOG_STREAM_WITH(L, file, l, (++evals, m))
#define M_T(l) PLUTO_LOG_STREAM_WITH(L, file, l, (++evals, m) << id << 'c' << 0.5)
        else if (api == "MW") LEVEL_SWITCH(lvl, M_W)
        else if (api == "MP") LEVEL_SWITCH(lvl, M_P)
        else if (api == "MQ") LEVEL_SWITCH(lvl, M_Q)
        else if (api == "MF") LEVEL_SWITCH(lvl, M_F)
        else if (api == "MS") LEVEL_SWITCH(lvl, M_S)
        else if (api == "MT") LEVEL_SWITCH(lvl, M_T)
        else vs::fail("bad_scenario");
        ret(th, 0, evals);
    }

    void run_op(const std::string& th, const std::string& op)
    {
        g_tid_of[vs::tid()] = pluto::thread_id(); snprintf(g_tid_name[vs::tid()], 16, "%s", th.c_str());
        const char c = op[0];
        auto args = split_args(op.substr(1));
        auto num = [&](size_t i) { return i < args.size() ? atol(args[i].c_str()) : 0l; };
        auto str = [&](size_t i) { return i < args.size() ? args[i] : std::string(); };
        switch (c)
        {
            case 'N':
                g_log = new pluto::logger();
#ifndef INITIAL
                g_log->log_writer(row_writer).header_writer(header_writer);
#endif
                vs::ev("{\"e\":\"new\",\"vals\":[%s],\"exp\":[" EXPECTED "]}", settings().c_str());
                break;
            case 'D': call(th, "destroy"); delete g_log; ret(th); break;
            case 'L': do_log(th, (int)num(0), (int)num(1), (int)num(2), num(3), args.size() > 4 ? str(4) : "w", (int)num(5)); break;
#define SET(c, name, expr) case c: { call(th, name, num(0)); pluto::logger* r = &(expr); ret(th, c == 'l' ? (long)g_log->level() : 0, r != g_log); break; }
            SET('l', "level", g_log->level((pluto::log_level)num(0)))
            SET('m', "max", g_log->buffer_max_size((size_t)num(0)))
            SET('b', "flush", g_log->buffer_flush_size((size_t)num(0)))
            SET('r', "rsize", g_log->file_rotation_size((size_t)num(0)))
            SET('i', "limit", g_log->file_rotation_limit((size_t)num(0)))
            SET('h', "whdr", g_log->write_header(num(0) != 0))
            SET('d', "dirs", g_log->create_dirs(num(0) != 0))
            SET('w', "writer", g_log->log_writer(num(0) ? other_writer : row_writer).header_writer(header_writer))
            case 'y': call(th, "get", num(0)); ret(th, setting((int)num(0))); break;
            case 'Y': { call(th, "other"); vs::own_work(true); std::ostringstream o; g_log->header_writer()(o); if (o.str() != "#HDR") vs::fail("header_writer"); vs::own_work(false); ret(th); break; }
            case 'K': { Bypass b; std::string p = full((int)num(0)); for (size_t i = p.find('/', strlen(g_scratch) + 1); i != std::string::npos; i = p.find('/', i + 1)) mkdir(p.substr(0, i).c_str(), 0777); break; }
            case 'n': call(th, "discards"); ret(th, (long)g_log->num_discarded_logs()); break;
            case '0': { call(th, "reset"); pluto::logger* r = &g_log->reset_num_discarded_logs(); ret(th, 0, r != g_log); break; }
            case 's': call(th, "should", num(0)); ret(th, g_log->should_log((pluto::log_level)num(0))); break;
            case 'F': for (int f = 0; f < NFILES; ++f) if (args[0].empty() || num(0) == f) snapshot(f); break;
            case 'P':
            {
                Bypass b;
                int f = (int)num(0); long idx = num(1), len = num(2), k = num(3);
                std::string p = full(f), dir = p.substr(0, p.rfind('/'));
                for (size_t i = p.find('/', strlen(g_scratch) + 1); i != std::string::npos; i = p.find('/', i + 1)) mkdir(p.substr(0, i).c_str(), 0777);
                std::string base = p.substr(p.rfind('/') + 1); size_t dot = base.rfind('.');
                bool ext = dot != std::string::npos && dot != 0;
                std::string stem = ext ? base.substr(0, dot) : base, suf = ext ? base.substr(dot) : "";
                if (idx) p = dir + "/" + stem + "_" + std::to_string(idx) + suf;
                char hd[64]; int n = snprintf(hd, sizeof hd, "P%ld:%ld ", k, len);
                std::string content(hd, (size_t)n); while ((long)content.size() < len - 1) content += '.'; content += '\n';
                if (len == 0) content.clear();
                int fd = open(p.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
                if (write(fd, content.data(), content.size()) != (ssize_t)content.size()) vs::fail("pre");
                close(fd);
                vs::ev("{\"e\":\"pre\",\"f\":%d,\"i\":%ld,\"len\":%zu,\"k\":\"P%ld\"}", f, idx, content.size(), k);
                break;
            }
            case 'E': { Inject in{ (int)num(2), (int)num(1) }; g_inject[kind_of(args[0].c_str())] = in; break; }
            case 'H': vs::hold(); break;
            case 'Z': vs::settle(); break;
            case 'G': vs::gate_wait((int)num(0)); break;
            case 'g': vs::gate_open((int)num(0)); break;
            case 'V': vs::advance(num(0) * 1000000); break;
            case 'X': { int id; vs::spawn(client, (void*)num(0), &id); g_client_of[num(0)] = id; break; }
            case 'J': vs::join(g_client_of[num(0)]); break;
            default: vs::fail("bad_scenario");
        }
    }
    void run_ops(const std::string& th, const Prog& ops) { for (const auto& o : ops) run_op(th, o); }

    Prog words(const std::string& s)
    {
        Prog p; std::string c;
        for (char ch : s + " ") { if (ch == ' ') { if (!c.empty()) p.push_back(c); c.clear(); } else c += ch; }
        return p;
    }

    void before(const std::string& text)
    {
        g_progs = new std::map<int, Prog>();
        std::string sec;
        for (char ch : text + ";")
        {
            if (ch != ';') { sec += ch; continue; }
            size_t a = sec.find_first_not_of(' '), b = sec.find(':');
            if (a != std::string::npos && b != std::string::npos) (*g_progs)[atoi(sec.substr(a + 1, b - a - 1).c_str())] = words(sec.substr(b + 1));
            sec.clear();
        }
        if (getuid() == 0) { if (setgroups(0, nullptr) || setgid(65534) || setuid(65534)) _exit(73); }
        if (chdir(g_scratch)) _exit(74);
        umask(0);
        setenv("TZ", "UTC", 1);
    }

    int rm_one(const char* p, const struct stat*, int, struct FTW* f)
    {
        if (f->level > 0 && strncmp(p, g_scratch, strlen(g_scratch)) == 0) { t_bypass = true; ::remove(p); t_bypass = false; }
        return 0;
    }
    void wipe() { nftw(g_scratch, rm_one, 16, FTW_DEPTH | FTW_PHYS); }
    void at_end() { wipe(); rmdir(g_scratch); }

    void setup(int)
    {
        snprintf(g_scratch, sizeof g_scratch, "%s/plutolog.XXXXXX", access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp");
        if (!mkdtemp(g_scratch) || chmod(g_scratch, 0777)) { perror("scratch"); exit(75); }
        atexit(at_end);
    }
    void scenario(const std::string&) { run_ops("c0", (*g_progs)[0]); }
}

int main(int argc, char** argv)
{
    vs::Hooks h;
    h.scenario = scenario; h.before = before; h.setup = setup; h.after = wipe;
    return vs::driver(argc, argv, h);
}
