#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <poll.h>
#include <errno.h>
#include <algorithm>
#include <set>
#include <unordered_set>

namespace eng { uint64_t gen_seed; }
namespace eng {

namespace {
constexpr int EXIT_FAIL = 42;
constexpr size_t MAXCASE = 1 << 16;
constexpr size_t MAXLABEL = 128;

struct LabelRow { char name[48]; uint64_t n; };
struct Shard {
    volatile uint64_t current;      // index of the case being run
    volatile uint64_t done;         // cases completed
    volatile uint64_t nontrivial;
    volatile uint32_t cur_size;
    volatile int finished;
    volatile int timed_out;
    char msg[4096];
    LabelRow labels[MAXLABEL];
    uint8_t cur[MAXCASE];
};
Shard* g_sh = nullptr;              // of this process
bool g_nontrivial = false;
bool g_verbose = false;
bool g_short_limits = false;         // while shrinking; the result is confirmed with the full limits
const char* g_case_labels[MAXLABEL];
size_t g_ncase_labels = 0;
uint64_t* g_hashes = nullptr;       // per shard, hashes of non-trivial cases
size_t g_nhashes = 0, g_caphashes = 0;

double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

void add_label(const char* name, uint64_t n) {
    for (size_t i = 0; i < MAXLABEL; ++i) {
        auto& r = g_sh->labels[i];
        if (!r.name[0]) { strncpy(r.name, name, sizeof(r.name) - 1); r.n = n; return; }
        if (!strncmp(r.name, name, sizeof(r.name) - 1)) { r.n += n; return; }
    }
}

void on_alarm(int) {
    const char m[] = "hang: the case does not finish";
    if (g_sh) memcpy(g_sh->msg, m, sizeof(m));
    _exit(EXIT_FAIL);
}

void set_cpu_limit(unsigned s) {
    // CPU time for those which spin; the wall clock, much longer, for those which sleep for ever
    itimerval tv{};
    tv.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &tv, nullptr);
    tv.it_value.tv_sec = s ? (g_short_limits ? 10 : 60 + 3 * s) : 0;
    setitimer(ITIMER_REAL, &tv, nullptr);
}

void run_case(const std::string& prop, const uint8_t* d, size_t n) {
    g_nontrivial = false;
    g_ncase_labels = 0;
    set_cpu_limit(g_short_limits ? (harness.cpu_limit_s + 3) / 4 : harness.cpu_limit_s);
    // an exact size heap copy: reading out of the case is a bug of the harness
    bytes copy(d, d + n);
    harness.run(prop, copy.data(), n);
    set_cpu_limit(0);
}

uint64_t case_seed(const std::string& prop, uint64_t seed, uint64_t idx) {
    uint64_t h = fnv(prop.data(), prop.size());
    h = fnv(&seed, sizeof(seed), h);
    return fnv(&idx, sizeof(idx), h);
}

void gen_case(const std::string& prop, uint64_t seed, uint64_t idx, bytes& out) {
    gen_seed = seed;
    Rng rng(case_seed(prop, seed, idx));
    out.clear();
    harness.gen(rng, prop, idx, out);
    if (out.size() > MAXCASE) out.resize(MAXCASE);
}

Shard* map_shards(int n) {
    void* p = mmap(nullptr, sizeof(Shard) * size_t(n), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return static_cast<Shard*>(p);
}

void redirect_stderr(const std::string& path) {
    int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

std::string slurp(const std::string& path, size_t max = 6000) {
    std::string s;
    if (FILE* f = fopen(path.c_str(), "rb")) {
        s.resize(max);
        s.resize(fread(&s[0], 1, max, f));
        fclose(f);
    }
    return s;
}

std::string summarize_stderr(const std::string& s) {
    // the interesting line of a sanitizer report
    for (const char* key : {"runtime error:", "ERROR: AddressSanitizer", "SUMMARY:", "terminate called", "what():"}) {
        auto p = s.find(key);
        if (p != std::string::npos) {
            auto b = s.rfind('\n', p);
            b = b == std::string::npos ? 0 : b + 1;
            auto e = s.find('\n', p);
            return s.substr(b, e == std::string::npos ? e : e - b);
        }
    }
    return s.substr(0, 200);
}

struct Outcome { bool failed; std::string msg; std::string log; };

// run a case in a forked child
Outcome try_case(const std::string& prop, const bytes& c, const std::string& tmp) {
    static Shard* sh = map_shards(1);
    memset(sh, 0, offsetof(Shard, labels));
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(3); }
    if (pid == 0) {
        g_sh = sh;
        signal(SIGPROF, on_alarm); signal(SIGALRM, on_alarm);
        redirect_stderr(tmp);
        run_case(prop, c.data(), c.size());
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    Outcome o{false, {}, {}};
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.failed = true;
    o.log = slurp(tmp);
    if (WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAIL) o.msg = sh->msg;
    else if (WIFSIGNALED(st)) o.msg = "killed by signal " + std::to_string(WTERMSIG(st)) + ": " + summarize_stderr(o.log);
    else o.msg = "exit " + std::to_string(WEXITSTATUS(st)) + ": " + summarize_stderr(o.log);
    return o;
}

bytes shrink(const std::string& prop, bytes c, const std::string& tmp, size_t& tries) {
    const size_t H = harness.header, S = harness.op_size;
    double end = now() + 60;
    g_short_limits = true;
    tries = 0;
    auto fails = [&](const bytes& x) { ++tries; return try_case(prop, x, tmp).failed; };
    bool changed = true;
    for (int round = 0; changed && round < 6 && now() < end; ++round) {
        changed = false;
        // remove chunks of operations
        for (size_t chunk = std::max<size_t>(1, (c.size() - H) / S / 2);; chunk /= 2) {
            for (size_t i = 0; H + i * S < c.size() && now() < end;) {
                bytes x(c.begin(), c.begin() + long(H + i * S));
                size_t e = std::min(c.size(), H + (i + chunk) * S);
                x.insert(x.end(), c.begin() + long(e), c.end());
                if (x.size() < c.size() && fails(x)) { c = x; changed = true; }
                else i += chunk;
            }
            if (chunk <= 1) break;
        }
        // make bytes smaller
        for (size_t i = 0; i < c.size() && now() < end; ++i) {
            for (uint8_t v : {uint8_t(0), uint8_t(c[i] & 0x7f), uint8_t(c[i] & 0x0f), uint8_t(c[i] / 2), uint8_t(c[i] - 1)}) {
                if (v >= c[i]) continue;
                bytes x = c;
                x[i] = v;
                if (fails(x)) { c = x; changed = true; break; }
            }
        }
    }
    g_short_limits = false;
    return c;
}

std::string hex(const bytes& b) {
    std::string s;
    char t[3];
    for (auto x : b) { snprintf(t, 3, "%02x", x); s += t; }
    return s;
}

std::string jesc(const std::string& s) {
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
        else if (ch == '\n') o += "\\n";
        else if (ch < 0x20 || ch >= 0x7f) { char t[8]; snprintf(t, 8, "\\u%04x", ch); o += t; }
        else o += char(ch);
    }
    return o + "\"";
}

} // namespace

void fail(const char* fmt, ...) {
    char buf[4000];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    if (g_verbose) fprintf(stderr, "FAIL: %s\n", buf);
    if (g_sh) memcpy(g_sh->msg, buf, strlen(buf) + 1);
    _exit(EXIT_FAIL);
}

void label(const char* name) {
    for (size_t i = 0; i < g_ncase_labels; ++i) if (g_case_labels[i] == name) return;
    if (g_ncase_labels < MAXLABEL) g_case_labels[g_ncase_labels++] = name;
    if (g_sh) add_label(name, 1);
}
void count(const char* name, uint64_t n) { if (g_sh) add_label(name, n); }
void nontrivial() { g_nontrivial = true; }
bool verbose() { return g_verbose; }

static int cmd_run(const std::string& prop, uint64_t seed, uint64_t cases, int shards, const std::string& out, double maxtime) {
    double t0 = now();
    Shard* sh = map_shards(shards);
    std::vector<pid_t> pids;
    std::string tmpl = out + ".err";
    fflush(nullptr);
    for (int s = 0; s < shards; ++s) {
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); return 3; }
        if (pid == 0) {
            g_sh = &sh[s];
            signal(SIGPROF, on_alarm); signal(SIGALRM, on_alarm);
            redirect_stderr(tmpl + std::to_string(s));
            size_t per = size_t(cases / uint64_t(shards)) + 2;
            g_caphashes = per;
            g_hashes = static_cast<uint64_t*>(malloc(per * 8));
            bytes c;
            uint64_t k = 0;
            for (uint64_t i = uint64_t(s); i < cases; i += uint64_t(shards)) {
                if ((++k & 15) == 0 && now() - t0 > maxtime) { g_sh->timed_out = 1; break; }
                gen_case(prop, seed, i, c);
                g_sh->current = i;
                g_sh->cur_size = uint32_t(c.size());
                memcpy(g_sh->cur, c.data(), c.size());
                run_case(prop, c.data(), c.size());
                g_sh->done = g_sh->done + 1;
                if (g_nontrivial) {
                    g_sh->nontrivial = g_sh->nontrivial + 1;
                    if (g_nhashes < g_caphashes) g_hashes[g_nhashes++] = fnv(c.data(), c.size());
                }
            }
            if (FILE* f = fopen((out + ".h" + std::to_string(s)).c_str(), "wb")) {
                fwrite(g_hashes, 8, g_nhashes, f);
                fclose(f);
            }
            g_sh->finished = 1;
            _exit(0);
        }
        pids.push_back(pid);
    }
    int left = shards, bad = -1, badst = 0;
    bool timeout = false;
    while (left) {
        int st = 0;
        pid_t p = waitpid(-1, &st, WNOHANG);
        if (p > 0) {
            for (int s = 0; s < shards; ++s) if (pids[size_t(s)] == p) {
                pids[size_t(s)] = -1;
                --left;
                bool good = WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[s].finished;
                if (!good && bad < 0) {
                    bad = s; badst = st;
                    for (auto q : pids) if (q > 0) kill(q, SIGKILL);
                }
            }
        } else {
            if (now() - t0 > maxtime + 60 + 4.0 * harness.cpu_limit_s && !timeout) {
                timeout = true;
                for (auto q : pids) if (q > 0) kill(q, SIGKILL);
                while (left) { if (waitpid(-1, &st, 0) > 0) --left; else break; }
                break;
            }
            usleep(5000);
        }
    }
    for (int s = 0; s < shards; ++s) if (sh[s].timed_out) timeout = true;
    uint64_t done = 0, nt = 0;
    std::map<std::string, uint64_t> labels;
    for (int s = 0; s < shards; ++s) {
        done += sh[s].done; nt += sh[s].nontrivial;
        for (auto& r : sh[s].labels) if (r.name[0]) labels[r.name] += r.n;
    }
    std::unordered_set<uint64_t> distinct;
    for (int s = 0; s < shards; ++s) {
        std::string p = out + ".h" + std::to_string(s);
        if (FILE* f = fopen(p.c_str(), "rb")) {
            uint64_t h;
            while (fread(&h, 8, 1, f) == 1) distinct.insert(h);
            fclose(f);
            unlink(p.c_str());
        }
    }
    std::string js = "{\"prop\":" + jesc(prop) + ",\"seed\":" + std::to_string(seed) + ",\"cases\":" + std::to_string(cases)
        + ",\"evaluations\":" + std::to_string(done) + ",\"nontrivial\":" + std::to_string(nt)
        + ",\"distinct_nontrivial\":" + std::to_string(distinct.size()) + ",\"timeout\":" + (timeout ? "true" : "false");
    js += ",\"labels\":{";
    bool first = true;
    for (auto& [k, v] : labels) { js += (first ? "" : ",") + jesc(k) + ":" + std::to_string(v); first = false; }
    js += "},\"samples\":[";
    {
        bytes c;
        int k = 0;
        for (uint64_t i : {uint64_t(0), uint64_t(7), cases / 2}) {
            if (i >= cases) continue;
            gen_case(prop, seed, i, c);
            js += (k++ ? "," : "") + jesc("case " + std::to_string(i) + ": " + harness.describe(prop, c.data(), c.size()).substr(0, 1500));
        }
    }
    js += "]";
    int rc = 0;
    if (bad >= 0) {
        rc = 1;
        Shard& b = sh[bad];
        uint64_t idx = b.current;
        std::string log = slurp(tmpl + std::to_string(bad));
        std::string msg = b.msg[0] ? std::string(b.msg) : summarize_stderr(log);
        if (WIFSIGNALED(badst)) msg = "signal " + std::to_string(WTERMSIG(badst)) + ": " + msg;
        bytes c(b.cur, b.cur + b.cur_size);
        Outcome o = try_case(prop, c, out + ".try");
        js += ",\"failure\":{\"index\":" + std::to_string(idx) + ",\"first_msg\":" + jesc(msg);
        if (o.failed) {
            size_t tries = 0;
            bytes m = shrink(prop, c, out + ".try", tries);
            o = try_case(prop, m, out + ".try");
            if (!o.failed) { m = c; o = try_case(prop, m, out + ".try"); }
            js += ",\"kind\":\"case\",\"original\":" + jesc(hex(c)) + ",\"case\":" + jesc(hex(m)) + ",\"shrink_tries\":" + std::to_string(tries)
                + ",\"msg\":" + jesc(o.msg) + ",\"log\":" + jesc(o.log) + ",\"describe\":" + jesc(harness.describe(prop, m.data(), m.size()));
        } else {
            // needs the cases before it
            js += ",\"kind\":\"batch\",\"shards\":" + std::to_string(shards) + ",\"shard\":" + std::to_string(bad)
                + ",\"case\":" + jesc(hex(c)) + ",\"msg\":" + jesc(msg) + ",\"log\":" + jesc(log);
        }
        js += "}";
    }
    js += ",\"wall_s\":" + std::to_string(now() - t0) + "}\n";
    for (int s = 0; s < shards; ++s) unlink((tmpl + std::to_string(s)).c_str());
    unlink((out + ".try").c_str());
    FILE* f = fopen(out.c_str(), "wb");
    if (!f) { perror("open out"); return 3; }
    fwrite(js.data(), 1, js.size(), f);
    fclose(f);
    return timeout && bad < 0 ? 4 : rc;
}

static int cmd_case(const std::string& prop, const std::string& h, bool verb) {
    bytes c;
    for (size_t i = 0; i + 1 < h.size(); i += 2) c.push_back(uint8_t(strtoul(h.substr(i, 2).c_str(), nullptr, 16)));
    static Shard s;
    g_sh = &s;
    g_verbose = verb;
    signal(SIGPROF, on_alarm); signal(SIGALRM, on_alarm);
    if (verb) fprintf(stderr, "%s\n", harness.describe(prop, c.data(), c.size()).c_str());
    run_case(prop, c.data(), c.size());
    return 0;
}

static int cmd_batch(const std::string& prop, uint64_t seed, uint64_t upto, int shards, int shard) {
    static Shard s;
    g_sh = &s;
    signal(SIGPROF, on_alarm); signal(SIGALRM, on_alarm);
    g_short_limits = false;
    bytes c;
    for (uint64_t i = uint64_t(shard); i <= upto; i += uint64_t(shards)) {
        gen_case(prop, seed, i, c);
        run_case(prop, c.data(), c.size());
    }
    return 0;
}

} // namespace eng

int main(int argc, char** argv) {
    std::map<std::string, std::string> a;
    std::string cmd = argc > 1 ? argv[1] : "";
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    auto num = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
    std::string prop = a["--prop"];
    if (cmd == "run") return eng::cmd_run(prop, num("--seed", 1), num("--cases", 1000), int(num("--shards", 8)), a["--out"], double(num("--maxtime", 100000)));
    if (cmd == "case") return eng::cmd_case(prop, a["--hex"], num("--verbose", 0) != 0);
    if (cmd == "batch") return eng::cmd_batch(prop, num("--seed", 1), num("--upto", 0), int(num("--shards", 8)), int(num("--shard", 0)));
    if (cmd == "gen") {
        eng::bytes c;
        eng::Rng r(1);
        (void)r;
        for (uint64_t i = num("--from", 0); i < num("--to", 1); ++i) {
            eng::gen_case(prop, num("--seed", 1), i, c);
            printf("%s\n%s\n", eng::hex(c).c_str(), eng::harness.describe(prop, c.data(), c.size()).c_str());
        }
        return 0;
    }
    fprintf(stderr, "usage: run|case|batch|gen --prop P ...\n");
    return 3;
}
