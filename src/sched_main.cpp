// Programs of several threads under generated schedules: C07, C12, C13, C14, C15, C21.
#include "sched.hpp"
#include <sys/single_threaded.h>

namespace sc {
const char* op_name(int c) {
    static const char* n[] = {"copy", "move", "reset", "swap", "weak from", "weak copy", "weak move", "weak reset", "lock", "shared_from_this", "weak_from_this", "alias", "to base", "cast down", "use", "write", "new", "load", "store", "exchange", "compare_exchange", "count", "lock shared weak", "copy shared pointer", "ask the object which stays", "owner with another address", "weak to base", "weak to virtual base"};
    static_assert(sizeof(n) / sizeof(n[0]) == NOPS);
    return n[c % NOPS];
}
} // namespace sc
using namespace sc;

namespace {
using W = std::vector<std::pair<uint8_t, int>>;
const W& weights(const std::string& p) {
    static const W all{{COPY, 6}, {MOVE, 4}, {RESET, 9}, {SWAP, 1}, {WEAK, 3}, {WCOPY, 1}, {WMOVE, 1}, {WRESET, 4}, {LOCK, 5}, {SELF, 2}, {WSELF, 2}, {ALIAS, 2}, {BASE, 2}, {DOWN, 1}, {USE, 4}, {WRITE, 4}, {NEW, 2}, {LOAD, 2}, {STORE, 2}, {XCHG, 2}, {CAS, 2}, {COUNT, 1}, {GLOCK, 2}, {GCOPY, 2}, {POOL, 1}, {XALIAS, 1}, {WBASE, 2}, {WVIRT, 3}};
    static const W locks{{COPY, 3}, {MOVE, 1}, {RESET, 8}, {WEAK, 2}, {WCOPY, 1}, {WRESET, 2}, {LOCK, 12}, {SELF, 3}, {WSELF, 2}, {USE, 3}, {WRITE, 2}, {COUNT, 1}, {GLOCK, 5}, {POOL, 6}, {WBASE, 3}, {WVIRT, 6}, {ALIAS, 1}, {BASE, 1}};
    static const W cells{{LOAD, 7}, {STORE, 6}, {XCHG, 6}, {CAS, 9}, {NEW, 3}, {RESET, 4}, {USE, 4}, {WRITE, 2}, {COPY, 2}, {GCOPY, 1}, {XALIAS, 1}};
    return p == "C13" ? locks : p == "C12" || p == "C07" ? all : cells;
}
// ---- small programs with all schedules of few switches ----
// A property followed by 'e': case number i is one of all programs of two threads with two operations of a short list each, after which
// both drop what they have, with all schedules of up to two preemptions (then three threads with one operation each and three preemptions).
// The numbers are visited in a scattered order, so that a part of them is spread over all.
struct Tok { uint8_t op, a, b, c; };
const Tok life[] = {{USE, 0, 0, 0}, {RESET, 0, 0, 1}, {COPY, 1, 0, 0}, {MOVE, 1, 0, 0}, {LOCK, 1, 0, 1}, {WRESET, 0, 0, 1}, {WEAK, 1, 0, 0}, {SELF, 1, 0, 0}, {WVIRT, 0, 0, 0}, {WVIRT, 0, 0, 3}, {GLOCK, 1, 0, 0}, {BASE, 0, 0, 1}, {WRITE, 0, 0, 0}, {LOAD, 1, 0, 0}, {STORE, 1, 0, 0}, {WSELF, 1, 0, 0}};
const Tok weak[] = {{USE, 0, 0, 0}, {RESET, 0, 0, 1}, {LOCK, 1, 0, 1}, {LOCK, 0, 0, 0}, {WRESET, 0, 0, 1}, {COPY, 1, 0, 0}, {WVIRT, 0, 0, 0}, {WVIRT, 0, 0, 7}, {GLOCK, 1, 0, 0}, {POOL, 1, 0, 0}, {POOL, 1, 1, 0}, {RESET, 2, 0, 1}};
const Tok cell[] = {{LOAD, 2, 0, 0}, {STORE, 0, 0, 0}, {STORE, 1, 0, 1}, {STORE, 2, 0, 1}, {XCHG, 0, 0, 1}, {XCHG, 2, 0, 0}, {CAS, 0, 0, 1}, {CAS, 1, 0, 2}, {CAS, 0, 0, 2}, {NEW, 1, 0, 0}, {RESET, 0, 0, 1}, {RESET, 2, 0, 1}};
const Tok plain[] = {{C_INC, 0, 0, 0}, {C_DEC, 0, 0, 0}, {C_INCNZ, 0, 0, 0}, {C_COUNT, 0, 0, 0}};
// both own the only object; or each owns one and observes that of the other (made in the four ways, one also stored); or both own both
const uint8_t worlds_life[][PHEAD] = {{0, 0, 0, 0, 0, 0, 0, 0x80}, {0, 1, 0, 0, 0, 0, 0, 0}, {0, 1, 0, 0, 1, 0, 0, 0}, {0, 1, 0, 0, 2, 0, 0, 0x10}, {0, 1, 0, 0, 3, 0, 0, 0x20}, {0, 1, 0, 0, 0, 0x0A, 0, 0x60}};
// bytes 2 and 3: what the destructors do
const uint8_t worlds_cell[][PHEAD] = {{0, 1, 0, 0, 0, 0, 0, 0x20}, {0, 1, 0, 0, 0, 0x09, 0, 0x20}, {0, 1, 0x55, 0, 0, 0, 0, 0x20}, {0, 1, 0xAA, 2, 2, 0, 0, 0x20}, {0, 1, 0xFF, 2, 3, 0, 0, 0x20}, {0, 0, 0xAA, 0, 1, 0, 0, 0x20}};
struct Space {
    const Tok* t; uint64_t nt; const uint8_t (*w)[PHEAD]; uint64_t nw; uint64_t k2, k3;
    uint64_t two() const { return nt * nt * nt * nt * nw * k2 * k2; }
    uint64_t three() const { return nt * nt * nt * nw * k3 * k3 * k3 * 8; }
};
Space space_of(const std::string& p) {
    if (p[1] == '1' && p[2] == '3') return {weak, sizeof(weak) / sizeof(Tok), worlds_life, 6, 12, 8};
    if (p == "C21") return {cell, sizeof(cell) / sizeof(Tok), worlds_cell + 2, 4, 14, 8};
    if (p == "C14") return {cell, sizeof(cell) / sizeof(Tok), worlds_cell, 6, 14, 8};
    if (p == "C15") return {plain, 4, nullptr, 9, 8, 6};
    return {life, sizeof(life) / sizeof(Tok), worlds_life, 6, 12, 8};
}
void gen_small(const std::string& prop, uint64_t idx, eng::bytes& out) {
    Space s = space_of(prop);
    uint64_t total = s.two() + s.three(), step = 0x9E3779B1;
    for (;; step += 2) { uint64_t a = step, b = total; while (b) { uint64_t c = a % b; a = b; b = c; } if (a == 1) break; }
    uint64_t j = uint64_t((unsigned __int128)step * ((idx + eng::gen_seed * 7919117) % total) % total);
    bool three = j >= s.two();
    if (three) j -= s.two();
    auto pick = [&](uint64_t n) { uint64_t x = j % n; j /= n; return x; };
    uint8_t h[HEAD] = {};
    for (int i = 0; i < 8; ++i) h[8 + 2 * i] = 255;
    int nt = three ? 3 : 2;
    if (three) for (int i = 0; i < 3; ++i) { h[8 + 2 * i] = uint8_t(pick(s.k3)); h[9 + 2 * i] = uint8_t(pick(2)); }
    else for (int i = 0; i < 2; ++i) h[8 + 2 * i] = uint8_t(pick(s.k2));
    uint8_t* w = h + rt::HEADER;
    uint64_t wi = pick(s.nw);
    if (s.w) for (size_t i = 0; i < PHEAD; ++i) w[i] = s.w[wi][i];
    else w[1] = uint8_t(wi % 3 | (wi / 3) << 2);        // C15: 0 to 2 for each of the first two
    w[0] = uint8_t(nt - 2);
    out.insert(out.end(), h, h + HEAD);
    auto add = [&](int t, const Tok& k) { uint8_t o[OPSZ] = {uint8_t(t), k.op, k.a, k.b, k.c, uint8_t(t)}; out.insert(out.end(), o, o + OPSZ); };
    int each = three ? 1 : 2;
    for (int t = 0; t < nt; ++t) for (int i = 0; i < each; ++i) add(t, s.t[pick(s.nt)]);
    if (s.t == plain) return;
    for (int t = 0; t < nt; ++t) { add(t, {RESET, 0, 0, 1}); add(t, {RESET, 1, 0, 1}); if (s.t == cell) add(t, {RESET, 2, 0, 1}); else add(t, {WRESET, 0, 0, 1}); }
}
void gen(eng::Rng& r, const std::string& full, uint64_t idx, eng::bytes& out) {
    std::string prop = full.substr(0, 3);
    if (full.size() > 3) { gen_small(prop, idx, out); return; }
    uint8_t h[HEAD];
    for (auto& b : h) b = r.byte();
    static const uint8_t sw[] = {6, 20, 60, 120, 200}, wk[] = {0, 0, 20, 120}, stl[] = {0, 0, 60, 160};
    h[0] = uint8_t((h[0] & 1) | (prop == "C14" || prop == "C21" ? h[0] & 2 : 0));
    h[5] = sw[r.below(5)]; h[6] = wk[r.below(4)]; h[7] = stl[r.below(4)];
    uint32_t span = r.chance(1, 2) ? 12 : 40;
    for (int i = 0; i < 8; ++i) { h[8 + 2 * i] = uint8_t(r.below(span)); h[9 + 2 * i] = uint8_t(r.below(6)); }
    uint8_t* w = h + rt::HEADER;
    if (r.chance(1, 2)) w[0] = 0;                    // two threads
    if (w[0] / 3 >= 80 && r.chance(3, 4)) w[0] %= 3; // very large crowds take time
    if (r.chance(1, 2)) w[1] = 0;                    // one object
    if (prop == "C14" || prop == "C21") w[7] |= uint8_t(32 | (r.byte() & 64));
    if (prop == "C13" && r.chance(1, 2)) w[5] &= r.byte();   // few owners
    out.insert(out.end(), h, h + HEAD);
    int nthreads = threads_of(w);
    auto add = [&](int t, uint8_t op) {
        uint8_t o[OPSZ];
        for (auto& b : o) b = r.byte();
        o[0] = uint8_t(t); o[1] = op;
        for (int i = 2; i < 5; ++i) o[i] = uint8_t(r.chance(1, 4) ? o[i] : o[i] % 6);
        if (r.chance(1, 3)) o[2] = 0;
        if (r.chance(1, 3)) o[3] = 0;
        out.insert(out.end(), o, o + OPSZ);
    };
    if (prop == "C15") {
        int n = int(r.range(3, 14));
        for (int i = 0; i < n; ++i) { static const uint8_t k[] = {C_INC, C_DEC, C_DEC, C_DEC, C_INCNZ, C_INCNZ, C_COUNT}; add(int(r.below(uint32_t(nthreads))), k[r.below(7)]); }
        return;
    }
    auto& ws = weights(prop);
    int total = 0;
    for (auto& x : ws) total += x.second;
    int fav = r.chance(1, 2) ? ws[r.below(uint32_t(ws.size()))].first : -1;
    int n = int(r.chance(2, 3) ? r.range(3, 12) : r.range(8, 28));
    for (int i = 0; i < n; ++i) {
        uint8_t op = 0;
        if (fav >= 0 && r.chance(1, 3)) op = uint8_t(fav);
        else { int x = int(r.below(uint32_t(total))); for (auto& y : ws) { x -= y.second; if (x < 0) { op = y.first; break; } } }
        add(int(r.below(uint32_t(nthreads))), op);
    }
    if (r.chance(2, 3)) {  // in the end everyone drops what it has
        int k = int(r.range(1, 3));
        for (int j = 0; j < k; ++j) for (int t = 0; t < nthreads; ++t) { add(t, RESET); out[out.size() - OPSZ + 2] = uint8_t(j); }
    }
}
// ---- is there an order of the operations one at a time? ----
struct Lin {
    eng::hvec<const SEv*> ops;
    eng::hvec<uint64_t> before;      // for each operation: those which come before it
    uint64_t fin_p, fin_k;
    struct Seen { uint64_t mask, p, k; };
    eng::hvec<Seen> seen;
    uint64_t budget = 400000;
    bool go(uint64_t done, uint64_t p, uint64_t k) {
        size_t n = ops.size();
        if (done == (n == 64 ? ~0ull : (1ull << n) - 1)) return p == fin_p && k == fin_k;
        for (auto& s : seen) if (s.mask == done && s.p == p && s.k == k) return false;
        if (budget-- == 0) { eng::count("undecided"); budget = 1; return true; }
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1 || (before[i] & ~done)) continue;
            auto& e = *ops[i];
            uint64_t np = p, nk = k;
            switch (e.kind) {
            case E_LOAD: if (e.res_p != p || e.res_k != k) continue; break;
            case E_STORE: np = e.arg_p; nk = e.arg_k; break;
            case E_XCHG: if (e.res_p != p || e.res_k != k) continue; np = e.arg_p; nk = e.arg_k; break;
            default:
                if (e.ok) { if (p != e.exp_p) continue; np = e.arg_p; nk = e.arg_k; }
                else if (p == e.exp_p || e.res_p != p || e.res_k != k) continue;
            }
            if (go(done | 1ull << i, np, nk)) return true;
        }
        seen.push_back({done, p, k});
        return false;
    }
};
const char* ev_name(int k) { static const char* n[] = {"load", "store", "exchange", "compare_exchange"}; return n[k & 3]; }
void check_storage(const Result& r, const char* who) {
    for (int s = 0; s < 2; ++s) {
        Lin l;
        for (auto& e : r.sev) if (e.st == s) l.ops.push_back(&e);
        if (l.ops.size() > 60) continue;
        for (auto e : l.ops) {
            uint64_t m = 0;
            for (size_t j = 0; j < l.ops.size(); ++j) {
                auto f = l.ops[j];
                if (f->resp < e->inv) m |= 1ull << j;
                for (int a = e->parent; a >= 0; a = r.sev[size_t(a)].parent) if (f == &r.sev[size_t(a)]) m |= 1ull << j;
            }
            l.before.push_back(m);
        }
        l.fin_p = r.fin_p[s]; l.fin_k = r.fin_k[s];
        if (!l.go(0, r.init_p[s], r.init_k[s])) {
            if (eng::verbose()) {
                fprintf(stderr, "history of storage %d: starts with %llx of %llx, ends with %llx of %llx\n", s, (unsigned long long)r.init_p[s], (unsigned long long)r.init_k[s], (unsigned long long)l.fin_p, (unsigned long long)l.fin_k);
                for (auto e : l.ops) fprintf(stderr, "  thread %d, [%u..%u]: %s%s argument %llx of %llx, expected %llx, result %llx of %llx %s\n", e->tid, e->inv, e->resp, ev_name(e->kind), e->parent >= 0 ? " (in a destructor)" : "", (unsigned long long)e->arg_p, (unsigned long long)e->arg_k, (unsigned long long)e->exp_p, (unsigned long long)e->res_p, (unsigned long long)e->res_k, e->kind == E_CAS ? e->ok ? "succeeded" : "failed" : "");
            }
            eng::fail("%s: the results of %zu operations on a storage are those of no order of the operations", who, l.ops.size());
        }
    }
}
struct CLin {
    eng::hvec<const CEv*> ops;
    eng::hvec<uint64_t> before;
    uint32_t fin;
    struct Seen { uint64_t mask; uint32_t v; };
    eng::hvec<Seen> seen;
    bool go(uint64_t done, uint32_t v) {
        size_t n = ops.size();
        if (done == (1ull << n) - 1) return v == fin;
        for (auto& s : seen) if (s.mask == done && s.v == v) return false;
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1 || (before[i] & ~done)) continue;
            auto& e = *ops[i];
            uint32_t nv = v;
            switch (e.kind) {
            case C_INC: nv = v + 1; if (e.res != nv) continue; break;
            case C_DEC: nv = v - 1; if (e.res != nv) continue; break;
            case C_INCNZ: nv = v ? v + 1 : 0; if (e.res != nv) continue; break;
            default: if (e.res != v) continue;
            }
            if (go(done | 1ull << i, nv)) return true;
        }
        seen.push_back({done, v});
        return false;
    }
};
void check_counter(const Result& r, bool stale) {
    CLin l;
    for (auto& e : r.cev) {
        if (stale && e.kind == C_COUNT) { if (e.res > r.c_init + r.cev.size()) eng::fail("count() gives %u, a value the counter never had", e.res); continue; }  // may be older
        l.ops.push_back(&e);
    }
    if (l.ops.size() > 60) return;
    for (auto e : l.ops) { uint64_t m = 0; for (size_t j = 0; j < l.ops.size(); ++j) if (l.ops[j]->resp < e->inv) m |= 1ull << j; l.before.push_back(m); }
    l.fin = r.c_final;
    if (!l.go(0, r.c_init)) eng::fail("the results of %zu operations on a counter are those of no order of the operations", l.ops.size());
    uint32_t zeros = 0;
    for (auto& e : r.cev) zeros += e.kind == C_DEC && e.res == 0;
    if (zeros > 1) eng::fail("%u decrements gave zero", zeros);
}
void run(const std::string& full, const uint8_t* d, size_t n) {
    std::string prop = full.substr(0, 3);
    if (n < HEAD) return;
    __libc_single_threaded = 0;   // libstdc++ leaves atomic operations out else
    static Result r;
    { auto s = std::move(r.sev); auto c = std::move(r.cev); s.clear(); c.clear(); r = Result{}; r.sev = std::move(s); r.cev = std::move(c); r.sev.reserve(128); r.cev.reserve(128); }
    bool with_std = d[0] & 2;
    if (prop == "C15") { run_counter(d, n, r); check_counter(r, d[7] != 0); }
    else if (prop == "C07") { run_tracked(prop, d, n, r); check_storage(r, "xmem"); }
    else if (with_std) { run_std(prop, d, n, r); check_storage(r, "std with xstd"); }
    else { run_xmem(prop, d, n, r); check_storage(r, "xmem"); }
    auto& s = rt::stats;
    bool met = s.contended > 0 && s.switches > 0;
    if (prop == "C12" ? met && r.destroyed > 0 : prop == "C13" ? met && r.locks_ok + r.locks_null + r.upgrades_from_object > 0 : prop == "C14" ? met && r.storage_ops > 1 : prop == "C21" ? r.nested > 0 : met) eng::nontrivial();
    if (with_std) eng::label("std pointers with xstd");
    if (s.preempted) eng::label("preempted");
    if (s.stale) eng::label("older values read");
    if (s.weak_failed) eng::label("weak compare-exchange failed");
    if (s.forced) eng::label("a thread had to wait");
    if (r.locks_ok) eng::label("successful lock");
    if (r.locks_null) eng::label("lock gave null");
    if (r.crowd) eng::label(r.crowd > 2000 ? "thousands of pointers or operations before the threads" : "a crowd of pointers, or many operations, before the threads");
    if (r.nested) eng::label("storage used by a destructor");
    if (r.storage_ops) eng::label("storage operations");
    if (r.destroyed > 2) eng::label("objects destroyed by the threads or after them");
    eng::count("operations", (n - HEAD) / OPSZ);
    eng::count("atomic steps", s.steps);
    eng::count("switches", s.switches);
}
std::string describe(const std::string& full, const uint8_t* d, size_t n) {
    std::string prop = full.substr(0, 3);
    if (n < HEAD) return "";
    std::string s;
    char b[200];
    const uint8_t* w = d + rt::HEADER;
    int nt = threads_of(w);
    snprintf(b, sizeof(b), "%s%d threads, %s schedule", d[0] & 2 ? "std pointers; " : "", nt, d[0] & 1 ? "random" : "given");
    s += b;
    if (d[0] & 1) { snprintf(b, sizeof(b), " (seed %02x%02x%02x%02x, switch %d/256)", d[1], d[2], d[3], d[4], d[5]); s += b; }
    else { s += " (switch after"; for (int i = 0; i < 8; ++i) { snprintf(b, sizeof(b), " %d:%d", d[8 + 2 * i], d[9 + 2 * i]); s += b; } s += ")"; }
    snprintf(b, sizeof(b), ", weak failure %d/256, older values %d/256, world", d[6], d[7]);
    s += b;
    for (size_t i = 0; i < PHEAD; ++i) { snprintf(b, sizeof(b), " %02x", w[i]); s += b; }
    for (size_t i = HEAD; i + OPSZ <= n; i += OPSZ) {
        static const char* c[] = {"inc", "dec", "inc_nz", "count"};
        snprintf(b, sizeof(b), "; T%d: %s(%d,%d,%d,%d)", d[i] % nt + 1, prop == "C15" ? c[d[i + 1] % 4] : op_name(d[i + 1] % NOPS), d[i + 2], d[i + 3], d[i + 4], d[i + 5]);
        s += b;
    }
    return s;
}
} // namespace
const eng::Harness eng::harness{OPSZ, HEAD, gen, run, describe, 30};
