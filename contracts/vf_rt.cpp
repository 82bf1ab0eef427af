// Concrete implementation of the contract vocabulary (vf.hpp): runs a contract
// on the natively compiled code of /repo, to replay counterexamples of the
// verifier and, for obligations the verifier leaves undecided, to search a
// bounded set of inputs.
// VF_BIG=1: integers up to 2^24, only signals count (built with overflow traps);
// VF_BIG=2: integers up to 2^24, every violation counts.
//   <prog> <contract> <seed> <executions> <bound> [name=value ...]
// Exit 0: no violation in that many executions; 1: a violation, printed;
// 3: fewer executions than requested met the preconditions.
#include "vf.hpp"
#include <cmath>
#include <csignal>
#include <ctime>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <vector>
namespace
{
struct reject {
};
std::mt19937_64 rng;
std::map<std::string, int> fixed, pfixed, cur, prev;
std::vector<std::string> order;
std::map<std::string, double> reals, freals;
bool special = false; // some scalar is zero: quotients may not exist
int nge, bound = 5;
// VF_GUARD=1 (2): storage that ends (begins) at an inaccessible page, so that
// a read outside the array is noticed too
int guard = 0;
template <typename T>
struct store {
    char* base = nullptr;
    size_t bytes = 0;
    std::vector<T> own;
    T* p = nullptr;
    size_t n = 0;
    void alloc(size_t m, T v)
    {
        drop();
        n = m;
        if (!guard) {
            own.assign(m, v);
            p = own.data();
            return;
        }
        size_t ps = 4096, pages = (m * sizeof(T) + ps - 1) / ps;
        bytes = (pages + 2) * ps;
        base = static_cast<char*>(mmap(nullptr, bytes, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(base + ps, pages * ps, PROT_READ | PROT_WRITE);
        char* b = base + ps;
        if (guard == 1) b += pages * ps - m * sizeof(T);
        p = reinterpret_cast<T*>(b);
        for (size_t i = 0; i < m; i++) p[i] = v;
    }
    void drop()
    {
        if (base) munmap(base, bytes);
        base = nullptr;
    }
    store() = default;
    store(const store&) = delete;
    ~store() { drop(); }
    T& operator[](size_t i) { return p[i]; }
};
bool digest = false;
struct arr {
    store<real> buf;
    std::vector<real> ini;
    int lo[4], n[4], nd;
    bool writable;
    size_t len, pad;
};
struct iarr {
    store<int> v;
    int cols;
    int lo[8], hi[8];
    bool bounded[8];
};
std::map<std::string, arr> arrays;
std::map<std::string, std::unique_ptr<iarr>> iarrays;
bool inpost = false;
std::map<std::string, int> pcur;
std::string contract;
int nchecks;
int extent = 1; // how far the integers of this execution reach
const real canary = real(-7.7e33);
// now and then much larger integers
int wide()
{
    auto r = rng() % 64;
    return r < 54 ? 1 : r < 61 ? 12 : 400;
}
int big = 0;
int pick(int lo, int hi) { return lo + int(rng() % (unsigned long)(hi - lo + 1)); }
// next to an input or to the product of two inputs: the ends of ranges and rows
int edge()
{
    if (cur.empty()) return pick(-2, bound);
    auto any = [] { return long(std::next(cur.begin(), rng() % cur.size())->second); };
    long v = any();
    if (rng() % 2) v *= any();
    v += pick(-1, 1);
    return v > -(1l << 30) && v < (1l << 30) ? int(v) : 0;
}
int bigint()
{
    if (rng() % 3 == 0) return edge();
    int v = int(rng() % (1ul << (1 + rng() % 24)));
    return rng() % 8 ? v : -v;
}
void dump()
{
    printf("contract: %s\ninputs:", contract.c_str());
    for (auto& [k, v] : cur) printf(" %s=%d", k.c_str(), v);
    for (auto& [k, v] : pcur) printf(" %s=%d", k.c_str(), v);
    for (auto& [k, v] : reals) printf(" %s=%.17g", k.c_str(), v);
    for (auto& [k, a] : iarrays) {
        printf(" %s=[", k.c_str());
        for (size_t i = 0; i < a->v.n; i++) printf("%d,", a->v[i]);
        printf("]");
    }
    printf("\n");
    for (auto& [k, a] : arrays) {
        printf("array %s(", k.c_str());
        for (int d = 0; d < a.nd; d++) printf("%s%d:%d", d ? "," : "", a.lo[d], a.lo[d] + a.n[d] - 1);
        printf(") =");
        for (size_t i = 0; i < a.len && i < 64; i++) printf(" %.17g", double(a.ini[i]));
        printf("%s\n", a.len > 64 ? " ..." : "");
    }
}
void violated(const char* label, const std::string& text)
{
    if (digest || big == 1) return;
    printf("violated: %s: %s\n", label, text.c_str());
    dump();
    fflush(stdout);
    _exit(1);
}
void on_signal(int s)
{
    printf("violated: the real code received signal %d\n", s);
    dump();
    fflush(stdout);
    _exit(1);
}
size_t index(const arr& a, int nd, const int* c)
{
    size_t off = 0;
    for (int d = 0; d < nd; d++) {
        if (c[d] < a.lo[d] || c[d] >= a.lo[d] + a.n[d]) throw reject{};
        off = off * a.n[d] + (c[d] - a.lo[d]);
    }
    return off;
}
void frames()
{
    for (auto& [k, a] : arrays) {
        for (size_t i = 0; i < a.pad; i++)
            if (a.buf[i] != canary || a.buf[a.pad + a.len + i] != canary)
                violated("in-bounds", "a write outside array " + k);
        if (!a.writable)
            for (size_t i = 0; i < a.len; i++)
                if (a.buf[a.pad + i] != a.ini[i]) violated("frame", "a write to the read-only array " + k);
    }
}
std::string num(double x)
{
    char b[64];
    snprintf(b, sizeof b, "%.17g", x);
    return b;
}
} // namespace
extern "C" {
int vf_int(const char* name)
{
    if (inpost) {
        // arbitrary position: a fresh value every time
        auto f = fixed.find(name), g = pfixed.find(name);
        int v;
        if (f != fixed.end())
            v = f->second;
        else if (g != pfixed.end() && rng() % 2)
            v = g->second;
        else if (big ? rng() % 2 : rng() % 4 == 0)
            v = big ? bigint() : edge();
        else if (big || extent > 1 && rng() % 2)
            v = pick(-bound - 3, bound + 4);
        else
            v = pick((-bound - 3) * extent, (bound + 4) * extent);
        pcur[name] = v;
        return v;
    }
    auto c = cur.find(name);
    if (c != cur.end()) return c->second;
    order.push_back(name);
    auto f = fixed.find(name);
    int v;
    if (f != fixed.end())
        v = f->second;
    else {
        auto p = prev.find(name);
        v = p != prev.end() ? p->second : big && rng() % 2 ? bigint() : pick(-2, bound * wide());
    }
    if (v > bound * extent && inpost == false) extent = v / bound + 1;
    return cur[name] = v;
}
real vf_real(const char* name)
{
    auto r = reals.find(name);
    if (r != reals.end()) return real(r->second);
    double v = (0.5 + (rng() % 1000) / 700.0) * (rng() % 3 ? 1 : -1);
    auto f = freals.find(name);
    if (f != freals.end()) {
        v = f->second;
    } else if (name[0] == 'h' && rng() % 4 == 0) {
        v = rng() % 2 ? 1 : 0.5;
    } else if (name[0] != 'h' && rng() % 5 == 0) {
        // values at which a shortcut may be taken (mesh widths h are positive)
        static const double t[] = {0, 0, 1, -1, 2};
        v = t[rng() % 5];
    }
    if (v == 0) special = true;
    reals[name] = real(v);
    return real(v);
}
real* vf_arr(const char* name, int w, int nd, int l0, int n0, int l1, int n1, int l2, int n2, int l3, int n3)
{
    int l[] = {l0, l1, l2, l3}, n[] = {n0, n1, n2, n3};
    arr& a = arrays[name];
    a.nd = nd;
    a.writable = w;
    a.len = 1;
    for (int d = 0; d < nd; d++) {
        if (n[d] < 0 || !big && n[d] > (fixed.empty() ? 5000 : 100000)) throw reject{};
        a.lo[d] = l[d];
        a.n[d] = n[d];
        a.len *= n[d];
        // lower indices are of the order of the extents
        if (big && (l[d] < 0 ? -l[d] : l[d]) > (1 << 20)) throw reject{};
        if (a.len > 20000000u) throw reject{};
    }
    if (a.len > (big ? (fixed.empty() ? 20000u : 2000000u) : fixed.empty() ? 200000u : 20000000u)) throw reject{};
    a.pad = guard ? 0 : 4096;
    a.buf.alloc(a.len + 2 * a.pad, canary);
    a.ini.resize(a.len);
    // now and then equal and vanishing elements
    static const double few[] = {0, 1, -1, 2};
    const bool plain = rng() % 6 == 0;
    if (plain) special = true;
    for (size_t i = 0; i < a.len; i++)
        a.buf[a.pad + i] = a.ini[i] = plain ? real(few[rng() % 4]) : real((0.5 + (rng() % 100000) / 70000.0) * (rng() % 3 ? 1 : -1));
    return a.buf.p + a.pad;
}
int* vf_iarr(const char* name, int nd, int n0, int n1)
{
    auto& a = iarrays[name];
    a = std::make_unique<iarr>();
    a->cols = nd == 2 ? n1 : 1;
    if (n0 < 0 || n0 > 1000) throw reject{};
    a->v.alloc(n0 * a->cols, 0);
    for (size_t i = 0; i < a->v.n; i++) a->v[i] = pick(-3, 3);
    return a->v.p;
}
void vf_iarr_bound(const char* name, int col, int lo, int hi)
{
    auto& a = *iarrays[name];
    if (lo > hi) throw reject{};
    for (size_t i = col; i < a.v.n; i += a.cols) a.v[i] = pick(lo, hi);
}
void vf_ge(long a, long b)
{
    if (a < b) throw reject{};
    if (!inpost) nge++;
}
void vf_fits(int a, int b, int c, int d, int e)
{
    long t = 1;
    for (long x : {a, b, c, d, e})
        if (x) {
            t *= x < 0 ? -x : x;
            if (t > (1l << 27)) throw reject{};
        }
}
void vf_ensures(void (*f)(void*), void* c)
{
    if (digest) {
        unsigned long h = 1469598103934665603ul;
        for (auto& [k, a] : arrays)
            for (size_t i = 0; i < a.len; i++) {
                unsigned char c[sizeof(real)];
                std::memcpy(c, &a.buf[a.pad + i], sizeof(real));
                for (unsigned char x : c) h = (h ^ x) * 1099511628211ul;
            }
        printf("result %016lx", h);
        for (auto& [k, v] : cur) printf(" %s=%d", k.c_str(), v);
        printf("\n");
        nchecks++;
        return;
    }
    frames();
    inpost = true;
    int hits = 0;
    for (int t = 0; t < 60000 && hits < 250; t++) {
        pcur.clear();
        try {
            f(c);
            hits++;
        } catch (reject&) {
        }
    }
    inpost = false;
    pcur.clear();
}
real vf_fin(const char* name, int nd, int i0, int i1, int i2, int i3)
{
    int c[] = {i0, i1, i2, i3};
    arr& a = arrays[name];
    return a.buf[a.pad + index(a, nd, c)];
}
real vf_ini(const char* name, int nd, int i0, int i1, int i2, int i3)
{
    int c[] = {i0, i1, i2, i3};
    arr& a = arrays[name];
    return a.ini[index(a, nd, c)];
}
void vf_check_real(real a, real b, const char* label)
{
    nchecks++;
    const double eps = sizeof(real) == 8 ? 1e-7 : 2e-2;
    double x = a, y = b;
    if (std::isnan(x) && std::isnan(y)) return;
    if (special && !std::isfinite(y)) return;
    // comparisons of badly conditioned values say nothing
    if (std::fabs(y) > 1e6 && std::fabs(x) > 1e5) return;
    if (!(std::fabs(x - y) <= eps * (1 + std::fabs(x) + std::fabs(y))))
        violated(label, "got " + num(x) + ", the contract says " + num(y));
}
void vf_check_int(long a, long b, const char* label)
{
    nchecks++;
    if (a != b) violated(label, std::to_string(a) + " instead of " + std::to_string(b));
}
void vf_check_ge(long a, long b, const char* label)
{
    nchecks++;
    if (a < b) violated(label, std::to_string(a) + " < " + std::to_string(b));
}
void vf_check_ptr(const void* a, const void* b, const char* label)
{
    nchecks++;
    if (a != b)
        violated(label, "element " + std::to_string((static_cast<const real*>(a) - static_cast<const real*>(b))) +
                            " away from the element of the contract");
}
void vf_check_state(const void* a, const void* b, size_t n, const char* label)
{
    nchecks++;
    if (std::memcmp(a, b, n)) violated(label, "the two values differ");
}
}
int main(int argc, char** argv)
{
    contract = argv[1];
    rng.seed(strtoul(argv[2], nullptr, 10) * 7919 + 1);
    int want = atoi(argv[3]);
    bound = atoi(argv[4]);
    for (int i = 5; i < argc; i++) {
        char* e = strchr(argv[i], '=');
        if (e && argv[i][0] == '+')
            pfixed[std::string(argv[i] + 1, e)] = atoi(e + 1);
        else if (e && strchr(e, '.'))
            freals[std::string(argv[i], e)] = strtod(e + 1, nullptr);
        else if (e)
            fixed[std::string(argv[i], e)] = atoi(e + 1);
    }
    for (int s : {SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL}) signal(s, on_signal);
    alarm(200);
    if (auto e = getenv("VF_GUARD")) guard = atoi(e);
    digest = getenv("VF_DIGEST");
    if (auto e = getenv("VF_BIG")) big = atoi(e);
    auto f = reinterpret_cast<void (*)()>(dlsym(RTLD_DEFAULT, ("C_" + contract).c_str()));
    if (!f) {
        printf("no contract %s\n", argv[1]);
        return 2;
    }
    int done = 0, best = -1;
    std::map<std::string, int> good;
    long tries = 0, stuck = 0;
    const time_t start = time(nullptr);
    while (done < want && tries < 400000 && !(big && time(nullptr) - start > (big == 1 ? 40 : 15))) {
        tries++;
        cur.clear();
        order.clear();
        reals.clear();
        special = false;
        extent = 1;
        arrays.clear();
        iarrays.clear();
        nge = 0;
        bool ok = false;
        try {
            f();
            ok = true;
        } catch (reject&) {
        }
        if (ok) {
            done++;
            frames();
        }
        // hill climbing over the number of preconditions met
        if (ok || nge >= best) {
            if (nge > best) stuck = 0;
            best = nge;
            good = cur;
        }
        if (++stuck > 3000) {
            good.clear();
            best = -1;
            stuck = 0;
        }
        prev = good;
        if (ok && rng() % 4 == 0) {
            best = -1;
            prev.clear();
            good.clear();
        } else if (!cur.empty()) {
            int k = 1 + int(rng() % 3);
            for (int i = 0; i < k; i++) prev[order[rng() % order.size()]] = big && rng() % 2 ? bigint() : pick(-2, bound * wide());
            if (rng() % 16 == 0) prev[order[rng() % order.size()]] = pick(-bound * 2, bound * 3);
        }
    }
    printf("executions=%d checks=%d\n", done, nchecks);
    return done >= 1 && nchecks ? 0 : 3;
}
