// Concrete replay / search driver: exercises the real classes of /repo/src
// through their public interface and compares them with independent
// reference computations.  One executable per property.
#pragma once
#include "xmm.h"
#include "models/kmeans/xmmKMeans.hpp"
#include <algorithm>
#include <cfloat>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

typedef long double LD;
typedef std::vector<LD> VL;

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) {
        next();
        next();
    }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    int i(int lo, int hi) { return lo + int(next() % uint64_t(hi - lo + 1)); }
    double u(double lo = 0, double hi = 1) {
        return lo + (hi - lo) * (double(next() >> 11) / 9007199254740992.0);
    }
    bool b(double p = 0.5) { return u() < p; }
    double n() {
        double a = 0;
        for (int k = 0; k < 6; k++) a += u(-1, 1);
        return a / 1.4142;
    }
    template <class T> T pick(std::vector<T> const& v) {
        return v[i(0, int(v.size()) - 1)];
    }
};

struct Fail : std::exception {
    std::string m;
    explicit Fail(std::string s) : m(std::move(s)) {}
    const char* what() const noexcept override { return m.c_str(); }
};
static inline std::string fmt(const char* f, ...) {
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}
#define CHECK(c, ...)                                       \
    do {                                                    \
        if (!(c)) throw Fail(fmt("%s:%d: ", strrchr("/" __FILE__, '/') + 1, __LINE__) + fmt(__VA_ARGS__)); \
    } while (0)

static inline bool closeTo(LD a, LD b, LD rel, LD abs_ = 1e-300L) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    LD d = fabsl(a - b);
    return d <= abs_ || d <= rel * std::max(fabsl(a), fabsl(b));
}
#define NEAR(a, b, rel, abs_, ...)                                          \
    do {                                                                    \
        LD va_ = (a), vb_ = (b);                                            \
        if (!closeTo(va_, vb_, rel, abs_))                                  \
            throw Fail(fmt("%s:%d: got %.17Lg expected %.17Lg: ", strrchr("/" __FILE__, '/') + 1,  \
                           __LINE__, va_, vb_) +                            \
                       fmt(__VA_ARGS__));                                   \
    } while (0)

template <class E, class F> static bool throwsAs(F f) {
    try {
        f();
    } catch (E&) {
        return true;
    } catch (std::exception&) {
        return false;
    }
    return false;
}
template <class F> static bool throwsAny(F f) {
    try {
        f();
    } catch (Fail&) {
        throw;
    } catch (std::exception&) {
        return true;
    }
    return false;
}

// ---------------------------------------------------------------- algebra
static inline VL toL(std::vector<double> const& v) { return VL(v.begin(), v.end()); }
static inline VL toL(std::vector<float> const& v) { return VL(v.begin(), v.end()); }
// Gauss-Jordan with partial pivoting; returns determinant, fills inv
static inline LD refInverse(VL A, int n, VL* inv) {
    VL I(n * n, 0);
    for (int i = 0; i < n; i++) I[i * n + i] = 1;
    LD det = 1;
    for (int c = 0; c < n; c++) {
        int p = c;
        for (int r = c + 1; r < n; r++)
            if (fabsl(A[r * n + c]) > fabsl(A[p * n + c])) p = r;
        if (A[p * n + c] == 0) return 0;
        if (p != c) {
            for (int k = 0; k < n; k++) {
                std::swap(A[p * n + k], A[c * n + k]);
                std::swap(I[p * n + k], I[c * n + k]);
            }
            det = -det;
        }
        LD v = A[c * n + c];
        det *= v;
        for (int k = 0; k < n; k++) {
            A[c * n + k] /= v;
            I[c * n + k] /= v;
        }
        for (int r = 0; r < n; r++)
            if (r != c) {
                LD f = A[r * n + c];
                for (int k = 0; k < n; k++) {
                    A[r * n + k] -= f * A[c * n + k];
                    I[r * n + k] -= f * I[c * n + k];
                }
            }
    }
    if (inv) *inv = I;
    return det;
}
static inline VL blockOf(VL const& A, int n, int r0, int r1, int c0, int c1) {
    VL B;
    for (int r = r0; r < r1; r++)
        for (int c = c0; c < c1; c++) B.push_back(A[r * n + c]);
    return B;
}
// multivariate normal density from covariance
static inline LD refDensityRaw(VL const& mean, VL const& inv, LD det, VL const& x) {
    int n = int(mean.size());
    LD q = 0;
    for (int a = 0; a < n; a++)
        for (int b = 0; b < n; b++) q += (x[a] - mean[a]) * inv[a * n + b] * (x[b] - mean[b]);
    return expl(-0.5L * q) / sqrtl(det * powl(2 * 3.14159265358979323846264338327950288L, n));
}
static inline LD floorLik(LD p) {
    if (std::isnan(p) || std::isinf(p) || p < 1e-180L) return 1e-180L;
    return p;
}

typedef xmm::GaussianDistribution G;
typedef xmm::GaussianDistribution::CovarianceMode CM;
static inline bool gDiag(G const& g) { return g.covariance_mode.get() == CM::Diagonal; }
static inline VL gCov(G const& g) {
    int D = g.dimension.get();
    VL c(D * D, 0);
    if (gDiag(g))
        for (int d = 0; d < D; d++) c[d * D + d] = g.covariance[d];
    else
        c = toL(g.covariance);
    return c;
}
static inline LD gLik(G const& g, VL const& x) {
    int D = g.dimension.get();
    VL inv, c = gCov(g);
    LD det = refInverse(c, D, &inv);
    return floorLik(refDensityRaw(toL(g.mean), inv, det, x));
}
static inline LD gLikInput(G const& g, VL const& x) {
    int D = g.dimension.get(), I = g.dimension_input.get();
    VL inv, c = blockOf(gCov(g), D, 0, I, 0, I);
    LD det = refInverse(c, I, &inv);
    VL m = toL(g.mean);
    m.resize(I);
    return floorLik(refDensityRaw(m, inv, det, VL(x.begin(), x.begin() + I)));
}
static inline VL gRegression(G const& g, VL const& xin) {
    int D = g.dimension.get(), I = g.dimension_input.get();
    VL out(D - I);
    VL inv, c = gCov(g);
    if (!gDiag(g)) refInverse(blockOf(c, D, 0, I, 0, I), I, &inv);
    for (int o = 0; o < D - I; o++) {
        out[o] = g.mean[I + o];
        if (!gDiag(g))
            for (int e = 0; e < I; e++) {
                LD t = 0;
                for (int f = 0; f < I; f++) t += inv[e * I + f] * (xin[f] - (LD)g.mean[f]);
                out[o] += c[(I + o) * D + e] * t;
            }
    }
    return out;
}
// conditional covariance (full: OxO row-major, diagonal: O)
static inline VL gOutCov(G const& g) {
    int D = g.dimension.get(), I = g.dimension_input.get(), O = D - I;
    VL out;
    if (gDiag(g)) {
        for (int o = 0; o < O; o++) out.push_back(g.covariance[I + o]);
        return out;
    }
    VL c = gCov(g), inv;
    refInverse(blockOf(c, D, 0, I, 0, I), I, &inv);
    for (int a = 0; a < O; a++)
        for (int b = 0; b < O; b++) {
            LD v = c[(I + a) * D + I + b];
            for (int e = 0; e < I; e++)
                for (int f = 0; f < I; f++) v -= c[(I + a) * D + e] * inv[e * I + f] * c[f * D + I + b];
            out.push_back(v);
        }
    return out;
}
static inline VL randSPD(Rng& r, int n, LD ridge = 0.2) {
    VL A(n * n), S(n * n, 0);
    for (auto& a : A) a = r.n();
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n; j++) {
            for (int k = 0; k < n; k++) S[i * n + j] += A[i * n + k] * A[j * n + k];
            if (i == j) S[i * n + j] += ridge;
        }
    for (int i = 0; i < n; i++)
        for (int j = 0; j < i; j++) S[i * n + j] = S[j * n + i];
    return S;
}
static inline std::vector<double> toD(VL const& v) { return std::vector<double>(v.begin(), v.end()); }
static inline std::vector<float> toF(VL const& v) { return std::vector<float>(v.begin(), v.end()); }
static inline G randGaussian(Rng& r, bool bim, int D, int I, bool diag, double spread = 1) {
    G g(bim, D, I, diag ? CM::Diagonal : CM::Full);
    for (auto& m : g.mean) m = r.u(-2, 2) * spread;
    VL S = randSPD(r, D);
    if (diag)
        for (int d = 0; d < D; d++) g.covariance[d] = double(S[d * D + d] * spread * spread);
    else
        for (int d = 0; d < D * D; d++) g.covariance[d] = double(S[d] * spread * spread);
    g.updateInverseCovariance();
    return g;
}

// ---------------------------------------------------------------- data
typedef std::vector<float> Frame;
typedef std::vector<Frame> Frames;
static inline Frames randFrames(Rng& r, int T, int D, double scale = 1, double off = 0) {
    Frames F;
    double ph = r.u(0, 6), sp = r.u(0.1, 0.7);
    std::vector<double> o(D), w(D);
    for (auto& x : o) x = r.u(-1, 1);
    for (auto& x : w) x = r.u(-1, 1);
    for (int t = 0; t < T; t++) {
        Frame f(D);
        for (int d = 0; d < D; d++)
            f[d] = float(off + scale * (o[d] + w[d] * sin(ph + sp * t * (1 + d % 3)) + 0.35 * r.n()));
        F.push_back(f);
    }
    return F;
}
static inline xmm::Phrase mkPhrase(bool bim, int D, int I, Frames const& F, std::string label) {
    xmm::Phrase p(xmm::MemoryMode::OwnMemory, bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    p.dimension.set(D);
    if (bim) p.dimension_input.set(I);
    p.label.set(label);
    for (auto& f : F) p.record(f);
    return p;
}
static inline xmm::TrainingSet mkSet(bool bim, int D, int I) {
    xmm::TrainingSet ts(xmm::MemoryMode::OwnMemory,
                        bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    ts.dimension.set(D);
    if (bim) ts.dimension_input.set(I);
    return ts;
}
static inline Frame head(Frame const& f, int n) { return Frame(f.begin(), f.begin() + n); }

template <class A, class B> static void nearVec(A const& a, B const& b, LD rel, LD abs_, const char* what) {
    CHECK(a.size() == b.size(), "%s: size %d expected %d", what, int(a.size()), int(b.size()));
    for (size_t i = 0; i < a.size(); i++) NEAR(a[i], b[i], rel, abs_, "%s[%d]", what, int(i));
}
// copies of one object are compared by their JSON export
static inline std::string js(Json::Value const& v) { return v.toStyledString(); }

// ---------------------------------------------------------------- main loop
static char g_case[256];
static inline void caseNote(const char* f, ...) {
    va_list ap;
    va_start(ap, f);
    vsnprintf(g_case, sizeof g_case, f, ap);
    va_end(ap);
}
static long g_caseno = -1;
static void dieReport(const char* why) {
    char b[512];
    int n = snprintf(b, sizeof b, "FAIL case=%ld %s (%s)\n", g_caseno, why, g_case);
    if (write(1, b, n)) {}
}
static void onSig(int s) {
    dieReport(s == SIGALRM ? "does not terminate (20 s)" : s == SIGABRT ? "abort" : "crash");
    _exit(1);
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
static void onDeath() { dieReport("memory error (sanitizer report on stderr)"); }

void one(Rng& r, long c);

int main(int argc, char** argv) {
    uint64_t seed = argc > 1 ? strtoull(argv[1], 0, 10) : 1;
    double secs = argc > 2 ? atof(argv[2]) : 5;
    long only = argc > 3 ? atol(argv[3]) : -1;
    long maxc = argc > 4 ? atol(argv[4]) : 1000000000L;
    signal(SIGALRM, onSig);
    signal(SIGABRT, onSig);
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
    auto t0 = std::chrono::steady_clock::now();
    long c = only >= 0 ? only : 0;
    long done = 0;
    for (;; c++) {
        if (only < 0 && (std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs || done >= maxc)) break;
        g_caseno = c;
        g_case[0] = 0;
        Rng r(seed * 1000003ull + uint64_t(c));
        srand(unsigned(seed + c));
        alarm(20);
        try {
            one(r, c);
        } catch (Fail& f) {
            printf("FAIL case=%ld %s (%s)\n", c, f.what(), g_case);
            fflush(stdout);
            _exit(1);
        } catch (std::exception& e) {
            printf("FAIL case=%ld unexpected exception: %s (%s)\n", c, e.what(), g_case);
            fflush(stdout);
            _exit(1);
        }
        alarm(0);
        done++;
        if (only >= 0) break;
    }
    printf("OK cases=%ld seed=%llu\n", done, (unsigned long long)seed);
    fflush(stdout);
    _exit(0);
}
