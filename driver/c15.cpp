#include "common.hpp"
// K-means
using namespace xmm;
static LD dist(float const* a, float const* b, int D) {
    LD s = 0;
    for (int d = 0; d < D; d++) s += ((LD)a[d] - b[d]) * ((LD)a[d] - b[d]);
    return sqrtl(s);
}
static void checkFilter(Rng& r, KMeans& m, int D, int K, double sc) {
    for (int q = 0; q < 4; q++) {
        Frame f(D);
        for (auto& v : f) v = float(sc * r.u(-3, 3));
        if (r.b(0.2)) { int k = r.i(0, K - 1); f.assign(m.centers.begin() + k * D, m.centers.begin() + (k + 1) * D); }
        m.filter(f);
        CHECK(int(m.results.distances.size()) == K, "%d distances", int(m.results.distances.size()));
        LD best = 1e300L;
        for (int k = 0; k < K; k++) {
            LD e = dist(f.data(), &m.centers[k * D], D);
            NEAR(m.results.distances[k], e, 1e-5, 1e-30, "distance to centre %d", k);
            best = std::min(best, e);
        }
        CHECK(int(m.results.likeliest) < K, "nearest centre index");
        NEAR(dist(f.data(), &m.centers[m.results.likeliest * D], D), best, 1e-5, 1e-30, "nearest centre");
        for (int k = 0; k < int(m.results.likeliest); k++) CHECK(m.results.distances[k] > m.results.distances[m.results.likeliest], "not the first nearest centre");
    }
    CHECK(throwsAny([&] { m.filter(Frame(D + 1, 0.f)); }), "frame of the wrong dimension accepted");
    if (D > 1) CHECK(throwsAny([&] { m.filter(Frame(D - 1, 0.f)); }), "frame of the wrong dimension accepted");
}
void one(Rng& r, long c) {
    bool bim = r.b(0.4);
    int D = r.i(bim ? 2 : 1, 5), I = bim ? r.i(1, D - 1) : 0, K = r.i(1, 6), np = r.i(1, 3), it = r.i(1, 5);
    double sc = r.b(0.3) ? r.u(0.1, 100) : 1;
    TrainingSet ts = mkSet(bim, D, I);
    Frames all;
    bool grid = r.b(0.3);
    for (int p = 0; p < np; p++) {
        Frames F = randFrames(r, r.i(r.b(0.1) ? 1 : K, 25), D, sc);
        if (grid) for (auto& f : F) for (auto& v : f) v = float(rint(v));
        ts.addPhrase(p, mkPhrase(bim, D, I, F, p % 2 ? "b" : "a"));
        all.insert(all.end(), F.begin(), F.end());
    }
    bool biased = r.b(0.8);
    caseNote("bimodal %d dimension %d input %d clusters %d phrases %d frames %d iterations %d biased %d", bim, D, I, K, np, int(all.size()), it, biased);
    std::vector<std::vector<float>> C;
    KMeans m(K);
    for (int q = 0; q < 2; q++) {
        KMeans n(K);
        n.initialization_mode = biased ? KMeans::InitializationMode::Biased : KMeans::InitializationMode::Random;
        n.configuration.max_iterations.set(it + q);
        n.configuration.relative_distance_threshold.set(0.);
        srandom(unsigned(c + 7));
        n.train(&ts);
        CHECK(int(n.centers.size()) == K * D, "size of the centres");
        C.push_back(n.centers);
        m = n;
        if (q) {
            auto same = [](KMeans const& a, KMeans const& b, const char* w) {
                CHECK(a.configuration.clusters.get() == b.configuration.clusters.get() && a.configuration.max_iterations.get() == b.configuration.max_iterations.get() &&
                          a.configuration.relative_distance_threshold.get() == b.configuration.relative_distance_threshold.get() && a.initialization_mode == b.initialization_mode && a.centers == b.centers, "%s differs from the original", w);
            };
            KMeans o(n), o2(K + 1);
            same(o, n, "copy");
            o2.configuration.relative_distance_threshold.set(0.7);
            o2 = n;
            same(o2, n, "assigned model");
            auto keep = n.configuration.max_iterations.get();
            o2.configuration.max_iterations.set(keep + 9);
            CHECK(n.configuration.max_iterations.get() == keep, "configuring a copy changed the original");
            if (r.b()) m = o;
        }
        checkFilter(r, n, D, K, sc);
    }
    // step it+1 from step it (NaN centres never compare as nearer than a first finite one)
    bool nan = false;
    for (auto v : C[0]) if (std::isnan(v)) nan = true;
    if (!nan) {
        std::vector<VL> sum(K, VL(D, 0));
        std::vector<int> cnt(K, 0);
        bool amb = false;
        LD mag = 1;
        for (auto& f : all) {
            int b = 0;
            std::vector<LD> ds;
            for (int k = 0; k < K; k++) {
                // ties are decided on the float distance of the implementation's precision
                ds.push_back(dist(f.data(), &C[0][k * D], D));
                if (ds[k] < ds[b]) b = k;
            }
            for (int k = 0; k < K; k++) {
                bool same = true;
                for (int d = 0; d < D; d++) same = same && C[0][k * D + d] == C[0][b * D + d];
                if (k != b && !same && ds[k] - ds[b] < 1e-4L * (1e-6L + ds[b] + ds[k])) amb = true;
            }
            cnt[b]++;
            for (int d = 0; d < D; d++) { sum[b][d] += f[d]; mag = std::max<LD>(mag, fabsl(f[d])); }
        }
        if (!amb)
            for (int k = 0; k < K; k++)
                if (cnt[k]) for (int d = 0; d < D; d++) NEAR(C[1][k * D + d], sum[k][d] / cnt[k], 1e-4, 1e-5 * mag, "centre %d after update %d", k, it + 1);
    }
#ifdef XVC_PRIV
    for (int q = 0; q < 2; q++) {  // one update from arbitrary centres, including exact ties
        std::vector<float> prev(K * D);
        for (auto& v : prev) v = grid ? float(r.i(-2, 2)) : float(sc * r.u(-2, 2));
        if (K > 1 && r.b(0.4)) for (int d = 0; d < D; d++) prev[(K - 1) * D + d] = prev[d];
        KMeans n(K);
        n.shared_parameters->dimension.set(D);
        n.centers.assign(K * D, 5.f);
        std::vector<float> pc = prev;
        n.updateCenters(prev, &ts);
        CHECK(prev == pc, "previous centres changed");
        std::vector<VL> sum(K, VL(D, 0));
        std::vector<int> cnt(K, 0);
        bool amb = false;
        for (auto& f : all) {
            int b = 0;
            std::vector<LD> ds;
            for (int k = 0; k < K; k++) {
                LD s = 0;
                for (int d = 0; d < D; d++) s += ((LD)f[d] - prev[k * D + d]) * ((LD)f[d] - prev[k * D + d]);
                ds.push_back(s);
                if (s < ds[b]) b = k;
            }
            for (int k = 0; k < K; k++) if (k != b && ds[k] != ds[b] && ds[k] - ds[b] < 1e-4L * (ds[b] + ds[k])) amb = true;
            if (!grid) for (int k = 0; k < K; k++) if (k != b && ds[k] == ds[b]) { bool same = true; for (int d = 0; d < D; d++) same = same && prev[k * D + d] == prev[b * D + d]; if (!same) amb = true; }
            cnt[b]++;
            for (int d = 0; d < D; d++) sum[b][d] += f[d];
        }
        LD mag = 1;
        for (auto& f : all) for (auto v : f) mag = std::max<LD>(mag, fabsl(v));
        if (!amb) for (int k = 0; k < K; k++) if (cnt[k]) for (int d = 0; d < D; d++) NEAR(n.centers[k * D + d], sum[k][d] / cnt[k], 1e-4, 1e-5 * mag, "centre %d after one update", k);
    }
#endif
    // copies are independent
    KMeans a(m), b;
    b = m;
    std::vector<float> mc = m.centers;
    TrainingSet t2 = mkSet(false, D + 1, 0);
    t2.addPhrase(0, mkPhrase(false, D + 1, 0, randFrames(r, 20, D + 1), "z"));
    int op = r.i(0, 3);
    if (op == 0) { a.configuration.clusters.set(K + 2); a.train(&t2); b.train(&t2); }
    else if (op == 1) { a.shared_parameters->dimension.set(D + 2); b.shared_parameters->dimension.set(D + 3); }
    else if (op == 2) { for (auto& v : a.centers) v += 1; b.filter(Frame(D, 3.f)); }
    else { a.configuration.clusters.set(K + 1); b.configuration.max_iterations.set(99); b.reset(); }
    CHECK(m.centers == mc && int(m.configuration.clusters.get()) == K && int(m.shared_parameters->dimension.get()) == D, "changing a copy changed the original");
    checkFilter(r, m, D, K, sc);
}
