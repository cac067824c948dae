#include "models.hpp"
// forward recursion of non-hierarchical HMMs
void one(Rng& r, long c) {
    Cfg q = randCfg(r, 2);
    q.hier = false;
    caseNote("bimodal %d dimension %d input %d classes %d states %d gaussians %d window %d ergodic %d diagonal %d", q.bim, q.D, q.I, q.C, q.N, q.K, q.W, q.erg, q.diag);
    TrainingSet ts = trainSet(r, q);
    HierarchicalHMM m = mkHMM(r, q, &ts);
    int N = q.N;
    if (r.b()) {  // arbitrary transitions
        for (auto& cm : m.models) {
            auto& h = cm.second;
            if (q.erg) {
                for (int i = 0; i < N; i++) {
                    double s = 0;
                    for (int j = 0; j < N; j++) s += h.transition[i * N + j] = r.u(0.01, 1);
                    for (int j = 0; j < N; j++) h.transition[i * N + j] /= s;
                }
                double s = 0;
                for (int i = 0; i < N; i++) s += h.prior[i] = r.u(0.01, 1);
                for (int i = 0; i < N; i++) h.prior[i] /= s;
            } else
                for (int i = 0; i < N; i++) { h.transition[2 * i] = r.u(0.1, 0.9); h.transition[2 * i + 1] = 1 - h.transition[2 * i]; }
        }
    }
    for (int round = 0; round < 2; round++) {
        m.reset();
        std::map<std::string, VL> al;
        for (int t = 0; t < 8; t++) {
            Frame f = obsFrame(r, q, r.b(0.1) ? 20 : 1);
            Frame in = q.bim ? head(f, q.I) : f;
            m.filter(in);
            for (auto& cm : m.models) {
                auto& h = cm.second;
                VL& a = al[cm.first];
                VL n(N, 0);
                if (t == 0) for (int i = 0; i < N; i++) n[i] = q.erg ? (LD)h.prior[i] : (i == 0);
                else
                    for (int j = 0; j < N; j++) {
                        if (q.erg) for (int i = 0; i < N; i++) n[j] += a[i] * h.transition[i * N + j];
                        else {
                            n[j] = a[j] * h.transition[2 * j];
                            n[j] += j ? a[j - 1] * h.transition[2 * j - 1] : a[N - 1] * h.transition[2 * N - 1];
                        }
                    }
                LD s = 0;
                for (int j = 0; j < N; j++) { n[j] *= gmmLik(h.states[j], toL(f), q.bim); s += n[j]; }
                if (s < 1e-280L) return;
                for (int j = 0; j < N; j++) n[j] /= s;
                a = n;
                CHECK(int(h.alpha.size()) == N, "size of the state probabilities");
                LD tot = 0;
                for (int j = 0; j < N; j++) { NEAR(h.alpha[j], n[j], 1e-6, 1e-10, "probability of state %d at frame %d", j, t); tot += h.alpha[j]; }
                NEAR(tot, 1, 1e-9, 0, "sum of the state probabilities");
                NEAR(h.results.instant_likelihood, s, 1e-6, 1e-290, "instantaneous likelihood at frame %d", t);
                int like = 0;
                for (int j = 1; j < N; j++) if (h.alpha[j] > h.alpha[like]) like = j;
                CHECK(int(h.results.likeliest_state) == like, "likeliest state");
                int lo = std::max(0, like - N / 2), hi = std::min(N, like + N / 2);
                LD w = 0, p = 0;
                for (int j = lo; j < hi; j++) { w += h.alpha[j]; p += (LD)h.alpha[j] * j; }
                if (hi > lo && w > 0) NEAR(h.results.progress, p / w / std::max(1, N - 1), 1e-9, 1e-12, "progress");
                for (int j = 0; j < N; j++) a[j] = h.alpha[j];
            }
        }
        if (r.b(0.3)) { HierarchicalHMM n(m); m = n; }
    }
}
