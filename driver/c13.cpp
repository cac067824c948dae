#include "models.hpp"
#include "em.hpp"
// Baum-Welch: valid chain, posterior-weighted re-estimation
struct Snap { std::vector<float> prior, trans; std::vector<SingleClassGMM> st; double logp; };
struct Rec {
    std::vector<Snap> s;
    void on(TrainingEvent const& e) {
        if (e.status != TrainingEvent::Status::Run) return;
        SingleClassHMM* h = (SingleClassHMM*)e.model;
        s.push_back(Snap{h->prior, h->transition, h->states, e.log_likelihood});
    }
};
static void chain(SingleClassHMM& h, bool erg, int N, double tol, const char* w) {
    auto in01 = [&](double v) { return v >= -1e-12 && v <= 1 + 1e-6; };
    if (erg) {
        CHECK(int(h.prior.size()) == N && int(h.transition.size()) == N * N, "%s: sizes", w);
        LD p = 0;
        for (auto v : h.prior) { CHECK(in01(v), "%s: prior %g", w, v); p += v; }
        NEAR(p, 1, tol, 0, "%s: sum of the prior", w);
        for (int i = 0; i < N; i++) {
            LD s = 0;
            for (int j = 0; j < N; j++) { double v = h.transition[i * N + j]; CHECK(in01(v), "%s: transition %d,%d is %g", w, i, j, v); s += v; }
            NEAR(s, 1, tol, 0, "%s: sum of transition row %d", w, i);
        }
    } else {
        CHECK(int(h.transition.size()) == 2 * N, "%s: sizes", w);
        for (int i = 0; i < N; i++) {
            CHECK(in01(h.transition[2 * i]) && in01(h.transition[2 * i + 1]), "%s: transition of state %d is %g, %g", w, i, h.transition[2 * i], h.transition[2 * i + 1]);
            NEAR(h.transition[2 * i] + h.transition[2 * i + 1], 1, tol, 0, "%s: sum of transition row %d", w, i);
        }
        CHECK(h.transition[2 * N - 2] == 1 && h.transition[2 * N - 1] == 0, "%s: last state", w);
    }
}
void one(Rng& r, long c) {
    Cfg q = randCfg(r, 1);
    q.C = 1;
    bool tiny = r.b(0.3);
    int np = r.i(1, 4);
    auto sp = std::make_shared<SharedParameters>();
    sp->bimodal.set(q.bim);
    sp->dimension.set(q.D);
    if (q.bim) sp->dimension_input.set(q.I);
    int steps = r.i(1, 5);
    sp->em_algorithm_min_iterations.set(steps);
    sp->em_algorithm_max_iterations.set(steps);
    TrainingSet ts = mkSet(q.bim, q.D, q.I);
    std::vector<Frames> ph;
    Frames all;
    bool any = false;
    for (int p = 0; p < np; p++) {
        int L = tiny ? r.i(p ? 0 : 1, 4) : r.i(q.N, 20);
        if (r.b(0.1) && any) L = 0;
        any = any || L > 0;
        Frames F = randFrames(r, L, q.D, r.b(0.2) ? 3 : 1);
        ts.addPhrase(p, mkPhrase(q.bim, q.D, q.I, F, "a"));
        ph.push_back(F);
        all.insert(all.end(), F.begin(), F.end());
    }
    double absr = r.pick(std::vector<double>{0.05, 0.2, 1}), relr = r.pick(std::vector<double>{0.01, 0.3});
    caseNote("bimodal %d dimension %d input %d states %d gaussians %d ergodic %d diagonal %d phrases %d frames %d steps %d short %d", q.bim, q.D, q.I, q.N, q.K, q.erg, q.diag, np, int(all.size()), steps, tiny);
    SingleClassHMM h(sp);
    h.parameters.states.set(q.N);
    h.parameters.gaussians.set(q.K);
    h.parameters.covariance_mode.set(q.diag ? CM::Diagonal : CM::Full);
    h.parameters.transition_mode.set(q.erg ? HMM::TransitionMode::Ergodic : HMM::TransitionMode::LeftRight);
    h.parameters.absolute_regularization.set(absr);
    h.parameters.relative_regularization.set(relr);
    Rec rec;
    h.training_events.addListener(&rec, &Rec::on);
    h.train(&ts);
    if (h.training_status.status == TrainingEvent::Status::Error) return;
    h.training_events.removeListeners();
    int N = q.N, D = q.D, K = q.K;
    chain(h, q.erg, N, 1e-5, "after training");
    if (r.b(0.3)) { h.train(&ts); chain(h, q.erg, N, 1e-5, "after training again"); }
    CHECK(int(rec.s.size()) == steps, "%d training events", int(rec.s.size()));
    for (auto& s : rec.s) {
        for (auto v : s.trans) CHECK(v >= 0, "transition %g during training", v);
        for (auto v : s.prior) CHECK(v >= 0 && v <= 1 + 1e-6, "prior %g during training", v);
    }
    VL reg = refReg(all, absr, relr);
    for (int k = 0; k + 1 < steps; k++) {
        Snap &A = rec.s[k], &B = rec.s[k + 1];
        std::vector<std::vector<VL>> gm(N, std::vector<VL>(K));  // weights over all frames
        VL first(N, 0), cnt(N * N, 0);
        LD logp = 0;
        int nonempty = 0;
        for (auto& F : ph) {
            int T = int(F.size());
            if (!T) continue;
            nonempty++;
            VL ob(T * N), al(T * N), be(T * N), ct(T);
            std::vector<VL> oc(T * N, VL(K));
            for (int t = 0; t < T; t++)
                for (int i = 0; i < N; i++)
                    for (int m = 0; m < K; m++) ob[t * N + i] += oc[t * N + i][m] = (LD)A.st[i].mixture_coeffs[m] * gLik(A.st[i].components[m], toL(F[t]));
            auto tr = [&](int i, int j) -> LD { return q.erg ? A.trans[i * N + j] : j == i ? A.trans[2 * i] : j == i + 1 ? A.trans[2 * i + 1] : 0; };
            for (int t = 0; t < T; t++) {
                LD s = 0;
                for (int j = 0; j < N; j++) {
                    LD a = 0;
                    if (!t) a = q.erg ? (LD)A.prior[j] : (j == 0);
                    else for (int i = 0; i < N; i++) a += al[(t - 1) * N + i] * tr(i, j);
                    al[t * N + j] = a * ob[t * N + j];
                    s += al[t * N + j];
                }
                if (s < 1e-100L) return;
                for (int j = 0; j < N; j++) al[t * N + j] /= s;
                ct[t] = s;
                logp += logl(s);
            }
            for (int i = 0; i < N; i++) be[(T - 1) * N + i] = 1;
            for (int t = T - 2; t >= 0; t--)
                for (int i = 0; i < N; i++) {
                    for (int j = 0; j < N; j++) be[t * N + i] += tr(i, j) * ob[(t + 1) * N + j] * be[(t + 1) * N + j];
                    be[t * N + i] /= ct[t + 1];
                }
            for (int t = 0; t < T; t++) {
                LD tot = 0;
                for (int i = 0; i < N; i++) {
                    LD g = al[t * N + i] * be[t * N + i];
                    tot += g;
                    if (!t) first[i] += g;
                    for (int m = 0; m < K; m++) gm[i][m].push_back(g * oc[t * N + i][m] / ob[t * N + i]);
                    if (t + 1 < T) for (int j = 0; j < N; j++) cnt[i * N + j] += al[t * N + i] * tr(i, j) * ob[(t + 1) * N + j] * be[(t + 1) * N + j] / ct[t + 1];
                }
                NEAR(tot, 1, 1e-9, 0, "internal: posterior sum");
            }
        }
        NEAR(B.logp, logp, 1e-5, 1e-6, "log-likelihood of step %d", k + 1);
        LD mag = 1;
        for (auto& f : all) for (auto v : f) mag = std::max<LD>(mag, fabsl(v));
        for (int i = 0; i < N; i++) {
            LD Gs = 0;
            for (int m = 0; m < K; m++) {
                LD E = 0;
                for (auto g : gm[i][m]) E += g;
                Gs += E;
            }
            for (int m = 0; m < K; m++) {
                LD E = 0;
                for (auto g : gm[i][m]) E += g;
                if (Gs > 1e-6L) NEAR(B.st[i].mixture_coeffs[m], E / Gs, 1e-4, 1e-5, "mixture coefficient %d of state %d", m, i);
                if (E < 1e-6L) continue;
                VL mu(D, 0), cv(q.diag ? D : D * D, 0);
                for (size_t t = 0; t < all.size(); t++) for (int d = 0; d < D; d++) mu[d] += gm[i][m][t] * all[t][d] / E;
                for (size_t t = 0; t < all.size(); t++)
                    for (int a = 0; a < D; a++) {
                        if (q.diag) cv[a] += gm[i][m][t] * (all[t][a] - mu[a]) * (all[t][a] - mu[a]) / E;
                        else for (int b = 0; b < D; b++) cv[a * D + b] += gm[i][m][t] * (all[t][a] - mu[a]) * (all[t][b] - mu[b]) / E;
                    }
                for (int a = 0; a < D; a++) cv[q.diag ? a : a * D + a] += reg[a];
                nearVec(B.st[i].components[m].mean, mu, 1e-4, 1e-5 * mag, "state mean");
                nearVec(B.st[i].components[m].covariance, cv, 1e-4, 1e-5 * mag * mag, "state covariance");
            }
            // transitions: proportional to the expected counts
            LD row = 0, brow = 0;
            for (int j = 0; j < N; j++) row += cnt[i * N + j];
            if (row > 0.05L) {
                if (q.erg) {
                    for (int j = 0; j < N; j++) brow += B.trans[i * N + j];
                    for (int j = 0; j < N; j++) NEAR(B.trans[i * N + j] / brow, cnt[i * N + j] / row, 1e-3, 1e-3, "transition %d,%d", i, j);
                } else if (i < N - 1) {
                    brow = B.trans[2 * i] + B.trans[2 * i + 1];
                    NEAR(B.trans[2 * i] / brow, cnt[i * N + i] / row, 1e-3, 2e-5L * nonempty / row + 1e-4L, "self transition of state %d", i);
                }
            }
        }
        if (q.erg) for (int i = 0; i < N; i++) NEAR(B.prior[i], first[i] / nonempty, 1e-5, 1e-6, "prior of state %d", i);
    }
}
