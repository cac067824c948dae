#include "models.hpp"
// results of filtering: normalisation, smoothing, likeliest class
template <class M> static void run(Rng& r, Cfg const& q, M& m, bool gmm) {
    CHECK(int(m.size()) == q.C, "model has %d classes", int(m.size()));
    int W = q.W;
    std::map<std::string, std::vector<LD>> hist;
    for (int round = 0; round < 3; round++) {
        if (round == 0 || r.b()) { m.reset(); hist.clear(); W = m.shared_parameters->likelihood_window.get(); }
        int T = r.i(1, 12);
        for (int t = 0; t < T; t++) {
            Frame f = obsFrame(r, q, r.b(0.1) ? 30 : 1);
            Frame in = q.bim ? head(f, q.I) : f;
            m.filter(in);
            int i = 0;
            auto& R = m.results;
            LD si = 0, ss = 0;
            for (auto& cm : m.models) {
                LD il = cm.second.results.instant_likelihood;
                if (gmm) {
                    SingleClassGMM* g = (SingleClassGMM*)(void*)&cm.second;
                    NEAR(il, gmmLik(*g, toL(f), q.bim), 1e-6, 1e-290, "instantaneous likelihood of class %d", i);
                }
                CHECK(il >= 0, "negative likelihood");
                NEAR(R.instant_likelihoods[i], il, 1e-12, 0, "instantaneous likelihood of class %d in the results", i);
                auto& h = hist[cm.first];
                h.push_back(il);
                LD ll = 0;
                int n = std::min(W, int(h.size()));
                for (int k = 0; k < n; k++) ll += logl(h[h.size() - 1 - k]);
                ll /= n;
                NEAR(cm.second.results.log_likelihood, ll, 1e-9, 1e-9, "smoothed log-likelihood of class %d (frame %d, window %d)", i, int(h.size()), W);
                NEAR(R.smoothed_log_likelihoods[i], ll, 1e-9, 1e-9, "smoothed log-likelihood %d in the results", i);
                NEAR(R.smoothed_likelihoods[i], expl(ll), 1e-6, 1e-300, "smoothed likelihood");
                si += il;
                ss += R.smoothed_likelihoods[i];
                i++;
            }
            CHECK(int(R.instant_likelihoods.size()) == i && int(R.instant_normalized_likelihoods.size()) == i && int(R.smoothed_normalized_likelihoods.size()) == i &&
                      int(R.smoothed_likelihoods.size()) == i && int(R.smoothed_log_likelihoods.size()) == i, "size of the results");
            int best = 0;
            std::string bl;
            for (int k = 0; k < i; k++) {
                NEAR(R.instant_normalized_likelihoods[k], R.instant_likelihoods[k] / si, 1e-9, 1e-15, "normalised likelihood");
                if (ss > 1e-290L) NEAR(R.smoothed_normalized_likelihoods[k], R.smoothed_likelihoods[k] / ss, 1e-9, 1e-15, "smoothed normalised likelihood");
                if (R.smoothed_log_likelihoods[k] > R.smoothed_log_likelihoods[best]) best = k;
            }
            int k = 0;
            for (auto& cm : m.models) if (k++ == best) bl = cm.first;
            CHECK(R.likeliest == bl, "likeliest is %s, expected %s", R.likeliest.c_str(), bl.c_str());
        }
        if (r.b(0.3)) m.shared_parameters->likelihood_window.set(r.i(1, 6));
        if (r.b(0.2)) { M n(m); m = n; m.reset(); hist.clear(); W = m.shared_parameters->likelihood_window.get(); }
    }
}
void one(Rng& r, long c) {
    Cfg q = randCfg(r);
    bool gmm = r.b(0.4);
    caseNote("%s bimodal %d dimension %d input %d classes %d states %d gaussians %d window %d hierarchical %d ergodic %d diagonal %d", gmm ? "GMM" : "HMM", q.bim, q.D, q.I, q.C, q.N, q.K, q.W, q.hier, q.erg, q.diag);
    TrainingSet ts = trainSet(r, q);
    if (gmm) { GMM m = mkGMM(r, q, &ts); run(r, q, m, true); }
    else { HierarchicalHMM m = mkHMM(r, q, &ts); run(r, q, m, false); }
}
