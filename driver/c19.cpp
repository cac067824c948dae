#include "models.hpp"
typedef xmm::HMM::RegressionEstimator RE;
typedef xmm::MultiClassRegressionEstimator MC;
// expected output of one class from its state probabilities
static void classOut(SingleClassHMM const& h, Cfg const& q, RE est, VL const& in, VL& val, VL& cov) {
    int N = int(h.states.size()), O = q.D - q.I, CN = q.diag ? O : O * O;
    VL w(N);
    for (int i = 0; i < N; i++) w[i] = q.hier ? (LD)h.alpha_h[0][i] + (LD)h.alpha_h[1][i] : (LD)h.alpha[i];
    int like = 0;
    for (int i = 1; i < N; i++) if (w[i] > w[like]) like = i;
    if (est == RE::Likeliest) { gmmReg(h.states[like], in, val, cov); return; }
    int lo = 0, hi = N;
    LD norm = 1;
    if (est == RE::Windowed) {
        lo = std::max(0, like - N / 2);
        hi = std::min(N, like + N / 2);
        norm = 0;
        for (int i = lo; i < hi; i++) norm += w[i];
        if (norm <= 0) norm = 1;
    }
    val.assign(O, 0);
    cov.assign(CN, 0);
    for (int i = lo; i < hi; i++) {
        VL v, c;
        gmmReg(h.states[i], in, v, c);
        for (int o = 0; o < O; o++) val[o] += w[i] * v[o] / norm;
        for (int o = 0; o < CN; o++) cov[o] += w[i] * w[i] * c[o] / norm;
    }
}
template <class M> static void combine(M& m, Cfg const& q, MC mc, const char* what) {
    int O = q.D - q.I, CN = q.diag ? O : O * O;
    CHECK(int(m.results.output_values.size()) == O, "%s: number of output values", what);
    CHECK(int(m.results.output_covariance.size()) == CN, "%s: number of output covariance values", what);
    VL v(O, 0), c(CN, 0);
    LD sc = 0, cc = 0;
    if (mc == MC::Likeliest) {
        auto& r = m.models.at(m.results.likeliest).results;
        for (int o = 0; o < O; o++) v[o] = r.output_values[o];
        for (int o = 0; o < CN; o++) c[o] = r.output_covariance[o];
    } else {
        int i = 0;
        for (auto& p : m.models) {
            LD w = m.results.smoothed_normalized_likelihoods[i++];
            for (int o = 0; o < O; o++) v[o] += w * p.second.results.output_values[o];
            for (int o = 0; o < CN; o++) c[o] += w * p.second.results.output_covariance[o];
        }
    }
    for (LD x : v) sc = std::max(sc, fabsl(x));
    for (LD x : c) cc = std::max(cc, fabsl(x));
    for (auto& p : m.models) for (float x : p.second.results.output_values) sc = std::max<LD>(sc, fabsl(x));
    for (auto& p : m.models) for (float x : p.second.results.output_covariance) cc = std::max<LD>(cc, fabsl(x));
    for (int o = 0; o < O; o++) NEAR(m.results.output_values[o], v[o], 1e-5, 1e-5 * sc, "%s: combined output value %d (%s)", what, o, mc == MC::Likeliest ? "likeliest" : "mixture");
    for (int o = 0; o < CN; o++) NEAR(m.results.output_covariance[o], c[o], 1e-5, 1e-5 * cc, "%s: combined output covariance %d (%s)", what, o, mc == MC::Likeliest ? "likeliest" : "mixture");
}
void one(Rng& r, long c) {
    Cfg q = randCfg(r, 3);
    q.bim = true;
    q.D = r.i(2, 5);
    q.I = r.i(1, q.D - 1);
    if (r.b(0.6)) q.erg = true;
    int e = r.i(0, 2), mcI = r.i(0, 1);
    RE est = e == 0 ? RE::Full : e == 1 ? RE::Windowed : RE::Likeliest;
    MC mc = mcI ? MC::Mixture : MC::Likeliest;
    // a one-state model has an empty window
    if (est == RE::Windowed && q.N == 1) q.N = 3;
    caseNote("dimension %d input %d classes %d states %d gaussians %d ergodic %d hierarchical %d diagonal %d estimator %d combination %d", q.D, q.I, q.C, q.N, q.K, q.erg, q.hier, q.diag, e, mcI);
    TrainingSet ts = trainSet(r, q);
    if (c % 4 == 0) {
        GMM m = mkGMM(r, q, &ts);
        m.configuration.multiClass_regression_estimator = mc;
        for (int t = 0; t < 6; t++) {
            if (t == 4) m.configuration.multiClass_regression_estimator = mc == MC::Mixture ? MC::Likeliest : MC::Mixture;
            Frame in = head(obsFrame(r, q), q.I);
            m.filter(in);
            for (auto& p : m.models) {
                VL v, cv;
                gmmReg(p.second, toL(in), v, cv);
                LD s = 1e-6;
                for (LD x : v) s = std::max(s, fabsl(x));
                for (auto& g : p.second.components) for (auto x : g.mean) s = std::max<LD>(s, fabsl(x));
                for (size_t o = 0; o < v.size(); o++) NEAR(p.second.results.output_values[o], v[o], 1e-4, 1e-4 * s, "regression of a GMM class");
            }
            combine(m, q, m.configuration.multiClass_regression_estimator, "GMM");
        }
        return;
    }
    HierarchicalHMM m = mkHMM(r, q, nullptr);
    m.configuration.regression_estimator.set(est);
    m.train(&ts);
    m.configuration.multiClass_regression_estimator = mc;
    for (int t = 0; t < 8; t++) {
        if (t == 5) {
            m.configuration.multiClass_regression_estimator = mc == MC::Mixture ? MC::Likeliest : MC::Mixture;
            m.reset();
        }
        Frame in = head(obsFrame(r, q, r.b(0.2) ? 3 : 1), q.I);
        m.filter(in);
        for (auto& p : m.models) {
            auto& h = p.second;
            VL v, cv;
            // ties of the likeliest state are left to the implementation
            VL w;
            for (int i = 0; i < q.N; i++) w.push_back(q.hier ? (LD)h.alpha_h[0][i] + (LD)h.alpha_h[1][i] : (LD)h.alpha[i]);
            VL sw = w;
            std::sort(sw.begin(), sw.end());
            if (est != RE::Full && q.N > 1 && sw[q.N - 1] - sw[q.N - 2] < 1e-12L) continue;
            CHECK(h.parameters.regression_estimator.get() == est, "estimator of the class");
            classOut(h, q, est, toL(in), v, cv);
            CHECK(h.results.output_values.size() == v.size() && h.results.output_covariance.size() == cv.size(), "sizes of the class output");
            LD s = 1e-6, sc = 1e-9;
            for (LD x : v) s = std::max(s, fabsl(x));
            for (LD x : cv) sc = std::max(sc, fabsl(x));
            for (auto& st : h.states) for (auto& g : st.components) for (auto x : g.mean) s = std::max<LD>(s, fabsl(x));
            for (size_t o = 0; o < v.size(); o++) NEAR(h.results.output_values[o], v[o], 1e-4, 1e-4 * s, "class %s frame %d output value %d", p.first.c_str(), t, int(o));
            for (size_t o = 0; o < cv.size(); o++) NEAR(h.results.output_covariance[o], cv[o], 1e-3, 1e-4 * sc, "class %s frame %d output covariance %d", p.first.c_str(), t, int(o));
        }
        combine(m, q, m.configuration.multiClass_regression_estimator, "HMM");
    }
}
