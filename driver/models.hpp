// random trained models
#pragma once
#include "common.hpp"
namespace xmm {}
using namespace xmm;
struct Cfg { bool bim, diag, hier, erg; int D, I, C, N, K, W; };
static inline std::string lab(int i) { return std::string(1, char('a' + i)) + (i % 2 ? "" : "x"); }
static inline xmm::TrainingSet trainSet(Rng& r, Cfg const& q, int phr = 2, int lmin = 12, int lmax = 24) {
    TrainingSet ts = mkSet(q.bim, q.D, q.I);
    int id = 0;
    for (int c = 0; c < q.C; c++)
        for (int p = 0; p < phr; p++) ts.addPhrase(id++, mkPhrase(q.bim, q.D, q.I, randFrames(r, r.i(lmin, lmax), q.D, 1, c * 0.7), lab(c)));
    return ts;
}
static inline Cfg randCfg(Rng& r, int maxC = 4) {
    Cfg q;
    q.bim = r.b();
    q.D = r.i(q.bim ? 2 : 1, 4);
    q.I = q.bim ? r.i(1, q.D - 1) : 0;
    q.diag = r.b(0.4);
    q.hier = r.b(0.6);
    q.erg = r.b(0.4);
    q.C = r.i(1, maxC);
    q.N = r.i(1, 6);
    q.K = r.b(0.75) ? 1 : 2;
    q.W = r.b(0.3) ? 1 : r.i(1, 7);
    return q;
}
template <class M> static void setEm(M& m, int n) {
    m.shared_parameters->em_algorithm_min_iterations.set(n);
    m.shared_parameters->em_algorithm_max_iterations.set(n);
}
static inline GMM mkGMM(Rng& r, Cfg const& q, TrainingSet* ts) {
    GMM m(q.bim);
    m.configuration.multithreading = MultithreadingMode::Sequential;
    m.configuration.gaussians.set(q.K);
    m.configuration.covariance_mode.set(q.diag ? CM::Diagonal : CM::Full);
    m.configuration.absolute_regularization.set(0.1);
    m.shared_parameters->likelihood_window.set(q.W);
    setEm(m, 2);
    if (ts) m.train(ts);
    return m;
}
static inline HierarchicalHMM mkHMM(Rng& r, Cfg const& q, TrainingSet* ts, int steps = 2) {
    HierarchicalHMM m(q.bim);
    m.configuration.multithreading = MultithreadingMode::Sequential;
    m.configuration.gaussians.set(q.K);
    m.configuration.states.set(q.N);
    m.configuration.hierarchical.set(q.hier);
    m.configuration.transition_mode.set(q.erg ? HMM::TransitionMode::Ergodic : HMM::TransitionMode::LeftRight);
    m.configuration.covariance_mode.set(q.diag ? CM::Diagonal : CM::Full);
    m.configuration.absolute_regularization.set(0.1);
    m.shared_parameters->likelihood_window.set(q.W);
    setEm(m, steps);
    if (ts) m.train(ts);
    return m;
}
// every setting of a model, compared field by field (an export that omits one
// still equals its own re-export)
static inline void sameShared(SharedParameters const& a, SharedParameters const& b, const char* w) {
#define XVC_EQ(F) CHECK(a.F.get() == b.F.get(), "%s: shared parameter " #F, w)
    XVC_EQ(bimodal); XVC_EQ(dimension); XVC_EQ(dimension_input); XVC_EQ(em_algorithm_min_iterations); XVC_EQ(em_algorithm_max_iterations);
    XVC_EQ(em_algorithm_percent_chg); XVC_EQ(likelihood_window);
    CHECK(a.column_names.get() == b.column_names.get(), "%s: column names", w);
#undef XVC_EQ
}
#define XVC_EQ(F) CHECK(a.F.get() == b.F.get(), "%s: parameter " #F, w)
static inline void sameParams(ClassParameters<GMM> const& a, ClassParameters<GMM> const& b, const char* w) {
    XVC_EQ(gaussians); XVC_EQ(relative_regularization); XVC_EQ(absolute_regularization); XVC_EQ(covariance_mode);
}
static inline void sameParams(ClassParameters<HMM> const& a, ClassParameters<HMM> const& b, const char* w) {
    XVC_EQ(states); XVC_EQ(gaussians); XVC_EQ(relative_regularization); XVC_EQ(absolute_regularization); XVC_EQ(covariance_mode);
    XVC_EQ(transition_mode); XVC_EQ(regression_estimator); XVC_EQ(hierarchical);
}
static inline void sameParams(ClassParameters<KMeans> const& a, ClassParameters<KMeans> const& b, const char* w) {
    XVC_EQ(clusters); XVC_EQ(max_iterations); XVC_EQ(relative_distance_threshold);
}
#undef XVC_EQ
template <class M> static void sameSettings(M& a, M& b, const char* w) {
    sameShared(*a.shared_parameters, *b.shared_parameters, w);
    sameParams(a.configuration, b.configuration, w);
    CHECK(a.configuration.multiClass_regression_estimator == b.configuration.multiClass_regression_estimator && a.configuration.multithreading == b.configuration.multithreading, "%s: configuration", w);
    auto pa = a.configuration, pb = b.configuration;
    for (int c = 0; c < 4; c++) sameParams(pa[lab(c)], pb[lab(c)], w);
    for (auto& m : a.models) { CHECK(b.models.count(m.first), "%s: class", w); sameParams(m.second.parameters, b.models.at(m.first).parameters, w); }
}
template <class M> static void randSettings(Rng& r, M& m) {
    auto& s = *m.shared_parameters;
    if (r.b()) s.em_algorithm_min_iterations.set(r.i(1, 20));
    if (r.b()) s.em_algorithm_max_iterations.set(r.i(0, 30));
    if (r.b()) s.em_algorithm_percent_chg.set(r.u(0, 2));
}
// a frame near the training data of some class
static inline Frame obsFrame(Rng& r, Cfg const& q, double spread = 1) {
    Frame f(q.D);
    double off = 0.7 * r.i(0, q.C - 1);
    for (auto& v : f) v = float(off + spread * r.u(-1.2, 1.2));
    return f;
}
static inline LD gmmLik(SingleClassGMM const& g, VL const& x, bool bim) {
    LD s = 0;
    for (size_t k = 0; k < g.components.size(); k++) s += (LD)g.mixture_coeffs[k] * (bim ? gLikInput(g.components[k], x) : gLik(g.components[k], x));
    return s;
}
static inline LD gmmJoint(SingleClassGMM const& g, VL const& x) {
    LD s = 0;
    for (size_t k = 0; k < g.components.size(); k++) s += (LD)g.mixture_coeffs[k] * gLik(g.components[k], x);
    return s;
}
static inline void gmmReg(SingleClassGMM const& g, VL const& xin, VL& val, VL& cov) {
    VL t;
    LD s = 0;
    for (size_t k = 0; k < g.components.size(); k++) { t.push_back((LD)g.mixture_coeffs[k] * gLikInput(g.components[k], xin)); s += t.back(); }
    val.clear();
    cov.clear();
    for (size_t k = 0; k < g.components.size(); k++) {
        VL v = gRegression(g.components[k], xin), c = gOutCov(g.components[k]);
        val.resize(v.size());
        cov.resize(c.size());
        for (size_t o = 0; o < v.size(); o++) val[o] += t[k] / s * v[o];
        for (size_t o = 0; o < c.size(); o++) cov[o] += t[k] / s * t[k] / s * c[o];
    }
}
