// Demonstrations of the defects found in Ircam-RnD/xmm while building these checks.
// usage: demo <case>; exit 0 = behaves, nonzero = defect present.
#define private public
#define protected public
#include "xmm.h"
#include "models/kmeans/xmmKMeans.hpp"
#undef private
#undef protected
#include <cstdio>
#include <cstring>
#include <cmath>
#include <iostream>
using namespace xmm;
typedef GaussianDistribution GD;
#define CHECK(c) do { if (!(c)) { printf("FAIL line %d: %s\n", __LINE__, #c); fails++; } } while (0)
static int fails = 0;
static void fill(TrainingSet& ts, int n, int T, int dim, int nclass, unsigned seed) {
    srand(seed);
    for (int p = 0; p < n; p++) {
        ts.addPhrase(p, std::string(1, 'a' + p % nclass));
        for (int t = 0; t < T; t++) {
            std::vector<float> o(dim);
            for (int d = 0; d < dim; d++) o[d] = (p % nclass) + 0.1f * t * (d + 1) + 0.3f * (rand() / (float)RAND_MAX);
            ts.getPhrase(p)->record(o);
        }
    }
}
int main(int argc, char** argv) {
    std::string c = argv[1];
    if (c == "gauss-json-diag") {  // 1
        GD g(true, 3, 1, GD::CovarianceMode::Diagonal);
        g.mean = {1, 2, 3}; g.covariance = {1., 2., 3.}; g.updateInverseCovariance();
        GD h(true, 3, 1);
        h.fromJson(g.toJson());
        CHECK(h.toJson() == g.toJson());
        CHECK(h.output_covariance == g.output_covariance);
    } else if (c == "det-sign") {  // 2
        GD g(false, 2, 0);
        g.covariance = {1e-10, 1e-6, 1e-6, 1.};  // positive definite, det = 1e-10 - 1e-12
        g.mean = {0, 0};
        g.updateInverseCovariance();
        float x[2] = {0, 0};
        printf("det=%g lik=%g\n", g.covariance_determinant_, g.likelihood(x));
        CHECK(g.covariance_determinant_ > 0);
        CHECK(g.likelihood(x) > 1.);
    } else if (c == "hmm-hierarchical-copy") {  // 3
        HierarchicalHMM a; a.configuration.hierarchical.set(false);
        HierarchicalHMM b; b = a;
        CHECK(b.configuration.hierarchical.get() == false);
        HierarchicalHMM d(a.toJson());
        CHECK(d.configuration.hierarchical.get() == false);
    } else if (c == "json-float") {  // 4
        GMM a; a.configuration.relative_regularization.set(0.1); a.configuration.absolute_regularization.set(0.3);
        a.shared_parameters->em_algorithm_percent_chg.set(0.1);
        GMM b(a.toJson());
        CHECK(b.configuration.relative_regularization.get() == 0.1);
        CHECK(b.shared_parameters->em_algorithm_percent_chg.get() == 0.1);
        HierarchicalHMM h; h.configuration.relative_regularization.set(0.1);
        HierarchicalHMM h2(h.toJson());
        CHECK(h2.configuration.relative_regularization.get() == 0.1);
    } else if (c == "phrase-copy-empty") {  // 5 (ASan / crash)
        char* junk[64];
        for (int i = 0; i < 64; i++) { junk[i] = new char[16]; memset(junk[i], 0x41, 16); }
        for (int i = 0; i < 64; i++) delete[] junk[i];
        { Phrase p(MemoryMode::OwnMemory, Multimodality::Bimodal); Phrase q(p); Phrase r; r = p; }
    } else if (c == "phrase-copy-shared") {  // 5b
        float d[6] = {1, 2, 3, 4, 5, 6};
        Phrase p(MemoryMode::SharedMemory, Multimodality::Unimodal);
        p.dimension.set(2); p.connect(d, 3);
        Phrase q(p);
        CHECK(q.getValue(2, 1) == 6);
        Phrase r; r = p;
        CHECK(r.getValue(2, 1) == 6);
    } else if (c == "phrase-assign-shared-bimodal") {  // 5c : target shared unimodal <- bimodal shared
        float d[6] = {1, 2, 3, 4, 5, 6}, e[3] = {7, 8, 9};
        Phrase p(MemoryMode::SharedMemory, Multimodality::Bimodal);
        p.dimension.set(3); p.dimension_input.set(2); p.connect(d, e, 3);
        Phrase q(MemoryMode::SharedMemory, Multimodality::Unimodal);
        q = p;
        CHECK(q.getValue(2, 2) == 9);
        Phrase o(MemoryMode::SharedMemory, Multimodality::Unimodal);
        Phrase own; own.dimension.set(1); own.record({5.f});
        o = own;
        CHECK(o.getValue(0, 0) == 5);
    } else if (c == "phrase-rescale-bimodal") {  // 6
        Phrase p(MemoryMode::OwnMemory, Multimodality::Bimodal);
        p.dimension.set(3); p.dimension_input.set(1);
        for (int t = 0; t < 4; t++) p.record({1.f * t, 2.f * t, 3.f * t});
        p.rescale({0.f, 1.f, 2.f}, {1.f, 2.f, 3.f});
        for (int t = 0; t < 4; t++) { CHECK(p.getValue(t, 1) == (2.f * t - 1) * 2); CHECK(p.getValue(t, 2) == (3.f * t - 2) * 3); }
    } else if (c == "phrase-redim-shared") {  // 7
        static float d[6] = {1, 2, 3, 4, 5, 6}, e[6] = {1, 2, 3, 4, 5, 6};
        Phrase p(MemoryMode::SharedMemory, Multimodality::Bimodal);
        p.dimension.set(2); p.connect(d, e, 3);
        p.dimension.set(3);
        CHECK(e[0] == 1);
    } else if (c == "phrase-redim-own") {
        Phrase p(MemoryMode::OwnMemory, Multimodality::Bimodal);
        p.record({1.f, 2.f}); p.dimension.set(3); p.record({1.f, 2.f, 3.f});
    } else if (c == "ts-copy") {  // 8
        TrainingSet a; fill(a, 2, 3, 1, 2, 1);
        TrainingSet b(a);
        CHECK(a.getPhrase(0) != b.getPhrase(0));
        b.getPhrase(0)->record({9.f});
        CHECK(a.getPhrase(0)->size() == 3);
        TrainingSet d(a); d.getPhrase(0)->label.set("z");
        CHECK(a.labels().count("a") == 1); CHECK(d.labels().count("z") == 1);
    } else if (c == "ts-lifetime") {  // 8b (ASan)
        std::shared_ptr<Phrase> ph;
        { TrainingSet a; fill(a, 1, 3, 1, 1, 1); ph = a.getPhrase(0); }
        ph->label.set("x");
    } else if (c == "kmeans-copy") {  // 9
        TrainingSet a; fill(a, 2, 20, 1, 2, 1);
        KMeans k(2); k.train(&a); k.reset(); k.filter({0.5f});
        KMeans l(k); l.reset(); l.filter({0.5f});
        CHECK(l.results.likeliest == k.results.likeliest);
        KMeans m(3); m = k; m.reset(); m.filter({0.5f});
    } else if (c == "kmeans-filter") {  // 9b (ASan)
        TrainingSet a; fill(a, 2, 20, 1, 2, 1);
        KMeans k(2); k.train(&a); k.filter({0.5f});
        CHECK(k.results.distances.size() == 2);
    } else if (c == "model-copy-params") {  // 10
        TrainingSet a; fill(a, 4, 20, 1, 2, 1);
        GMM g; g.configuration.gaussians.set(1); g.train(&a);
        GMM h(g);
        CHECK(h.models.begin()->second.shared_parameters == h.shared_parameters);
        GMM k; k = g;
        CHECK(k.models.begin()->second.shared_parameters == k.shared_parameters);
        HierarchicalHMM m; m.configuration.states.set(2); m.train(&a);
        HierarchicalHMM n(m);
        CHECK(n.models.begin()->second.shared_parameters == n.shared_parameters);
        CHECK(n.models.begin()->second.states[0].shared_parameters == n.shared_parameters);
    } else if (c == "model-copy-filter") {  // 10b (ASan)
        TrainingSet a; fill(a, 4, 20, 1, 2, 1);
        GMM g; g.configuration.gaussians.set(1); g.shared_parameters->likelihood_window.set(3); g.train(&a);
        GMM h(g);
        g.filter({0.4f}); h.filter({0.4f});
        CHECK(g.results.smoothed_log_likelihoods == h.results.smoothed_log_likelihoods);
        HierarchicalHMM m; m.configuration.states.set(2); m.configuration.hierarchical.set(false); m.train(&a);
        HierarchicalHMM n(m);
        m.filter({0.4f}); n.filter({0.4f});
        CHECK(m.results.smoothed_log_likelihoods == n.results.smoothed_log_likelihoods);
    } else if (c == "sequential") {  // 11
        TrainingSet a; fill(a, 4, 20, 1, 2, 1);
        GMM g; g.configuration.multithreading = MultithreadingMode::Sequential; g.configuration.gaussians.set(1);
        g.train(&a);
        CHECK(g.results.instant_likelihoods.size() == 2);
        g.filter({0.4f});
    } else if (c == "hhmm-ergodic-init") {  // 14
        TrainingSet a; fill(a, 4, 20, 1, 2, 1);
        HierarchicalHMM m; m.configuration.states.set(2); m.configuration.transition_mode.set(HMM::TransitionMode::Ergodic);
        m.train(&a);
        for (int rep = 0; rep < 2; rep++) {
            m.reset();
            m.filter({0.4f}); if (!rep) { m.filter({0.5f}); continue; }
            double s = 0;
            for (auto& p : m.models) for (int e = 0; e < 3; e++) for (double v : p.second.alpha_h[e]) s += v;
            printf("sum=%g\n", s);
            CHECK(std::fabs(s - 1.) < 1e-9);
        }
    } else if (c == "hhmm-window-twice") {  // non-hierarchical mode pushes each likelihood twice
        TrainingSet a; fill(a, 4, 20, 1, 2, 1);
        HierarchicalHMM m; m.configuration.states.set(2); m.configuration.hierarchical.set(false);
        m.shared_parameters->likelihood_window.set(2);
        m.train(&a);
        m.filter({0.1f}); double l1 = std::log(m.results.instant_likelihoods[0]);
        m.filter({0.7f}); double l2 = std::log(m.results.instant_likelihoods[0]);
        printf("%g %g -> %g\n", l1, l2, m.results.smoothed_log_likelihoods[0]);
        CHECK(std::fabs(m.results.smoothed_log_likelihoods[0] - 0.5 * (l1 + l2)) < 1e-9);
    } else if (c == "hmm-ergodic-alpha-size") {
        TrainingSet a; fill(a, 4, 20, 1, 2, 1);
        HierarchicalHMM m; m.configuration.states.set(3); m.configuration.hierarchical.set(false);
        m.configuration.transition_mode.set(HMM::TransitionMode::Ergodic);
        m.train(&a);
        m.filter({0.1f});
        CHECK(m.models.begin()->second.alpha.size() == 3);
        m.filter({0.2f});
    } else if (c == "hmm-likeliest-cov") {
        TrainingSet a(MemoryMode::OwnMemory, Multimodality::Bimodal); a.dimension.set(2); a.dimension_input.set(1); fill(a, 4, 20, 2, 2, 1);
        HierarchicalHMM m(true); m.configuration.states.set(2); m.configuration.regression_estimator.set(HMM::RegressionEstimator::Likeliest);
        m.train(&a); m.filter({0.1f});
        auto& s = m.models.begin()->second;
        CHECK(s.results.output_covariance == s.states[s.results.likeliest_state].results.output_covariance);
    } else if (c == "hmm-empty-phrase") {
        TrainingSet a; fill(a, 2, 20, 1, 1, 1); a.addPhrase(7, "a");
        HierarchicalHMM m; m.configuration.states.set(2); m.configuration.transition_mode.set(HMM::TransitionMode::Ergodic);
        m.train(&a);
        double s = 0; CHECK(m.models.size() == 1); for (double v : m.models["a"].prior) s += v;
        CHECK(std::fabs(s - 1) < 1e-9);
    } else if (c == "gauss-assign-mode") {  // callback of the source is copied by assignment
        GD b;
        { GD g(false, 2, 0); g.covariance = {1, 0.5, 0.5, 2}; g.updateInverseCovariance(); b = g; }
        b.covariance_mode.set(GD::CovarianceMode::Diagonal);
        CHECK(b.covariance.size() == 2);
    } else if (c == "hhmm-front0") {
        TrainingSet a; fill(a, 2, 20, 1, 1, 1);
        HierarchicalHMM m; m.configuration.states.set(1); m.train(&a);
        m.filter({0.1f}); 
        // class with one state: mass leaving through exit must come back
        m.filter({0.1f});
    } else if (c == "json-what") {
        std::string w;
        try { GD g(false, 2, 0); Json::Value v = g.toJson(); v["mean"] = Json::Value(3); GD h(v); } catch (std::exception& e) { w = e.what(); }
        printf("%s\n", w.c_str());
        CHECK(w.size() > 0 && w.size() < 500);
    } else if (c == "circ-grow") {
        CircularBuffer<double> b(2); b.push(1.); b.push(2.); b.push(3.); b.resize(4); b.push(4.);
        printf("%u %g\n", b.size_t(), b.mean()[0]);
    } else if (c == "dimension-input-limit") {
        Phrase p(MemoryMode::OwnMemory, Multimodality::Bimodal);
        bool th = false; try { p.dimension_input.set(2); } catch (std::domain_error&) { th = true; }
        CHECK(th);
        p.dimension.set(6); p.dimension_input.set(4); p.dimension.set(3);
        CHECK(p.dimension_input.get() < p.dimension.get());
        SharedParameters sp; sp.bimodal.set(true); sp.dimension.set(6); sp.dimension_input.set(4); sp.dimension.set(3);
        CHECK(sp.dimension_input.get() < 3);
        TrainingSet ts(MemoryMode::OwnMemory, Multimodality::Bimodal);
        ts.dimension.set(6); ts.dimension_input.set(4); ts.dimension.set(3);
        CHECK(ts.dimension_input.get() < 3);
        GD g(true, 6, 4); g.dimension.set(3);
        CHECK(g.dimension_input.get() < 3);
    } else if (c == "training-set-dimensions-after-phrases") {
        TrainingSet ts(MemoryMode::OwnMemory, Multimodality::Bimodal);
        ts.addPhrase(0, "a"); ts.addPhrase(1, "b");
        ts.dimension.set(6);
        bool th = false; try { ts.dimension_input.set(4); } catch (std::exception&) { th = true; }
        CHECK(!th);
        CHECK(ts.getPhrasesOfClass("a")->dimension_input.get() == 4);
    } else return 77;
    return fails ? 1 : 0;
}
