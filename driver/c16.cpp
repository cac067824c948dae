#include "models.hpp"
// JSON round trips
static Json::Value reparse(Json::Value const& v) {
    Json::FastWriter w;
    Json::Reader rd;
    Json::Value o;
    std::string s = w.write(v);
    if (!rd.parse(s, o)) throw Fail("JSON text cannot be parsed again");
    return o;
}
template <class T> static Json::Value through(Rng& r, T const& x) {
    Json::Value j = x.toJson();
    return r.b(0.3) ? reparse(j) : j;
}
template <class T> static void same(T const& a, T const& b, const char* w) { CHECK(js(a.toJson()) == js(b.toJson()), "%s: export differs after import", w); }
// replace an array found along the path by something malformed
static Json::Value breakArray(Rng& r, Json::Value a) {
    switch (r.i(0, 4)) {
    case 0: a.append(a.size() ? a[0u] : Json::Value(1.0)); return a;
    case 1: if (a.size() > 1) { a.resize(a.size() - 1); return a; } return Json::Value("text");
    case 2: return Json::Value(3.5);
    case 3: return Json::Value("text");
    default: return Json::Value();
    }
}
template <class T> static void refuses(Rng& r, T const& orig, Json::Value const& bad, const char* w) {
    T t(orig);
    std::string before = js(t.toJson());
    bool ok = false, other = false;
    try { t.fromJson(bad); } catch (JsonException& e) { ok = true; std::string m = e.what(); CHECK(m.find("Json") == 0, "message of the exception"); } catch (std::exception& e) { other = true; }
    CHECK(ok, "%s accepted %s", w, other ? "(other exception)" : "");
    CHECK(js(t.toJson()) == before, "%s: refused import changed the target", w);
}
template <class M> static void modelTrip(Rng& r, Cfg const& q, M& m, M& target) {
    Json::Value j = through(r, m);
    target.fromJson(j);
    CHECK(js(target.toJson()) == js(m.toJson()), "model export differs after import");
    M second(j);
    CHECK(js(second.toJson()) == js(m.toJson()), "model export differs after construction from JSON");
    CHECK(target.size() == m.size(), "number of classes");
    sameSettings(m, target, "import");
    sameSettings(m, second, "construction");
    m.reset();
    target.reset();
    if (m.size())
        for (int t = 0; t < 4; t++) {
            Frame f = obsFrame(r, q);
            Frame in = q.bim ? head(f, q.I) : f;
            m.filter(in);
            target.filter(in);
            CHECK(m.results.likeliest == target.results.likeliest, "likeliest class");
            nearVec(target.results.instant_likelihoods, m.results.instant_likelihoods, 1e-12, 0, "likelihoods of the imported model");
            nearVec(target.results.smoothed_normalized_likelihoods, m.results.smoothed_normalized_likelihoods, 1e-12, 0, "smoothed likelihoods of the imported model");
            if (q.bim) { nearVec(target.results.output_values, m.results.output_values, 1e-12, 1e-30, "regression of the imported model"); nearVec(target.results.output_covariance, m.results.output_covariance, 1e-12, 1e-30, "regression covariance of the imported model"); }
        }
}
void one(Rng& r, long c) {
    Cfg q = randCfg(r, 3);
    int what = r.i(0, 5);
    caseNote("object %d bimodal %d dimension %d input %d classes %d states %d gaussians %d hierarchical %d ergodic %d diagonal %d", what, q.bim, q.D, q.I, q.C, q.N, q.K, q.hier, q.erg, q.diag);
    if (what == 0) {
        Frames F = randFrames(r, r.i(0, 8), q.D, 3);
        Phrase p = mkPhrase(q.bim, q.D, q.I, F, r.b(0.2) ? "" : "lab");
        std::vector<std::string> cn;
        for (int d = 0; d < q.D; d++) cn.push_back(r.b(0.3) ? std::string() : fmt("col%d", r.i(0, 9)));
        if (r.b()) p.column_names = cn;
        Json::Value j = through(r, p);
        Phrase a(j), b;
        b.fromJson(j);
        same(a, p, "phrase");
        same(b, p, "phrase");
        CHECK(b.size() == p.size() && b.dimension.get() == p.dimension.get() && b.dimension_input.get() == p.dimension_input.get() && b.label.get() == p.label.get() && b.bimodal() == p.bimodal(), "phrase attributes");
        CHECK(b.column_names == p.column_names && a.column_names == p.column_names, "phrase column names");
        for (unsigned t = 0; t < p.size(); t++) for (int d = 0; d < q.D; d++) CHECK(p.getValue(t, d) == b.getValue(t, d) && F[t][d] == b.getValue(t, d), "phrase value");
        if (p.size()) {
            Json::Value bad = j;
            const char* key = q.bim ? (r.b() ? "data_input" : "data_output") : "data";
            if (bad.isMember(key)) {
                bad[key] = breakArray(r, bad[key]);
                refuses(r, p, bad, key);
                refuses(r, Phrase(mkPhrase(false, 2, 0, randFrames(r, 3, 2), "o")), bad, key);
            } else CHECK(false, "no %s", key);
        }
    } else if (what == 1) {
        TrainingSet ts = mkSet(q.bim, q.D, q.I);
        int n = r.i(0, 5);
        for (int i = 0; i < n; i++) ts.addPhrase(r.i(0, 30), mkPhrase(q.bim, q.D, q.I, randFrames(r, r.i(0, 6), q.D), lab(r.i(0, 2))));
        if (r.b(0.3)) { std::vector<std::string> cn; for (int d = 0; d < q.D; d++) cn.push_back(r.b(0.3) ? std::string() : fmt("c%d", r.i(0, 9))); ts.column_names.set(cn); }
        Json::Value j = through(r, ts);
        TrainingSet a(j), b(MemoryMode::OwnMemory, r.b() ? Multimodality::Bimodal : Multimodality::Unimodal);
        if (r.b()) b.addPhrase(99, "old");
        b.fromJson(j);
        same(a, ts, "training set");
        same(b, ts, "training set");
        CHECK(b.bimodal() == ts.bimodal() && b.dimension.get() == ts.dimension.get() && b.dimension_input.get() == ts.dimension_input.get() && b.column_names.get() == ts.column_names.get(), "attributes of the set");
        CHECK(b.labels() == ts.labels() && b.size() == ts.size(), "labels");
        for (auto& p : ts) CHECK(b.getPhrase(p.first) && b.getPhrase(p.first)->column_names == p.second->column_names && b.getPhrase(p.first)->label.get() == p.second->label.get(), "phrase attributes in the set");
        for (auto& p : ts) {
            auto o = b.getPhrase(p.first);
            CHECK(bool(o) && o->size() == p.second->size(), "phrase %d", p.first);
            for (unsigned t = 0; t < o->size(); t++) for (int d = 0; d < q.D; d++) CHECK(o->getValue(t, d) == p.second->getValue(t, d), "value of phrase %d", p.first);
        }
        for (auto& l : ts.labels()) CHECK(b.getPhrasesOfClass(l)->size() == ts.getPhrasesOfClass(l)->size(), "phrases of class");
        for (unsigned i = 0; i < j["phrases"].size(); i++) {
            const char* key = q.bim ? (r.b() ? "data_input" : "data_output") : "data";
            if (!j["phrases"][i].isMember(key) || j["phrases"][i][key].size() == 0) continue;
            Json::Value bad = j;
            bad["phrases"][i][key] = breakArray(r, bad["phrases"][i][key]);
            refuses(r, ts, bad, "phrase data in a training set");
            break;
        }
    } else if (what == 2) {
        G g = randGaussian(r, q.bim, q.D, q.I, q.diag, r.b(0.3) ? 0.1 : 1);
        Json::Value j = through(r, g);
        bool tb = r.b();
        G a(j), b(tb, 3, tb ? 1 : 0, r.b() ? CM::Full : CM::Diagonal);
        b.fromJson(j);
        same(a, g, "Gaussian");
        same(b, g, "Gaussian");
        CHECK(b.mean == g.mean && b.covariance == g.covariance && b.output_covariance == g.output_covariance && gDiag(b) == gDiag(g), "Gaussian parameters");
        for (int k = 0; k < 3; k++) {
            Frame f(q.D);
            for (int d = 0; d < q.D; d++) f[d] = float(g.mean[d] + r.n());
            CHECK(g.likelihood(f.data()) == b.likelihood(f.data()), "likelihood of the imported Gaussian");
            if (q.bim) {
                std::vector<float> o1, o2;
                g.regression(head(f, q.I), o1);
                b.regression(head(f, q.I), o2);
                CHECK(o1 == o2 && g.likelihood_input(f.data()) == b.likelihood_input(f.data()), "prediction of the imported Gaussian");
            }
        }
        for (std::string key : {"mean", "covariance", "inverse_covariance", "inverse_covariance_input"}) {
            if (key == "inverse_covariance_input" && !q.bim) continue;
            Json::Value bad = j;
            bad[key] = breakArray(r, bad[key]);
            refuses(r, g, bad, key.c_str());
        }
    } else {
        bool gmm = r.b(), trained = r.b(0.8);
        TrainingSet ts = trainSet(r, q, 2, 10, 14);
        std::vector<std::string> cn;
        for (int d = 0; d < q.D; d++) cn.push_back(fmt("col%d", r.i(0, 9)));
        if (r.b()) ts.column_names.set(cn);
        Cfg q2 = randCfg(r, 2);
        TrainingSet t2 = trainSet(r, q2, 1, 10, 14);
        auto tweak = [&](bool pre) {};
        if (gmm) {
            GMM m = mkGMM(r, q, nullptr), o = mkGMM(r, q2, r.b() ? &t2 : nullptr);
            m.configuration.relative_regularization.set(r.u(0.001, 0.1));
            m.configuration.absolute_regularization.set(r.u(0.05, 0.2));
            if (r.b(0.3)) m.configuration[lab(0)].gaussians.set(r.i(1, 3));
            if (r.b(0.3)) m.configuration.multiClass_regression_estimator = MultiClassRegressionEstimator::Mixture;
            m.shared_parameters->em_algorithm_percent_chg.set(r.u(0.001, 1));
            if (trained) m.train(&ts);
            randSettings(r, m);
            Json::Value j = m.toJson();
            modelTrip(r, q, m, o);
            CHECK(o.configuration.gaussians.get() == m.configuration.gaussians.get() && o.configuration.covariance_mode.get() == m.configuration.covariance_mode.get() &&
                      o.configuration.multiClass_regression_estimator == m.configuration.multiClass_regression_estimator && o.configuration.multithreading == m.configuration.multithreading &&
                      o.configuration.absolute_regularization.get() == m.configuration.absolute_regularization.get(), "configuration of the imported model");
            if (trained) {
                int i = r.i(0, int(m.size()) - 1);
                Json::Value bad = j;
                const char* w = "";
                switch (r.i(0, 2)) {
                case 0: w = "mixture_coeffs"; bad["models"][i][w] = breakArray(r, bad["models"][i][w]); break;
                case 1: w = "components"; bad["models"][i][w] = breakArray(r, bad["models"][i][w]); break;
                default: w = "mean"; bad["models"][i]["components"][0u][w] = breakArray(r, bad["models"][i]["components"][0u][w]);
                }
                refuses(r, m, bad, w);
                auto& s = m.models.begin()->second;
                Json::Value sj = s.toJson();
                same(s, SingleClassGMM(m.shared_parameters, sj), "single class model");
            }
        } else {
            HierarchicalHMM m = mkHMM(r, q, nullptr), o = mkHMM(r, q2, r.b() ? &t2 : nullptr);
            m.configuration.relative_regularization.set(r.u(0.001, 0.1));
            if (r.b(0.3)) m.configuration[lab(0)].states.set(r.i(1, 5));
            if (r.b(0.3)) m.configuration[lab(0)].regression_estimator.set(HMM::RegressionEstimator::Windowed);
            if (r.b(0.3)) m.configuration.regression_estimator.set(HMM::RegressionEstimator::Likeliest);
            if (r.b(0.3)) m.configuration.multiClass_regression_estimator = MultiClassRegressionEstimator::Mixture;
            if (trained) { m.train(&ts); if (r.b(0.3) && q.hier) m.addExitPoint(0, 0.25f); }
            randSettings(r, m);
            Json::Value j = m.toJson();
            modelTrip(r, q, m, o);
            CHECK(o.configuration.states.get() == m.configuration.states.get() && o.configuration.transition_mode.get() == m.configuration.transition_mode.get() &&
                      o.configuration.hierarchical.get() == m.configuration.hierarchical.get() && o.configuration.regression_estimator.get() == m.configuration.regression_estimator.get(), "configuration of the imported model");
            if (trained) {
                CHECK(o.prior == m.prior && o.transition == m.transition && o.exit_transition == m.exit_transition, "class level parameters");
                int i = r.i(0, int(m.size()) - 1);
                Json::Value bad = j;
                const char* w = "";
                switch (r.i(0, 6)) {
                case 0: w = "transition"; bad["models"][i][w] = breakArray(r, bad["models"][i][w]); break;
                case 1: w = "exitProbabilities"; bad["models"][i][w] = breakArray(r, bad["models"][i][w]); break;
                case 2: w = "states"; bad["models"][i][w] = breakArray(r, bad["models"][i][w]); break;
                case 3: w = "prior"; bad[w] = breakArray(r, bad[w]); break;
                case 4: w = "exit_transition"; bad[w] = breakArray(r, bad[w]); break;
                case 5: w = "transition"; bad[w][r.i(0, int(m.size()) - 1)] = breakArray(r, bad[w][0u]); break;
                default: w = "mixture_coeffs"; bad["models"][i]["states"][0u][w] = breakArray(r, bad["models"][i]["states"][0u][w]);
                }
                refuses(r, m, bad, w);
            }
        }
    }
}
