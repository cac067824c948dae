#include "models.hpp"
// classes of a model, configuration, copies
static std::set<std::string> labelsOf(GMM const& m) { std::set<std::string> s; for (auto& x : m.models) s.insert(x.first); return s; }
static std::set<std::string> labelsOf(HierarchicalHMM const& m) { std::set<std::string> s; for (auto& x : m.models) s.insert(x.first); return s; }
static std::string str(std::set<std::string> const& s) { std::string o; for (auto& x : s) o += x + ","; return o; }
typedef ClassParameters<GMM> PG;
typedef ClassParameters<HMM> PH;
static std::string clsJson(GMM& m, std::string const& l) { return js(m.models[l].toJson()); }
static std::string clsJson(HierarchicalHMM& m, std::string const& l) {
    Json::Value j = m.models[l].toJson();
    if (!m.configuration.hierarchical.get()) j.removeMember("transition");  // cyclic return added at reset
    return js(j);
}
static std::string cfgJson(GMM& m, std::string const& l) { return js(m.configuration.includes(l) ? ((PG&)m.configuration[l]).toJson() : ((PG&)m.configuration).PG::toJson()); }
static std::string cfgJson(HierarchicalHMM& m, std::string const& l) { return js(m.configuration.includes(l) ? ((PH&)m.configuration[l]).toJson() : ((PH&)m.configuration).PH::toJson()); }
static int nGauss(SingleClassGMM& s) { return int(s.components.size()); }
static int nGauss(SingleClassHMM& s) { return int(s.states.size()); }
static int cGauss(PG& p) { return int(p.gaussians.get()); }
static int cGauss(PH& p) { return int(p.states.get()); }
static void setRandom(Rng& r, PG& p) { p.gaussians.set(r.i(1, 3)); p.relative_regularization.set(r.u(0.01, 0.1)); if (r.b(0.3)) p.absolute_regularization.set(r.u(0.1, 0.2)); }
static void setRandom(Rng& r, PH& p) { p.states.set(r.i(1, 5)); p.relative_regularization.set(r.u(0.01, 0.1)); if (r.b(0.3)) p.transition_mode.set(r.b() ? HMM::TransitionMode::Ergodic : HMM::TransitionMode::LeftRight); if (r.b(0.3)) p.regression_estimator.set(HMM::RegressionEstimator::Likeliest); }
template <class R> static std::string resStr(R const& x) {
    std::string s = x.likeliest;
    for (auto v : x.instant_likelihoods) s += fmt(" %.17g", v);
    for (auto v : x.smoothed_log_likelihoods) s += fmt(" %.17g", v);
    for (auto v : x.smoothed_normalized_likelihoods) s += fmt(" %.17g", v);
    for (auto v : x.output_values) s += fmt(" %.9g", v);
    for (auto v : x.output_covariance) s += fmt(" %.9g", v);
    return s;
}
template <class M> static void holds(M& m, std::set<std::string> const& want, const char* w, std::set<std::string> const* cfgOf = nullptr) {
    CHECK(labelsOf(m) == want, "%s: classes %s expected %s", w, str(labelsOf(m)).c_str(), str(want).c_str());
    CHECK(m.size() == want.size(), "%s: size", w);
    for (auto& cm : m.models) {
        CHECK(cm.second.label == cm.first, "%s: label of class %s is %s", w, cm.first.c_str(), cm.second.label.c_str());
        CHECK(cm.second.shared_parameters == m.shared_parameters, "%s: shared parameters of class %s", w, cm.first.c_str());
        CHECK(!cm.second.isTraining(), "%s: class %s still training", w, cm.first.c_str());
        CHECK(nGauss(cm.second) == cGauss(cm.second.parameters), "%s: class %s has %d parts", w, cm.first.c_str(), nGauss(cm.second));
        if (!cfgOf || cfgOf->count(cm.first)) CHECK(js(cm.second.parameters.toJson()) == cfgJson(m, cm.first), "%s: configuration of class %s", w, cm.first.c_str());
        CHECK(m.hasClass(cm.first), "%s: hasClass", w);
    }
}
template <class M> static std::vector<Frame> obs(Rng& r, Cfg const& q, int n) {
    std::vector<Frame> o;
    for (int i = 0; i < n; i++) { Frame f = obsFrame(r, q); o.push_back(q.bim ? head(f, q.I) : f); }
    return o;
}
template <class M> static void run(Rng& r, Cfg const& q, M m) {
    if (r.b(0.4)) setRandom(r, m.configuration[lab(r.i(0, q.C - 1))]);
    if (r.b(0.2)) setRandom(r, m.configuration[lab(7)]);
    setRandom(r, m.configuration);
    if (r.b(0.5)) m.configuration.multithreading = r.b(0.8) ? MultithreadingMode::Sequential : MultithreadingMode::Parallel;
    else m.configuration.multithreading = MultithreadingMode::Sequential;
    if (r.b(0.4)) m.configuration.multiClass_regression_estimator = MultiClassRegressionEstimator::Mixture;
    TrainingSet ts = trainSet(r, q, 2, 10, 16);
    m.train(&ts);
    std::set<std::string> cls = ts.labels();
    holds(m, cls, "after training");
    for (int op = 0; op < 5; op++) {
        switch (r.i(0, 7)) {
        case 0: {  // remove one class
            if (cls.size() < 2) break;
            std::string l = *std::next(cls.begin(), r.i(0, int(cls.size()) - 1));
            std::map<std::string, std::string> b;
            for (auto& x : cls) b[x] = clsJson(m, x);
            m.removeClass(l);
            cls.erase(l);
            CHECK(labelsOf(m) == cls, "classes after removing %s: %s", l.c_str(), str(labelsOf(m)).c_str());
            for (auto& x : cls) CHECK(clsJson(m, x) == b[x], "removing %s changed class %s", l.c_str(), x.c_str());
            CHECK(throwsAs<std::out_of_range>([&] { m.removeClass(l); }), "removing an absent class");
            CHECK(labelsOf(m) == cls, "classes after a refused removal");
            break;
        }
        case 1: {  // retrain / add one class
            std::string l = lab(r.i(0, q.C - 1));
            std::map<std::string, std::string> b;
            for (auto& x : cls) if (x != l) b[x] = clsJson(m, x);
            if (r.b()) setRandom(r, m.configuration[l]);
            m.train(&ts, l);
            cls.insert(l);
            std::set<std::string> only{l};
            holds(m, cls, "after training one class", &only);
            for (auto& x : b) CHECK(clsJson(m, x.first) == x.second, "training %s changed class %s", l.c_str(), x.first.c_str());
            CHECK(throwsAs<std::out_of_range>([&] { m.train(&ts, "nobody"); }), "training an absent class");
            CHECK(labelsOf(m) == cls && !m.training(), "after a refused training");
            break;
        }
        case 2: {  // train on another set
            TrainingSet t2 = ts;
            if (cls.size() > 1 && r.b()) t2.removePhrasesOfClass(*cls.begin());
            if (r.b()) t2.addPhrase(77, mkPhrase(q.bim, q.D, q.I, randFrames(r, 14, q.D), "new"));
            if (t2.empty()) break;
            if (r.b()) setRandom(r, m.configuration);
            m.train(&t2);
            cls = t2.labels();
            holds(m, cls, "after training on another set");
            break;
        }
        case 3: {  // a class whose training fails
            TrainingSet t2 = ts;
            Frames F = randFrames(r, 12, q.D);
            for (auto& f : F) f[r.i(0, q.D - 1)] = NAN;
            t2.addPhrase(88, mkPhrase(q.bim, q.D, q.I, F, "bad"));
            struct Rec { std::set<std::string> err; bool all = false; void on(TrainingEvent const& e) { if (e.status == TrainingEvent::Status::Error) err.insert(e.label); if (e.status == TrainingEvent::Status::Alldone) all = true; } } rec;
            M n(m);
            n.training_events.addListener(&rec, &Rec::on);
            n.train(&t2);
            CHECK(rec.all, "training not finished");
            std::set<std::string> want = t2.labels();
            for (auto& e : rec.err) want.erase(e);
            CHECK(labelsOf(n) == want, "classes %s after the failure of %s", str(labelsOf(n)).c_str(), str(rec.err).c_str());
            CHECK(!n.training(), "still training");
            for (auto& x : n.models)
                for (auto l : {0}) { std::string s = js(x.second.toJson()); CHECK(s.find("nan") == std::string::npos || rec.err.count(x.first) == 0, "invalid class kept"); }
            if (n.size()) { n.reset(); n.filter(Frame(q.bim ? q.I : q.D, 0.1f)); }
            n.training_events.removeListeners();
            {   // cancelling one class after some of its steps
                M k(m);
                k.configuration.multithreading = MultithreadingMode::Sequential;
                std::string victim = *std::next(ts.labels().begin(), r.i(0, int(ts.labels().size()) - 1));
                struct Can { M* m; std::string v; int at; bool done; void on(TrainingEvent const& e) { if (e.label == v && e.status == TrainingEvent::Status::Run && e.iterations >= at) m->models[v].cancelTraining(); if (e.label == v && e.status == TrainingEvent::Status::Cancel) done = true; } } can{&k, victim, r.i(1, 4), false};
                k.training_events.addListener(&can, &Can::on);
                k.train(&ts);
                std::set<std::string> want2 = ts.labels();
                if (can.done) want2.erase(victim);
                CHECK(labelsOf(k) == want2, "classes %s after cancelling %s", str(labelsOf(k)).c_str(), victim.c_str());
                CHECK(!k.training(), "still training after cancelling");
                k.training_events.removeListeners();
            }
            break;
        }
        case 4: m.clear(); CHECK(m.size() == 0 && !m.trained(), "clear"); m.train(&ts); cls = ts.labels(); holds(m, cls, "after clear and training"); break;
        default: {  // copies
            auto O = obs<M>(r, q, 5);
            m.reset();
            M orig(m);
            int how = r.i(0, 2);
            M other(q.bim);
            if (r.b(0.4)) { Cfg q2 = q; q2.C = 1 + r.i(0, 2); TrainingSet t3 = trainSet(r, q2, 1, 10, 12); other.configuration.multithreading = MultithreadingMode::Sequential; other.train(&t3); }
            bool pre = r.b(0.5);
            if (pre) m.filter(O[0]);
            M n = how == 0 ? M(m) : M(q.bim);
            if (how == 1) n = m;
            if (how == 2) { other = m; n = other; }
            CHECK(js(n.toJson()) == js(m.toJson()), "copy is not equal");
            sameSettings(m, n, "copy");
            holds(n, cls, "copy", new std::set<std::string>());
            if (pre && how != 2) CHECK(resStr(n.results) == resStr(m.results), "results of the copy");
            n.reset();
            m.reset();
            std::vector<std::string> A;
            for (auto& o : O) { m.filter(o); A.push_back(resStr(m.results)); }
            for (size_t t = 0; t < O.size(); t++) { n.filter(O[t]); CHECK(resStr(n.results) == A[t], "copy gives other results at frame %d", int(t)); }
            // act on the copy, then check the original
            m.reset();
            std::string before = js(m.toJson());
            n.reset();
            std::string nb = js(n.toJson());
            M& act = r.b() ? n : m;
            M& oth = &act == &n ? m : n;
            size_t half = O.size() / 2;
            if (r.b(0.3)) for (auto& v : O) act.filter(v);
            for (size_t t = 0; t < half; t++) { oth.filter(O[t]); CHECK(resStr(oth.results) == A[t], "frame %d before the change", int(t)); }
            std::set<std::string> ac = cls;
            int k = r.i(0, 6);
            if (k == 0 && cls.size() > 1) act.removeClass(*cls.begin());
            else if (k == 1) act.train(&ts, lab(0));
            else if (k == 2) { TrainingSet t2 = mkSet(q.bim, q.D + 1, q.I); t2.addPhrase(0, mkPhrase(q.bim, q.D + 1, q.I, randFrames(r, 15, q.D + 1), "w")); act.train(&t2); }
            else if (k == 3) act.clear();
            else if (k == 4) { setRandom(r, act.configuration); act.shared_parameters->likelihood_window.set(9); act.configuration.multiClass_regression_estimator = oth.configuration.multiClass_regression_estimator == MultiClassRegressionEstimator::Mixture ? MultiClassRegressionEstimator::Likeliest : MultiClassRegressionEstimator::Mixture; }
            else if (k == 5) act.reset();
            else for (auto& o : O) act.filter(o);
            for (size_t t = half; t < O.size(); t++) { oth.filter(O[t]); CHECK(resStr(oth.results) == A[t], "frame %d after changing the other model (%d)", int(t), k); }
            oth.reset();
            CHECK(js(oth.toJson()) == (&oth == &m ? before : nb), "changing one model changed the other (%d)", k);
            if (k == 1) { M z(oth); z.train(&ts, lab(0)); }
            m = orig;
            m.configuration.multithreading = MultithreadingMode::Sequential;
            break;
        }
        }
        if (m.size()) { m.reset(); for (auto& o : obs<M>(r, q, 2)) m.filter(o); }
    }
}
void one(Rng& r, long c) {
    Cfg q = randCfg(r, 4);
    bool gmm = r.b(0.5);
    caseNote("%s bimodal %d dimension %d input %d classes %d states %d gaussians %d hierarchical %d ergodic %d diagonal %d", gmm ? "GMM" : "HMM", q.bim, q.D, q.I, q.C, q.N, q.K, q.hier, q.erg, q.diag);
    if (gmm) run(r, q, mkGMM(r, q, nullptr));
    else run(r, q, mkHMM(r, q, nullptr));
}
