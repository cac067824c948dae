#include "models.hpp"
// number of EM iterations, progression, final state
struct Rec {
    std::vector<TrainingEvent> e;
    void on(TrainingEvent const& x) { e.push_back(x); }
};
static void stopRule(std::vector<TrainingEvent> const& ev, unsigned mn, unsigned mx, double pct, const char* w) {
    CHECK(!ev.empty(), "%s: no event", w);
    unsigned runs = 0;
    LD old = -1.7976931348623157e308L;
    bool stopped = false;
    for (size_t i = 0; i < ev.size(); i++) {
        auto& e = ev[i];
        if (e.status == TrainingEvent::Status::Run) {
            CHECK(!stopped, "%s: step %u after the stop criterion was met", w, runs + 1);
            runs++;
            CHECK(unsigned(e.iterations) == runs, "%s: event of iteration %d is number %u", w, int(e.iterations), runs);
            CHECK(e.progression >= 0 && e.progression <= 1, "%s: progression %g at iteration %u (min %u max %u)", w, e.progression, runs, mn, mx);
            double o = double(old), n = e.log_likelihood;
            bool conv = mx >= mn ? runs >= mx : (runs >= mn && 100. * fabs((n - o) / n) <= pct);
            stopped = conv || runs >= 1000;
            old = n;
        } else CHECK(i + 1 == ev.size(), "%s: final event is not the last one", w);
    }
    CHECK(stopped, "%s: stopped after %u steps before the criterion (min %u max %u)", w, runs, mn, mx);
    CHECK(ev.back().status == TrainingEvent::Status::Done, "%s: last status", w);
}
void one(Rng& r, long c) {
    Cfg q = randCfg(r, 3);
    static std::vector<std::unique_ptr<Rec>> keep;  // listeners outlive the models
    keep.clear();
    unsigned mn = r.i(1, 12), mx = r.b() ? 0 : r.i(0, 20);
    double pct = r.pick(std::vector<double>{0.01, 0.1, 1, 10, 1e-4});
    if (c % 40 == 7) { q.C = 1; q.N = 1; q.K = 1; q.D = 1; q.bim = false; q.I = 0; mn = r.b() ? 1005 : r.i(1, 5); mx = mn > 1000 ? 0 : 1010; }
    if (c % 40 == 27) { mn = r.i(1, 3); mx = 0; pct = 0; q.C = 1; q.N = std::min(q.N, 3); }
    bool gmm = r.b();
    caseNote("%s min %u max %u percent %g bimodal %d dimension %d classes %d states %d gaussians %d", gmm ? "GMM" : "HMM", mn, mx, pct, q.bim, q.D, q.C, q.N, q.K);
    if (r.b(0.5)) {  // single class
        auto sp = std::make_shared<SharedParameters>();
        sp->bimodal.set(q.bim);
        sp->dimension.set(q.D);
        if (q.bim) sp->dimension_input.set(q.I);
        sp->em_algorithm_min_iterations.set(mn);
        sp->em_algorithm_max_iterations.set(mx);
        sp->em_algorithm_percent_chg.set(pct);
        Cfg o = q;
        o.C = 1;
        TrainingSet ts = trainSet(r, o, 2, 8, 16);
        SingleClassGMM g(sp);
        SingleClassHMM h(sp);
        g.parameters.gaussians.set(q.K);
        h.parameters.gaussians.set(q.K);
        h.parameters.states.set(q.N);
        g.parameters.absolute_regularization.set(0.1);
        h.parameters.absolute_regularization.set(0.1);
        SingleClassProbabilisticModel* m = gmm ? (SingleClassProbabilisticModel*)&g : &h;
        m->label = "lab";
        int times = r.i(1, 2);
        for (int k = 0; k < times; k++) {
            keep.emplace_back(new Rec);
            Rec& rec = *keep.back();
            m->training_events.removeListeners();
            m->training_events.addListener(&rec, &Rec::on);
            m->train(&ts);
            if (m->training_status.status == TrainingEvent::Status::Error) return;
            stopRule(rec.e, mn, mx, pct, "training");
            CHECK(!m->isTraining(), "still training");
            CHECK(m->training_status.status == TrainingEvent::Status::Done, "final status");
            for (auto& e : rec.e) CHECK(e.label == "lab", "label of the event");
        }
        TrainingSet empty = mkSet(q.bim, q.D, q.I);
        keep.emplace_back(new Rec);
        Rec& rec = *keep.back();
        m->training_events.removeListeners();
        m->training_events.addListener(&rec, &Rec::on);
        m->train(r.b() ? &empty : nullptr);
        CHECK(rec.e.size() == 1 && rec.e[0].status == TrainingEvent::Status::Error && !m->isTraining() && m->training_status.status == TrainingEvent::Status::Error, "training on nothing");
    } else {
        TrainingSet ts = trainSet(r, q, 2, 8, 16);
        auto run = [&](auto& m) {
            m.shared_parameters->em_algorithm_min_iterations.set(mn);
            m.shared_parameters->em_algorithm_max_iterations.set(mx);
            m.shared_parameters->em_algorithm_percent_chg.set(pct);
            m.configuration.multithreading = r.b(0.7) ? MultithreadingMode::Sequential : MultithreadingMode::Parallel;
            keep.emplace_back(new Rec);
            Rec& rec = *keep.back();
            m.training_events.addListener(&rec, &Rec::on);
            if (r.b(0.7)) m.train(&ts);
            else for (int k = 0; k < q.C; k++) m.train(&ts, lab(k));
            CHECK(!m.training() && m.trained() && int(m.size()) == q.C, "model is not trained");
            std::map<std::string, std::vector<TrainingEvent>> by;
            int alldone = 0;
            for (auto& e : rec.e) {
                if (e.status == TrainingEvent::Status::Alldone) alldone++;
                else by[e.label].push_back(e);
            }
            CHECK(alldone >= 1, "no final event");
            CHECK(int(by.size()) == q.C, "events of %d classes", int(by.size()));
            for (auto& b : by) stopRule(b.second, mn, mx, pct, b.first.c_str());
        };
        if (gmm) { GMM m = mkGMM(r, q, nullptr); run(m); }
        else { HierarchicalHMM m = mkHMM(r, q, nullptr); run(m); }
    }
}
