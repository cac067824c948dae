#include "models.hpp"
// hierarchical HMM: joint distribution and class level parameters
static VL exitsOf(SingleClassHMM const& h) {
    VL e;
    Json::Value j = h.toJson()["exitProbabilities"];
    for (auto v : j) e.push_back(v.asDouble());
    return e;
}
static void classLevel(HierarchicalHMM& m, const char* w) {
    int n = int(m.size());
    CHECK(int(m.prior.size()) == n && int(m.transition.size()) == n && int(m.exit_transition.size()) == n, "%s: class level sizes %d %d %d for %d classes", w, int(m.prior.size()), int(m.transition.size()), int(m.exit_transition.size()), n);
    LD p = 0;
    for (int i = 0; i < n; i++) {
        p += m.prior[i];
        CHECK(m.prior[i] >= 0 && m.exit_transition[i] >= 0 && m.exit_transition[i] <= 1, "%s: prior or exit transition out of range", w);
        CHECK(int(m.transition[i].size()) == n, "%s: transition row size", w);
        LD s = 0;
        for (auto v : m.transition[i]) { CHECK(v >= 0 && v <= 1, "%s: class transition %g", w, v); s += v; }
        NEAR((1 - (LD)m.exit_transition[i]) * s + m.exit_transition[i], 1, 1e-9, 0, "%s: class transition row %d with exit", w, i);
    }
    if (n) NEAR(p, 1, 1e-9, 0, "%s: class prior sum", w);
    for (auto& cm : m.models) {
        VL e = exitsOf(cm.second);
        CHECK(int(e.size()) == int(cm.second.parameters.states.get()), "%s: %d exit probabilities for %d states of class %s", w, int(e.size()), int(cm.second.parameters.states.get()), cm.first.c_str());
        for (auto v : e) CHECK(v >= 0 && v <= 1, "%s: exit probability %Lg", w, v);
    }
}
struct AL { VL a[3]; };
static void run(Rng& r, Cfg const& q, HierarchicalHMM& m, int T) {
    if (m.size() == 0) return;
    m.reset();
    int C = int(m.size());
    std::map<std::string, AL> al;
    for (int t = 0; t < T; t++) {
        Frame f = obsFrame(r, q, r.b(0.1) ? 20 : 1);
        Frame in = q.bim ? head(f, q.I) : f;
        VL x = toL(f);
        std::map<std::string, AL> nw;
        LD norm = 0;
        VL v1(C, 0), v2(C, 0);
        int s = 0;
        bool abnormal = false;
        for (auto& cm : m.models) {
            AL& a = al[cm.first];
            for (auto v : a.a[1]) v1[s] += v;
            for (auto v : a.a[2]) v2[s] += v;
            s++;
        }
        int dst = 0;
        for (auto& cm : m.models) {
            auto& h = cm.second;
            bool erg = h.parameters.transition_mode.get() == HMM::TransitionMode::Ergodic;
            int N = h.parameters.states.get();
            AL &a = al[cm.first], &n = nw[cm.first];
            for (auto& v : n.a) v.assign(N, 0);
            VL ex = exitsOf(h), front(N, 0);
            if (t == 0) {
                for (int k = 0; k < N; k++) {
                    n.a[0][k] = m.prior[dst] * (erg ? (LD)h.prior[k] : (LD)(k == 0)) * gmmLik(h.states[k], x, q.bim);
                    norm += n.a[0][k];
                }
            } else {
                LD into = 0;
                for (int q2 = 0; q2 < C; q2++) into += v1[q2] * m.transition[q2][dst] + m.prior[dst] * v2[q2];
                for (int k = 0; k < N; k++) {
                    if (erg) {
                        for (int j = 0; j < N; j++) front[k] += h.transition[j * N + k] / (1 - ex[j]) * a.a[0][j];
                        front[k] += h.prior[k] * into;
                        if (std::isnan(front[k]) || std::isinf(front[k])) abnormal = true;
                    } else if (k == 0) front[0] = h.transition[0] * a.a[0][0] + into;
                    else front[k] = h.transition[2 * k] / (1 - ex[k]) * a.a[0][k] + h.transition[2 * k - 1] / (1 - ex[k - 1]) * a.a[0][k - 1];
                    LD tmp = gmmLik(h.states[k], x, q.bim) * front[k];
                    n.a[2][k] = m.exit_transition[dst] * ex[k] * tmp;
                    n.a[1][k] = (1 - (LD)m.exit_transition[dst]) * ex[k] * tmp;
                    n.a[0][k] = (1 - ex[k]) * tmp;
                    norm += tmp;
                }
            }
            dst++;
        }
        if (abnormal || !(norm > 1e-280L)) return;
        m.filter(in);
        LD tot = 0;
        for (auto& cm : m.models) {
            auto& h = cm.second;
            int N = h.parameters.states.get();
            LD il = 0;
            for (int e = 0; e < 3; e++) {
                CHECK(int(h.alpha_h[e].size()) == N, "size of the state probabilities");
                for (int k = 0; k < N; k++) {
                    CHECK(h.alpha_h[e][k] >= 0, "state probability %g at frame %d", h.alpha_h[e][k], t);
                    NEAR(h.alpha_h[e][k], nw[cm.first].a[e][k] / norm, 1e-6, 1e-9, "probability of class %s exit %d state %d at frame %d", cm.first.c_str(), e, k, t);
                    tot += h.alpha_h[e][k];
                    il += nw[cm.first].a[e][k];
                }
                al[cm.first].a[e] = toL(h.alpha_h[e]);
            }
            NEAR(h.results.instant_likelihood, il, 1e-6, 1e-290, "instantaneous likelihood of class %s at frame %d", cm.first.c_str(), t);
        }
        NEAR(tot, 1, 1e-6, 0, "sum of the state probabilities at frame %d", t);
    }
}
void one(Rng& r, long c) {
    Cfg q = randCfg(r);
    q.hier = true;
    caseNote("bimodal %d dimension %d input %d classes %d states %d gaussians %d ergodic %d diagonal %d", q.bim, q.D, q.I, q.C, q.N, q.K, q.erg, q.diag);
    TrainingSet ts = trainSet(r, q);
    HierarchicalHMM m = mkHMM(r, q, nullptr);
    if (r.b(0.3)) m.configuration[lab(0)].states.set(r.i(1, 6));
    if (r.b(0.2)) m.configuration[lab(q.C - 1)].transition_mode.set(q.erg ? HMM::TransitionMode::LeftRight : HMM::TransitionMode::Ergodic);
    m.train(&ts);
    classLevel(m, "after training");
    run(r, q, m, 6);
    for (int op = 0; op < 4; op++) {
        switch (r.i(0, 5)) {
        case 0:
            if (m.size() > 1) { m.removeClass(lab(r.b() ? 0 : int(q.C) - 1)); classLevel(m, "after removing a class"); goto out; }
            break;
        case 1: m.train(&ts, lab(r.i(0, q.C - 1))); classLevel(m, "after training one class"); break;
        case 2:
            m.configuration.states.set(r.i(1, 6));
            m.train(&ts);
            classLevel(m, "after training with other states");
            break;
        case 3: {
            int mn = 99;
            for (auto& cm : m.models) mn = std::min(mn, int(cm.second.parameters.states.get()));
            m.addExitPoint(r.i(0, mn - 1), float(r.u(0, 0.9)));
            classLevel(m, "after adding an exit point");
            break;
        }
        case 4: { HierarchicalHMM n(m); m = n; classLevel(m, "copy"); break; }
        default:
            for (auto& v : m.prior) v = r.u(0.1, 1);
            for (auto& row : m.transition) for (auto& v : row) v = r.u(0.1, 1);
            m.normalizeTransitions();
            classLevel(m, "after normalisation");
            for (auto& v : m.exit_transition) v = r.u(0, 1);
        }
        run(r, q, m, 4);
    }
out:
    run(r, q, m, 3);
    if (r.b(0.5)) {
        m.train(&ts);
        classLevel(m, "after training everything again");
        run(r, q, m, 3);
    }
}
