#include "common.hpp"
// statistics and rescaling
void one(Rng& r, long c) {
    bool bim = r.b();
    int D = r.i(bim ? 2 : 1, 5), I = bim ? r.i(1, D - 1) : 0;
    caseNote("bimodal %d dimension %d input %d", bim, D, I);
    xmm::TrainingSet ts = mkSet(bim, D, I);
    int n = r.i(1, 5);
    Frames all;
    std::map<int, Frames> byIdx;
    auto stats = [&](Frames const& F, VL& mean, VL& sd, VL& mn, VL& mx) {
        mean.assign(D, 0); sd.assign(D, 0); mn.assign(D, 1e30L); mx.assign(D, -1e30L);
        for (auto& f : F) for (int d = 0; d < D; d++) { mean[d] += f[d]; mn[d] = std::min(mn[d], (LD)f[d]); mx[d] = std::max(mx[d], (LD)f[d]); }
        for (auto& m : mean) m /= F.size();
        for (auto& f : F) for (int d = 0; d < D; d++) sd[d] += (f[d] - mean[d]) * (f[d] - mean[d]);
        for (auto& s : sd) s = sqrtl(s / F.size());
    };
    for (int k = 0; k < n; k++) {
        int T = (k > 0 && r.b(0.15)) ? 0 : r.b(0.1) ? r.i(250, 300) : r.i(1, 12);
        Frames f = randFrames(r, T, D, r.u(0.5, 4), r.u(-3, 3));
        int idx = k * r.i(1, 3) + (k ? 3 * k : 0);
        ts.addPhrase(idx, mkPhrase(bim, D, I, f, r.b() ? "a" : "b"));
        byIdx[idx] = f;
    }
    for (auto& x : byIdx) all.insert(all.end(), x.second.begin(), x.second.end());
    auto verify = [&](xmm::TrainingSet& ts) {
        VL me, sd, mn, mx;
        auto cmp = [&](std::vector<float> gm, std::vector<float> gs, std::vector<std::pair<float, float>> gx, Frames const& F, const char* w) {
            stats(F, me, sd, mn, mx);
            CHECK(int(gm.size()) == D && int(gs.size()) == D && int(gx.size()) == D, "%s: sizes", w);
            for (int d = 0; d < D; d++) {
                LD sc = std::max(fabsl(mn[d]), fabsl(mx[d])) + 1e-6L;
                NEAR(gm[d], me[d], 2e-5, 2e-5 * sc, "%s: mean, dimension %d", w, d);
                NEAR(gs[d], sd[d], 2e-3, 2e-4 * sc, "%s: standard deviation, dimension %d", w, d);
                NEAR(gx[d].first, mn[d], 1e-6, 0, "%s: minimum, dimension %d", w, d);
                NEAR(gx[d].second, mx[d], 1e-6, 0, "%s: maximum, dimension %d", w, d);
            }
        };
        cmp(ts.mean(), ts.standardDeviation(), ts.minmax(), all, "set");
        for (auto& x : byIdx)
            if (!x.second.empty()) {
                auto p = ts.getPhrase(x.first);
                cmp(p->mean(), p->standardDeviation(), p->minmax(), x.second, "phrase");
            }
        for (auto& l : ts.labels()) {
            Frames F;
            for (auto& x : byIdx) if (ts.getPhrase(x.first)->label.get() == l) F.insert(F.end(), x.second.begin(), x.second.end());
            auto* s = ts.getPhrasesOfClass(l);
            if (!F.empty()) cmp(s->mean(), s->standardDeviation(), s->minmax(), F, "class subset");
        }
    };
    verify(ts);
    for (int rep = 0; rep < 2; rep++) {
        std::vector<float> off(D), gain(D);
        for (auto& x : off) x = float(r.u(-2, 2));
        for (auto& x : gain) x = float(r.b(0.2) ? -r.u(0.2, 2) : r.u(0.2, 3));
        bool norm = r.b(0.25);
        bool flat = false;
        if (norm) {
            off = ts.mean();
            gain = ts.standardDeviation();
            for (auto& g : gain) { if (g < 1e-3) flat = true; g = 1.f / g; }
            if (flat) break;
            ts.normalize();
        } else if (r.b(0.7))
            ts.rescale(off, gain);
        else
            for (auto it = ts.begin(); it != ts.end(); ++it) it->second->rescale(off, gain);
        all.clear();
        for (auto& x : byIdx) {
            auto p = ts.getPhrase(x.first);
            CHECK(p->size() == x.second.size(), "rescale changed the length");
            for (size_t t = 0; t < x.second.size(); t++)
                for (int d = 0; d < D; d++) {
                    LD e = ((LD)x.second[t][d] - off[d]) * gain[d];
                    NEAR(p->getValue(t, d), e, 1e-5, 1e-5, "%s: frame %d dimension %d", norm ? "normalize" : "rescale", int(t), d);
                    x.second[t][d] = p->getValue(t, d);
                }
            all.insert(all.end(), x.second.begin(), x.second.end());
        }
        verify(ts);
    }
}
