#include "common.hpp"
// Gaussian regression and conditional covariance
void one(Rng& r, long c) {
    bool diag = r.b(0.3);
    int D = r.i(2, 6), I = r.i(1, D - 1);
    caseNote("dimension %d input %d diagonal %d", D, I, diag);
    G g = randGaussian(r, true, D, I, diag, r.b(0.3) ? r.u(0.1, 5) : 1);
    if (r.b(0.3)) {  // recompute after new parameters
        VL S = randSPD(r, D);
        if (diag) for (int d = 0; d < D; d++) g.covariance[d] = double(S[d * D + d]);
        else g.covariance = toD(S);
        g.updateInverseCovariance();
    }
    if (r.b(0.2)) { G h(g); g = h; }
    if (r.b(0.1)) { G h; h.fromJson(g.toJson()); g = h; }
    nearVec(g.output_covariance, gOutCov(g), 1e-7, 1e-7, "output covariance");
    for (int k = 0; k < 4; k++) {
        Frame in(I);
        for (int d = 0; d < I; d++) in[d] = float(g.mean[d] + r.u(-3, 3));
        std::vector<float> out(r.i(0, 4), 9.f), out2;
        Json::Value j0 = g.toJson();
        g.regression(in, out);
        VL e = gRegression(g, toL(in));
        LD sc = 1;
        for (auto x : gCov(g)) sc = std::max(sc, fabsl(x));
        CHECK(out.size() == e.size(), "predicted output has %d values", int(out.size()));
        for (size_t o = 0; o < e.size(); o++) NEAR(out[o], e[o], 1e-4, 2e-4 * sc * 5, "predicted output %d", int(o));
        g.regression(in, out2);
        CHECK(out == out2, "regression depends on the previous content of the result");
        CHECK(js(g.toJson()) == js(j0), "regression changed the Gaussian");
    }
    G u(false, D, 0);
    std::vector<float> out;
    CHECK(throwsAny([&] { u.regression(Frame(D, 0.f), out); }), "regression of a unimodal Gaussian");
}
