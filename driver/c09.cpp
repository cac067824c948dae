#include "common.hpp"
// Gaussian mixtures: likelihood, responsibilities, regression
using namespace xmm;
static void coeffs(Rng& r, SingleClassGMM& m) {
    int mode = r.i(0, 4);
    double s = 0;
    for (auto& c : m.mixture_coeffs) { c = float(mode == 0 ? 1. / m.mixture_coeffs.size() : r.u(0.01, 1)); s += c; }
    if (mode == 1 && m.mixture_coeffs.size() > 1) m.mixture_coeffs[r.i(0, int(m.mixture_coeffs.size()) - 1)] = 0;
    if (mode > 2) for (auto& c : m.mixture_coeffs) c = float(c / s);
}
void one(Rng& r, long c) {
    bool bim = r.b(), diag = r.b(0.4);
    int D = r.i(bim ? 2 : 1, 5), I = bim ? r.i(1, D - 1) : 0, K = r.i(1, 5), O = D - I;
    caseNote("bimodal %d dimension %d input %d gaussians %d diagonal %d", bim, D, I, K, diag);
    auto sp = std::make_shared<SharedParameters>();
    sp->bimodal.set(bim);
    sp->dimension.set(D);
    if (bim) sp->dimension_input.set(I);
    sp->em_algorithm_min_iterations.set(1);
    sp->em_algorithm_max_iterations.set(1);
    SingleClassGMM m(sp);
    m.parameters.gaussians.set(K);
    m.parameters.covariance_mode.set(diag ? CM::Diagonal : CM::Full);
    TrainingSet ts = mkSet(bim, D, I);
    ts.addPhrase(0, mkPhrase(bim, D, I, randFrames(r, 12 + 3 * K, D), "a"));
    m.train(&ts);
    CHECK(int(m.components.size()) == K && int(m.mixture_coeffs.size()) == K && int(m.beta.size()) == K, "wrong number of components");
    double spread = r.b(0.3) ? r.u(0.05, 4) : 1;
    for (int k = 0; k < K; k++) m.components[k] = randGaussian(r, bim, D, I, diag, spread);
    coeffs(r, m);
    if (r.b(0.2)) { SingleClassGMM n(m); m = n; }
    m.reset();
    for (int rep = 0; rep < 4; rep++) {
        if (rep == 2) coeffs(r, m);
        Frame f(D);
        int at = r.i(0, K - 1);
        double d0 = r.b(0.15) ? 8 : 2;
        for (int d = 0; d < D; d++) f[d] = float(m.components[at].mean[d] + spread * d0 * r.n());
        Frame fi = bim ? head(f, I) : f;
        VL terms(K), x = toL(f);
        LD sum = 0;
        for (int k = 0; k < K; k++) {
            terms[k] = (LD)m.mixture_coeffs[k] * (bim ? gLikInput(m.components[k], x) : gLik(m.components[k], x));
            sum += terms[k];
        }
        double v = m.filter(fi);
        NEAR(v, sum, 1e-6, 1e-290, "likelihood");
        NEAR(m.results.instant_likelihood, sum, 1e-6, 1e-290, "instantaneous likelihood");
        LD bs = 0;
        for (int k = 0; k < K; k++) {
            if (terms[k] > 1e-200L * sum) NEAR(m.beta[k], terms[k] / sum, 1e-5, 1e-12, "responsibility %d", k);
            bs += m.beta[k];
        }
        NEAR(bs, 1, 1e-9, 0, "sum of the responsibilities");
        if (bim) {
            VL ov(O, 0), oc(diag ? O : O * O, 0);
            LD sc = 1;
            for (int k = 0; k < K; k++) {
                LD b = terms[k] / sum;
                VL rv = gRegression(m.components[k], toL(fi)), rc = gOutCov(m.components[k]);
                for (int o = 0; o < O; o++) { ov[o] += b * rv[o]; sc = std::max(sc, fabsl(rv[o])); }
                for (size_t o = 0; o < rc.size(); o++) { oc[o] += b * b * rc[o]; sc = std::max(sc, fabsl(rc[o])); }
            }
            nearVec(m.results.output_values, ov, 1e-3, 1e-3 * sc, "regression");
            nearVec(m.results.output_covariance, oc, 1e-4, 1e-4 * sc, "regression covariance");
        }
#ifdef XVC_PRIV
        for (int k = 0; k < K; k++) {
            LD e = (LD)m.mixture_coeffs[k] * gLik(m.components[k], x);
            NEAR(m.obsProb(f.data(), k), e, 1e-6, 1e-300, "component probability");
            if (bim) {
                NEAR(m.obsProb_bimodal(f.data(), f.data() + I, k), e, 1e-6, 1e-300, "bimodal component probability");
                NEAR(m.obsProb_input(f.data(), k), (LD)m.mixture_coeffs[k] * gLikInput(m.components[k], x), 1e-6, 1e-300, "input component probability");
            }
        }
        LD all = 0;
        for (int k = 0; k < K; k++) all += (LD)m.mixture_coeffs[k] * gLik(m.components[k], x);
        NEAR(m.obsProb(f.data()), all, 1e-6, 1e-300, "mixture probability");
        CHECK(throwsAs<std::out_of_range>([&] { m.obsProb(f.data(), K + r.i(0, 3)); }), "component index out of bounds accepted");
        if (bim) {
            NEAR(m.obsProb_bimodal(f.data(), f.data() + I), all, 1e-6, 1e-300, "bimodal mixture probability");
            LD s2 = 0;
            for (int k = 0; k < K; k++) s2 += (LD)m.mixture_coeffs[k] * gLikInput(m.components[k], x);
            NEAR(m.obsProb_input(f.data()), s2, 1e-6, 1e-300, "input mixture probability");
            NEAR(m.likelihood(head(f, I), Frame(f.begin() + I, f.end())), all, 1e-6, 1e-300, "joint likelihood");
            for (int k = 0; k < K; k++) NEAR(m.beta[k], (LD)m.mixture_coeffs[k] * gLik(m.components[k], x) / all, 1e-5, 1e-12, "joint responsibility");
        } else {
            CHECK(throwsAs<std::runtime_error>([&] { m.obsProb_input(f.data()); }), "input probability of a unimodal mixture");
            CHECK(throwsAs<std::runtime_error>([&] { m.obsProb_bimodal(f.data(), f.data()); }), "bimodal probability of a unimodal mixture");
        }
#endif
    }
#ifdef XVC_PRIV
    for (int z = 0; z < 3; z++) {
        if (z == 2) std::fill(m.mixture_coeffs.begin(), m.mixture_coeffs.end(), 0.f);
        else for (auto& q : m.mixture_coeffs) q = float(r.b(0.2) ? 0. : r.u(0, z ? 9 : 0.1));
        if (z == 1 && r.b()) { float sc = float(std::pow(10., -r.i(0, 25))); for (auto& q : m.mixture_coeffs) q *= sc; }
        VL e = toL(m.mixture_coeffs);
        LD s = 0, s2 = 0;
        for (auto q : e) s += q;
        m.normalizeMixtureCoeffs();
        for (int k = 0; k < K; k++) { NEAR(m.mixture_coeffs[k], s > 0 ? e[k] / s : 1.0L / K, 1e-5, 1e-9, "normalised coefficient"); s2 += m.mixture_coeffs[k]; }
        NEAR(s2, 1, 1e-5, 0, "sum of the normalised coefficients");
    }
#endif
}
