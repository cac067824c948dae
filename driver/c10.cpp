#include "em.hpp"
// one EM step of a Gaussian mixture: train with k steps and with k+1 steps
using namespace xmm;
void one(Rng& r, long c) {
    bool bim = r.b(0.4), diag = r.b(0.4);
    int D = r.i(bim ? 2 : 1, 4), I = bim ? r.i(1, D - 1) : 0, K = r.i(1, 4), np = r.i(1, 3);
    TrainingSet ts = mkSet(bim, D, I);
    Frames all;
    double sc = r.b(0.3) ? r.u(0.1, 10) : 1, off = r.b(0.3) ? r.u(-5, 5) : 0;
    for (int i = 0; i < np; i++) {
        Frames F = randFrames(r, r.i(std::max(4, 2 * K), 30), D, sc, off);
        if (i == 1 && r.b(0.15)) F.clear();
        ts.addPhrase(i * 3 + r.i(0, 2), mkPhrase(bim, D, I, F, "a"));
        all.insert(all.end(), F.begin(), F.end());
    }
    double absr = r.pick(std::vector<double>{0.01, 0.001, 0.5, 2}), relr = r.pick(std::vector<double>{0.01, 0.1, 0.5, 1e-9});
    int k = r.i(1, 4);
    caseNote("bimodal %d dimension %d input %d gaussians %d diagonal %d phrases %d frames %d steps %d abs %g rel %g", bim, D, I, K, diag, np, int(all.size()), k, absr, relr);
    std::vector<std::shared_ptr<SingleClassGMM>> ms;
    std::vector<std::shared_ptr<SharedParameters>> sps;
    double logp = 0;
    for (int q = 0; q < 2; q++) {
        auto sp = std::make_shared<SharedParameters>();
        sp->bimodal.set(bim);
        sp->dimension.set(D);
        if (bim) sp->dimension_input.set(I);
        sp->em_algorithm_min_iterations.set(k + q);
        sp->em_algorithm_max_iterations.set(k + q);
        auto m = std::make_shared<SingleClassGMM>(sp);
        m->parameters.gaussians.set(K);
        m->parameters.covariance_mode.set(diag ? CM::Diagonal : CM::Full);
        m->parameters.absolute_regularization.set(absr);
        m->parameters.relative_regularization.set(relr);
        m->train(&ts);
        if (m->training_status.status == TrainingEvent::Status::Error) return;
        ms.push_back(m);
        sps.push_back(sp);
        logp = m->training_status.log_likelihood;
    }
    VL reg = refReg(all, absr, relr);
    RefGMM R = refEM(*ms[0], all, reg);
    if (R.skip) return;
    LD mag = 1;
    for (auto& f : all) for (auto v : f) mag = std::max<LD>(mag, fabsl(v));
    NEAR(logp, R.logp, 1e-5, 1e-5, "log-likelihood of the step");
    for (int n = 0; n < K; n++) {
        NEAR(ms[1]->mixture_coeffs[n], R.coef[n], 1e-4, 1e-6, "mixture coefficient %d", n);
        nearVec(ms[1]->components[n].mean, R.mean[n], 1e-4, 1e-5 * mag, "mean");
        nearVec(ms[1]->components[n].covariance, R.cov[n], 1e-4, 1e-5 * mag * mag, "covariance");
        VL inv;
        LD det = refInverse(gCov(ms[1]->components[n]), D, &inv);
        Json::Value j = ms[1]->components[n].toJson();
        NEAR(j["covariance_determinant"].asDouble(), det, 1e-4, 1e-290, "determinant not updated");
        if (!diag) for (int a = 0; a < D; a++) for (int b = 0; b < a; b++) CHECK(ms[1]->components[n].covariance[a * D + b] == ms[1]->components[n].covariance[b * D + a], "covariance not symmetric");
    }
}
