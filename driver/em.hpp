// reference EM step of a Gaussian mixture over frames X
#pragma once
#include "common.hpp"
struct RefGMM { std::vector<float> coef; std::vector<VL> mean, cov; LD logp; bool skip; };
// obs: responsibilities use floored densities
static inline RefGMM refEM(xmm::SingleClassGMM const& m, Frames const& X, VL const& reg) {
    int K = int(m.components.size()), D = m.components[0].dimension.get(), T = int(X.size());
    bool diag = gDiag(m.components[0]);
    std::vector<VL> p(K, VL(T));
    VL E(K, 0);
    RefGMM R;
    R.logp = 0;
    R.skip = false;
    std::vector<VL> inv(K);
    VL det(K);
    for (int k = 0; k < K; k++) det[k] = refInverse(gCov(m.components[k]), D, &inv[k]);
    for (int t = 0; t < T; t++) {
        LD s = 0;
        for (int k = 0; k < K; k++) {
            LD q = (LD)m.mixture_coeffs[k] * floorLik(refDensityRaw(toL(m.components[k].mean), inv[k], det[k], toL(X[t])));
            if (q == 0) q = 1e-100L;
            p[k][t] = q;
            s += q;
        }
        if (s < 1e-150L) R.skip = true;
        for (int k = 0; k < K; k++) { p[k][t] /= s; E[k] += p[k][t]; }
        R.logp += logl(s);
    }
    for (int k = 0; k < K; k++) {
        R.coef.push_back(float(E[k] / T));
        if (E[k] < 1e-6L) R.skip = true;
        VL mu(D, 0), cv(diag ? D : D * D, 0);
        for (int t = 0; t < T; t++) for (int d = 0; d < D; d++) mu[d] += p[k][t] * X[t][d];
        for (auto& v : mu) v /= E[k];
        for (int t = 0; t < T; t++)
            for (int a = 0; a < D; a++) {
                if (diag) cv[a] += p[k][t] * (X[t][a] - mu[a]) * (X[t][a] - mu[a]);
                else for (int b = 0; b < D; b++) cv[a * D + b] += p[k][t] * (X[t][a] - mu[a]) * (X[t][b] - mu[b]);
            }
        for (auto& v : cv) v /= E[k];
        for (int a = 0; a < D; a++) cv[diag ? a : a * D + a] += reg[a];
        R.mean.push_back(mu);
        R.cov.push_back(cv);
    }
    return R;
}
static inline VL refReg(Frames const& X, double absr, double relr) {
    int D = int(X[0].size());
    VL out;
    for (int d = 0; d < D; d++) {
        LD m = 0, v = 0;
        for (auto& f : X) m += f[d];
        m /= X.size();
        for (auto& f : X) v += (f[d] - m) * (f[d] - m);
        out.push_back(std::max<LD>(absr, relr * sqrtl(v / X.size())));
    }
    return out;
}
