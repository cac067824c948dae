#include "common.hpp"
// Gaussian likelihoods
void one(Rng& r, long c) {
    bool bim = r.b(), diag = r.b(0.4);
    int D = r.i(bim ? 2 : 1, 6), I = bim ? r.i(1, D - 1) : 0;
    double spread = r.b(0.3) ? r.u(0.02, 0.3) : r.b(0.3) ? r.u(3, 30) : 1;
    caseNote("bimodal %d dimension %d input %d diagonal %d spread %g", bim, D, I, diag, spread);
    G g = randGaussian(r, bim, D, I, diag, spread);
    if (r.b(0.2)) { G h(g); g = h; }
    if (r.b(0.1)) { G h(bim, D, I, diag ? CM::Diagonal : CM::Full); h.fromJson(g.toJson()); g = h; }
    for (int k = 0; k < 6; k++) {
        Frame f(D);
        double dist = r.b(0.2) ? r.u(8, 60) : r.u(0, 3);
        for (int d = 0; d < D; d++) f[d] = float(g.mean[d] + dist * spread * r.n());
        if (r.b(0.1)) f = toF(toL(g.mean));
        VL x = toL(f);
        G const before(g);
        LD e = gLik(g, x);
        double v = g.likelihood(f.data());
        NEAR(v, e, 1e-6, 1e-180, "likelihood");
        CHECK(v >= 1e-180, "likelihood below the floor");
        if (bim) {
            double b = g.likelihood_bimodal(f.data(), f.data() + I);
            NEAR(b, e, 1e-6, 1e-180, "bimodal likelihood");
            NEAR(b, v, 1e-9, 1e-185, "bimodal and joint likelihood differ");
            double in = g.likelihood_input(f.data());
            NEAR(in, gLikInput(g, x), 1e-6, 1e-180, "input likelihood");
            CHECK(in >= 1e-180, "input likelihood below the floor");
        } else {
            CHECK(throwsAs<std::runtime_error>([&] { g.likelihood_input(f.data()); }), "input likelihood of a unimodal Gaussian");
            CHECK(throwsAs<std::runtime_error>([&] { g.likelihood_bimodal(f.data(), f.data()); }), "bimodal likelihood of a unimodal Gaussian");
        }
        CHECK(js(before.toJson()) == js(g.toJson()), "likelihood changed the Gaussian");
    }
    // far away: floored, finite
    Frame far(D);
    for (int d = 0; d < D; d++) far[d] = float(g.mean[d] + 1e5 * spread);
    CHECK(g.likelihood(far.data()) == 1e-180, "likelihood far away is %g", g.likelihood(far.data()));
    if (bim) {
        CHECK(g.likelihood_input(far.data()) == 1e-180, "input likelihood far away");
        CHECK(g.likelihood_bimodal(far.data(), far.data() + I) == 1e-180, "bimodal likelihood far away");
    }
    // a huge value gives an infinite / NaN quadratic form
    for (int d = 0; d < D; d++) far[d] = 3e38f;
    CHECK(g.likelihood(far.data()) == 1e-180, "likelihood at 3e38 is %g", g.likelihood(far.data()));
    float inf = INFINITY;
    for (int d = 0; d < D; d++) far[d] = d % 2 ? -inf : inf;
    CHECK(g.likelihood(far.data()) == 1e-180, "likelihood at infinity is %g", g.likelihood(far.data()));
    if (bim) {
        CHECK(g.likelihood_input(far.data()) == 1e-180, "input likelihood at infinity");
        CHECK(g.likelihood_bimodal(far.data(), far.data() + I) == 1e-180, "bimodal likelihood at infinity");
    }
    // zero determinant: a distribution that was never updated
    G z(bim, D, I, diag ? CM::Diagonal : CM::Full);
    Frame f0(D, 0.f);
    CHECK(throwsAs<std::runtime_error>([&] { z.likelihood(f0.data()); }), "zero determinant accepted (likelihood)");
    if (bim) {
        CHECK(throwsAs<std::runtime_error>([&] { z.likelihood_input(f0.data()); }), "zero determinant accepted (input)");
        CHECK(throwsAs<std::runtime_error>([&] { z.likelihood_bimodal(f0.data(), f0.data()); }), "zero determinant accepted (bimodal)");
        // the determinants are those of their own block
        Json::Value j = g.toJson();
        j["covariance_determinant_input"] = 0.;
        G h;
        h.fromJson(j);
        CHECK(throwsAs<std::runtime_error>([&] { h.likelihood_input(f0.data()); }), "zero input determinant accepted");
        CHECK(!throwsAny([&] { h.likelihood(f0.data()); h.likelihood_bimodal(f0.data(), f0.data()); }), "joint likelihood refused");
        j = g.toJson();
        j["covariance_determinant"] = 0.;
        h.fromJson(j);
        CHECK(!throwsAny([&] { h.likelihood_input(f0.data()); }), "input likelihood refused");
        CHECK(throwsAs<std::runtime_error>([&] { h.likelihood_bimodal(f0.data(), f0.data()); }), "zero determinant accepted (bimodal)");
    }
}
