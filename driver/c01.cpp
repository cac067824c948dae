#include "common.hpp"
// attribute limits
template <class T> static void numericAttr(Rng& r, const char* tn, std::function<T(Rng&)> gen) {
    T a = gen(r), b = gen(r);
    T lo = std::min(a, b), hi = std::max(a, b);
    T init = r.b() ? lo : hi;
    if (r.b(0.3)) {  // a value strictly inside when there is one
        T x = gen(r);
        if (!(x < lo) && !(hi < x)) init = x;
    }
    bool dflt = r.b(0.15);
    xmm::Attribute<T> at = dflt ? xmm::Attribute<T>(init) : xmm::Attribute<T>(init, lo, hi);
    if (dflt) {
        lo = std::numeric_limits<T>::lowest();
        hi = std::numeric_limits<T>::max();
    }
    CHECK(at.get() == init, "%s initial value", tn);
    T cur = init;
    for (int k = 0; k < 12; k++) {
        int op = r.i(0, 9);
        if (op == 0) {
            xmm::Attribute<T> cp(at);
            CHECK(cp.get() == cur, "%s copy value", tn);
            at = cp;
            CHECK(at.get() == cur, "%s assign value", tn);
        } else if (op == 1) {
            xmm::Attribute<T> cp(at);
            T x = gen(r);
            try {
                cp.set(x);
            } catch (std::domain_error&) {
            }
            CHECK(at.get() == cur, "%s source of a copy changed", tn);
        } else if (op == 2 && !dflt) {  // widen the limits around the value
            T x = gen(r), y = gen(r);
            lo = std::min(std::min(x, y), cur);
            hi = std::max(std::max(x, y), cur);
            if (r.b())
                at.setLimits(lo, hi);
            else {
                at.setLimitMin(lo);
                at.setLimitMax(hi);
            }
        } else {
            T x = r.b(0.25) ? lo : r.b(0.25) ? hi : gen(r);
            if (r.b(0.2) && std::numeric_limits<T>::is_integer && lo > std::numeric_limits<T>::lowest()) x = T(lo - 1);
            else if (r.b(0.2) && std::numeric_limits<T>::is_integer && hi < std::numeric_limits<T>::max()) x = T(hi + 1);
            if (!std::numeric_limits<T>::is_integer && r.b(0.1)) x = std::numeric_limits<T>::quiet_NaN();
            else if (!std::numeric_limits<T>::is_integer && r.b(0.05)) x = (r.b() ? 1 : -1) * std::numeric_limits<T>::infinity();
            bool in = x >= lo && x <= hi;
            bool threw = false, dom = false;
            bool silent = r.b();
            try {
                at.set(x, silent);
            } catch (std::domain_error&) {
                threw = dom = true;
            } catch (std::exception&) {
                threw = true;
            }
            if (in) {
                CHECK(!threw, "%s: value within the limits refused", tn);
                cur = x;
            } else
                CHECK(dom, "%s: value outside the limits accepted (or wrong exception)", tn);
            CHECK(at.get() == cur, "%s: stored value", tn);
        }
    }
    // constructor outside the limits
    if (!dflt) {
        T x = gen(r);
        bool in = !(x < lo) && !(hi < x);
        bool ok = !throwsAs<std::domain_error>([&] { xmm::Attribute<T> z(x, lo, hi); });
        CHECK(ok == in, "%s constructor limits", tn);
    }
}
template <class T> static void vectorAttr(Rng& r, const char* tn, std::function<T(Rng&)> gen) {
    T a = gen(r), b = gen(r);
    T lo = std::min(a, b), hi = std::max(a, b);
    unsigned n = r.i(0, 5);
    std::vector<T> cur(n, r.b() ? lo : hi);
    xmm::Attribute<std::vector<T>> at(cur, lo, hi, n);
    unsigned declared = n;
    for (int k = 0; k < 12; k++) {
        int op = r.i(0, 7);
        if (op == 0) {
            xmm::Attribute<std::vector<T>> cp(at);
            at = cp;
        } else if (op == 1) {
            xmm::Attribute<std::vector<T>> cp(at);
            try {
                cp.set(std::vector<T>(declared ? declared : 2, gen(r)));
            } catch (std::domain_error&) {
            }
        } else {
            unsigned m = r.b(0.7) && declared ? declared : unsigned(r.i(0, 6));
            std::vector<T> v(m);
            bool in = true;
            for (auto& x : v) x = r.b(0.4) ? lo : r.b(0.5) ? hi : gen(r);
            if (r.b(0.5))
                for (auto& x : v) x = r.b() ? lo : hi;
            if (m && r.b(0.3)) v[r.i(0, m - 1)] = gen(r);
            if (m && !std::numeric_limits<T>::is_integer && r.b(0.1)) v[r.i(0, m - 1)] = std::numeric_limits<T>::quiet_NaN();
            for (auto& x : v) in = in && x >= lo && x <= hi;
            bool sizeok = declared == 0 || m == declared;
            bool threw = false, dom = false;
            try {
                at.set(v, r.b());
            } catch (std::domain_error&) {
                threw = dom = true;
            } catch (std::exception&) {
                threw = true;
            }
            if (in && sizeok) {
                CHECK(!threw, "vector<%s>: valid value refused", tn);
                cur = v;
            } else if (!sizeok)
                CHECK(threw, "vector<%s>: wrong length accepted", tn);
            else
                CHECK(dom, "vector<%s>: element outside the limits accepted", tn);
        }
        CHECK(at.get() == cur, "vector<%s>: stored value", tn);
        CHECK(at.size() == cur.size(), "vector<%s>: size", tn);
        for (unsigned q = 0; q < declared + 2; q++) {
            bool t = throwsAs<std::out_of_range>([&] { at.at(q); });
            CHECK(t == (q >= declared), "vector<%s>::at(%u) with declared size %u", tn, q, declared);
            if (!t) CHECK(at.at(q) == cur[q], "vector<%s>::at value", tn);
        }
    }
}
// a parameter: in-range / out-of-range values and its getter
template <class Attr, class V>
static void tryParam(Attr& a, V v, bool in, const char* name) {
    auto before = a.get();
    bool threw = false, dom = false;
    try {
        a.set(v);
    } catch (std::domain_error&) {
        threw = dom = true;
    } catch (std::exception&) {
        threw = true;
    }
    if (in) {
        CHECK(!threw, "%s: value in the documented range refused", name);
        CHECK(a.get() == v, "%s: value not stored", name);
    } else {
        CHECK(dom, "%s: value outside the documented range accepted", name);
        CHECK(a.get() == before, "%s: value changed by a refused set", name);
    }
}
static double posOrBad(Rng& r, bool& in) {
    in = r.b();
    if (in) return r.b(0.2) ? 1e-20 : r.b(0.3) ? 1e300 : r.u(1e-9, 10);
    return r.b(0.4) ? 0.0 : r.b() ? -r.u(0, 5) : 1e-21;
}
static void gmmParams(Rng& r, xmm::ClassParameters<xmm::GMM>& p) {
    bool in;
    switch (r.i(0, 3)) {
        case 0: { unsigned g = r.i(0, 4); if (r.b(0.1)) g = 4000000000u; tryParam(p.gaussians, g, g >= 1, "gaussians"); break; }
        case 1: { double v = posOrBad(r, in); tryParam(p.relative_regularization, v, in, "relative_regularization"); break; }
        case 2: { double v = posOrBad(r, in); tryParam(p.absolute_regularization, v, in, "absolute_regularization"); break; }
        case 3: { int v = r.i(0, 4); tryParam(p.covariance_mode, static_cast<CM>(v), v <= 1, "covariance_mode"); break; }
    }
    CHECK(p.gaussians.get() >= 1 && p.relative_regularization.get() >= 1e-20 && p.absolute_regularization.get() >= 1e-20 &&
              int(p.covariance_mode.get()) <= 1, "GMM parameter outside its range");
}
static void hmmParams(Rng& r, xmm::ClassParameters<xmm::HMM>& p) {
    bool in;
    switch (r.i(0, 6)) {
        case 0: { unsigned g = r.i(0, 4); tryParam(p.gaussians, g, g >= 1, "gaussians"); break; }
        case 1: { double v = posOrBad(r, in); tryParam(p.relative_regularization, v, in, "relative_regularization"); break; }
        case 2: { double v = posOrBad(r, in); tryParam(p.absolute_regularization, v, in, "absolute_regularization"); break; }
        case 3: { int v = r.i(0, 4); tryParam(p.covariance_mode, static_cast<CM>(v), v <= 1, "covariance_mode"); break; }
        case 4: { unsigned g = r.i(0, 4); tryParam(p.states, g, g >= 1, "states"); break; }
        case 5: { int v = r.i(0, 4); tryParam(p.transition_mode, static_cast<xmm::HMM::TransitionMode>(v), v <= 1, "transition_mode"); break; }
        case 6: { int v = r.i(0, 5); tryParam(p.regression_estimator, static_cast<xmm::HMM::RegressionEstimator>(v), v <= 2, "regression_estimator"); break; }
    }
    CHECK(p.gaussians.get() >= 1 && p.states.get() >= 1 && p.relative_regularization.get() >= 1e-20 &&
              p.absolute_regularization.get() >= 1e-20 && int(p.covariance_mode.get()) <= 1 &&
              int(p.transition_mode.get()) <= 1 && int(p.regression_estimator.get()) <= 2, "HMM parameter outside its range");
}
static void kmParams(Rng& r, xmm::ClassParameters<xmm::KMeans>& p) {
    switch (r.i(0, 2)) {
        case 0: { unsigned g = r.i(0, 4); tryParam(p.clusters, g, g >= 1, "clusters"); break; }
        case 1: { unsigned g = r.i(0, 4); tryParam(p.max_iterations, g, g >= 1, "max_iterations"); break; }
        case 2: { float v = r.b(0.3) ? 0.f : float(r.u(-2, 2)); tryParam(p.relative_distance_threshold, v, v >= 0, "relative_distance_threshold"); break; }
    }
    CHECK(p.clusters.get() >= 1 && p.max_iterations.get() >= 1 && p.relative_distance_threshold.get() >= 0, "KMeans parameter outside its range");
}
static void checkShared(xmm::SharedParameters& p) {
    unsigned D = p.dimension.get(), I = p.dimension_input.get();
    bool b = p.bimodal.get();
    CHECK(D >= (b ? 2u : 1u), "SharedParameters: dimension %u (bimodal %d)", D, b);
    CHECK(I < D, "SharedParameters: input dimension %u not below the dimension %u", I, D);
    if (b) CHECK(I >= 1, "SharedParameters: input dimension 0 in a bimodal model");
    CHECK(p.em_algorithm_min_iterations.get() >= 1 && p.em_algorithm_percent_chg.get() >= 0 && p.likelihood_window.get() >= 1,
          "SharedParameters: value outside the range");
}
static void sharedParams(Rng& r, xmm::SharedParameters& p, bool dims = true) {
    switch (r.i(dims ? 0 : 3, 6)) {
        case 0: {
            bool v = r.b();
            p.bimodal.set(v);
            CHECK(p.bimodal.get() == v, "bimodal not stored");
            break;
        }
        case 1: {
            unsigned d = r.i(0, 6);
            tryParam(p.dimension, d, d >= (p.bimodal.get() ? 2u : 1u), "SharedParameters::dimension");
            break;
        }
        case 2: {
            if (!p.bimodal.get()) break;
            unsigned d = r.i(0, 7);
            tryParam(p.dimension_input, d, d >= 1 && d <= p.dimension.get() - 1, "SharedParameters::dimension_input");
            break;
        }
        case 3: { unsigned v = r.i(0, 4); tryParam(p.em_algorithm_min_iterations, v, v >= 1, "em_algorithm_min_iterations"); break; }
        case 4: { unsigned v = r.i(0, 4); tryParam(p.em_algorithm_max_iterations, v, true, "em_algorithm_max_iterations"); break; }
        case 5: { double v = r.b(0.3) ? 0. : r.u(-1, 5); tryParam(p.em_algorithm_percent_chg, v, v >= 0, "em_algorithm_percent_chg"); break; }
        case 6: { unsigned v = r.i(0, 4); tryParam(p.likelihood_window, v, v >= 1, "likelihood_window"); break; }
    }
    checkShared(p);
}
template <class O> static void dims(Rng& r, O& o, bool bim, const char* n, unsigned minI = 1) {
    if (r.b()) {
        unsigned d = r.i(0, 6);
        tryParam(o.dimension, d, d >= (bim ? 2u : 1u), n);
    } else if (bim) {
        unsigned d = r.i(0, 7);
        tryParam(o.dimension_input, d, d >= minI && d <= o.dimension.get() - 1, n);
    }
    unsigned D = o.dimension.get(), I = o.dimension_input.get();
    CHECK(D >= (bim ? 2u : 1u) && I < D && (!bim || I >= minI), "%s: input dimension %u, dimension %u, bimodal %d", n, I, D, bim);
}
// parameters that come from JSON go through the same limits
template <class P> static void jsonParam(Rng& r, const char* key, Json::Value v, bool in, const char* nm) {
    P p;
    Json::Value j = p.toJson();
    std::string before = js(j);
    j[key] = v;
    P q;
    bool threw = throwsAny([&] { q.fromJson(j); });
    if (in) CHECK(!threw, "%s.%s from JSON: valid value refused", nm, key);
    else {
        CHECK(threw, "%s.%s from JSON: value outside the range accepted", nm, key);
        CHECK(js(q.toJson()) == before, "%s.%s from JSON: target changed", nm, key);
    }
}
void one(Rng& r, long c) {
    int kind = int(c % 12);
    caseNote("kind %d", kind);
    auto gu = [](Rng& r) { return unsigned(r.i(0, 12)); };
    auto gi = [](Rng& r) { return r.i(-8, 8); };
    auto gd = [](Rng& r) { return r.b(0.1) ? 1e300 : r.b(0.1) ? -1e-300 : r.u(-4, 4); };
    if (kind == 0) {
        numericAttr<unsigned int>(r, "unsigned int", gu);
        numericAttr<unsigned int>(r, "unsigned int", [](Rng& r) { return unsigned(r.next()); });
        numericAttr<int>(r, "int", gi);
        numericAttr<int>(r, "int", [](Rng& r) { return int(r.next() % 4000000000u - 2000000000); });
        numericAttr<unsigned char>(r, "unsigned char", [](Rng& r) { return (unsigned char)r.i(0, 255); });
        numericAttr<char>(r, "char", [](Rng& r) { return char(r.i(-128, 127)); });
    } else if (kind == 1) {
        numericAttr<long>(r, "long", [](Rng& r) { return long(r.next() >> r.i(0, 50)) - 4000; });
        numericAttr<float>(r, "float", [](Rng& r) { return r.b(0.1) ? 1e30f : float(r.u(-3, 3)); });
        numericAttr<double>(r, "double", gd);
        // limits and values around the range ends of every numeric type
        xmm::Attribute<bool> ab(true);
        ab.set(false);
        CHECK(ab.get() == false, "bool attribute");
        ab.set(true);
        CHECK(ab.get() == true, "bool attribute");
    } else if (kind == 2) {
        vectorAttr<unsigned int>(r, "unsigned int", gu);
        vectorAttr<int>(r, "int", gi);
        vectorAttr<float>(r, "float", [](Rng& r) { return float(r.u(-3, 3)); });
        vectorAttr<double>(r, "double", gd);
        vectorAttr<unsigned char>(r, "unsigned char", [](Rng& r) { return (unsigned char)r.i(0, 255); });
        vectorAttr<long>(r, "long", [](Rng& r) { return long(r.i(-9, 9)); });
        // string vectors: only the declared length is limited
        unsigned n = r.i(1, 4), m = r.i(0, 5);
        xmm::Attribute<std::vector<std::string>> as(std::vector<std::string>(n, "a"), "", "", n);
        bool t = throwsAny([&] { as.set(std::vector<std::string>(m, "b")); });
        CHECK(t == (m != n), "vector<string>: wrong length accepted / right length refused");
        CHECK(as.get() == std::vector<std::string>(n, t ? "a" : "b"), "vector<string>: stored value");
        unsigned q = r.i(0, 6);
        bool oor = throwsAs<std::out_of_range>([&] { as.at(q); });
        CHECK(oor == (q >= n), "vector<string>::at");
    } else if (kind == 3) {
        xmm::ClassParameters<xmm::GMM> p;
        for (int k = 0; k < 10; k++) {
            gmmParams(r, p);
            if (r.b(0.2)) { xmm::ClassParameters<xmm::GMM> q(p); CHECK(js(q.toJson()) == js(p.toJson()), "copy"); gmmParams(r, q); p = q; }
        }
    } else if (kind == 4) {
        xmm::ClassParameters<xmm::HMM> p;
        for (int k = 0; k < 14; k++) {
            hmmParams(r, p);
            if (r.b(0.2)) { xmm::ClassParameters<xmm::HMM> q(p); hmmParams(r, q); p = q; }
        }
    } else if (kind == 5) {
        xmm::ClassParameters<xmm::KMeans> p;
        for (int k = 0; k < 10; k++) {
            kmParams(r, p);
            if (r.b(0.2)) { xmm::ClassParameters<xmm::KMeans> q(p); kmParams(r, q); p = q; }
        }
    } else if (kind == 6) {
        xmm::SharedParameters p;
        for (int k = 0; k < 20; k++) {
            sharedParams(r, p);
            if (r.b(0.15)) {
                xmm::SharedParameters q(p);
                CHECK(js(q.toJson()) == js(p.toJson()), "copy of shared parameters");
                sharedParams(r, q);
                checkShared(p);
                if (r.b()) p = q;
            }
            if (r.b(0.1)) { xmm::SharedParameters q; q.fromJson(p.toJson()); checkShared(q); sharedParams(r, q); }
        }
    } else if (kind == 7) {
        bool bim = r.b();
        xmm::Phrase p(xmm::MemoryMode::OwnMemory, bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        for (int k = 0; k < 12; k++) {
            dims(r, p, bim, "Phrase dimension");
            if (r.b(0.2)) { xmm::Phrase q(p); dims(r, q, bim, "copied Phrase dimension"); if (r.b()) p = q; }
            if (r.b(0.1)) { xmm::Phrase q; q.fromJson(p.toJson()); dims(r, q, bim, "imported Phrase dimension"); }
        }
    } else if (kind == 8) {
        bool bim = r.b();
        xmm::TrainingSet p(xmm::MemoryMode::OwnMemory, bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        if (r.b(0.7)) { p.addPhrase(0, "a"); p.addPhrase(1, "b"); }
        for (int k = 0; k < 12; k++) {
            dims(r, p, bim, "TrainingSet dimension");
            for (auto it = p.begin(); it != p.end(); ++it)
                CHECK(it->second->dimension.get() == p.dimension.get() && (!bim || it->second->dimension_input.get() == p.dimension_input.get()),
                      "phrase dimensions (%u,%u) differ from those of the set (%u,%u)", it->second->dimension.get(),
                      it->second->dimension_input.get(), p.dimension.get(), p.dimension_input.get());
            if (r.b(0.2)) { xmm::TrainingSet q(p); dims(r, q, bim, "copied TrainingSet dimension"); if (r.b()) p = q; }
            if (r.b(0.2)) { xmm::TrainingSet q; q.fromJson(p.toJson()); dims(r, q, bim, "imported TrainingSet dimension"); }
        }
    } else if (kind == 9) {
        bool bim = r.b();
        int D = r.i(bim ? 2 : 1, 5), I = bim ? r.i(1, D - 1) : 0;
        G p(bim, D, I, r.b() ? CM::Full : CM::Diagonal);
        for (int k = 0; k < 12; k++) {
            dims(r, p, bim, "Gaussian dimension", 0);
            for (unsigned d = 0; d < p.dimension.get(); d++)
                for (unsigned e = 0; e < (gDiag(p) ? 1u : p.dimension.get()); e++)
                    p.covariance[gDiag(p) ? d : d * p.dimension.get() + e] = gDiag(p) || d == e ? 1.5 : 0.1;
            int v = r.i(0, 4);
            if (r.b(0.3)) tryParam(p.covariance_mode, static_cast<CM>(v), v <= 1, "Gaussian covariance_mode");
            unsigned DD = p.dimension.get();
            CHECK(p.mean.size() == DD && p.covariance.size() == (gDiag(p) ? DD : DD * DD), "Gaussian: array sizes");
            if (r.b(0.2)) { G q(p); dims(r, q, bim, "copied Gaussian dimension", 0); if (r.b()) p = q; }
        }
    } else if (kind == 10) {
        bool in;
        double v = posOrBad(r, in);
        jsonParam<xmm::ClassParameters<xmm::GMM>>(r, "relative_regularization", v, in, "GMM");
        jsonParam<xmm::ClassParameters<xmm::HMM>>(r, "absolute_regularization", v, in, "HMM");
        int g = r.i(0, 3);
        jsonParam<xmm::ClassParameters<xmm::GMM>>(r, "gaussians", g, g >= 1, "GMM");
        jsonParam<xmm::ClassParameters<xmm::HMM>>(r, "gaussians", g, g >= 1, "HMM");
        jsonParam<xmm::ClassParameters<xmm::HMM>>(r, "states", g, g >= 1, "HMM");
        jsonParam<xmm::ClassParameters<xmm::KMeans>>(r, "clusters", g, g >= 1, "KMeans");
        jsonParam<xmm::ClassParameters<xmm::KMeans>>(r, "max_iterations", g, g >= 1, "KMeans");
        jsonParam<xmm::SharedParameters>(r, "likelihood_window", g, g >= 1, "Shared");
        jsonParam<xmm::SharedParameters>(r, "em_algorithm_min_iterations", g, g >= 1, "Shared");
        jsonParam<xmm::SharedParameters>(r, "dimension", g, g >= 1, "Shared");
    } else {
        // transition weights: the exit point of a hierarchical HMM / trained chains stay in [0,1];
        // a trained model keeps its parameters in range
        xmm::HierarchicalHMM h(false);
        hmmParams(r, h.configuration);
        sharedParams(r, *h.shared_parameters, false);
        hmmParams(r, h.configuration["x"]);
        xmm::HierarchicalHMM h2(h);
        hmmParams(r, h2.configuration);
        hmmParams(r, h2.configuration["x"]);
        sharedParams(r, *h2.shared_parameters, false);
        xmm::GMM g(r.b());
        gmmParams(r, g.configuration);
        gmmParams(r, g.configuration["y"]);
        sharedParams(r, *g.shared_parameters);
        xmm::GMM g2 = g;
        sharedParams(r, *g2.shared_parameters);
        g = g2;
        sharedParams(r, *g.shared_parameters);
    }
}
