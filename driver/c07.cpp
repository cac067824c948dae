#include "common.hpp"
#include "core/common/xmmMatrix.hpp"
// matrix algebra and inverse covariances
static VL mat(Rng& r, int n, int kind) {
    VL A(n * n, 0);
    if (kind == 0) return randSPD(r, n);
    if (kind == 1) {  // permutation times diagonal: every pivot needs an exchange
        std::vector<int> p(n);
        for (int i = 0; i < n; i++) p[i] = i;
        for (int i = n - 1; i > 0; i--) std::swap(p[i], p[r.i(0, i)]);
        for (int i = 0; i < n; i++) A[i * n + p[i]] = r.b() ? r.u(0.3, 3) : -r.u(0.3, 3);
        return A;
    }
    if (kind == 2) {  // exact zeros on the diagonal
        for (auto& a : A) a = r.i(-3, 3);
        for (int i = 0; i < n; i++) if (r.b(0.6)) A[i * n + i] = 0;
        return A;
    }
    for (auto& a : A) a = r.u(-2, 2);
    for (int i = 0; i < n; i++) A[i * n + i] += (r.b() ? 1 : -1) * 1.5L;
    return A;
}
static LD maxAbs(VL const& v) { LD m = 0; for (auto x : v) m = std::max(m, fabsl(x)); return m; }
template <class T> static void matrices(Rng& r) {
    int a = r.i(1, 5), b = r.i(1, 5), cc = r.i(1, 5);
    LD tol = sizeof(T) == 4 ? 1e-4 : 1e-11;
    xmm::Matrix<T> A((unsigned)a, (unsigned)b, true), B((unsigned)b, (unsigned)cc, true);
    for (auto& x : A._data) x = T(r.u(-3, 3));
    for (auto& x : B._data) x = T(r.u(-3, 3));
    std::vector<T> a0 = A._data, b0 = B._data;
    std::unique_ptr<xmm::Matrix<T>> t(A.transpose()), p(A.product(&B));
    CHECK(int(t->nrows) == b && int(t->ncols) == a, "transpose shape");
    for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) CHECK(t->data[j * a + i] == A.data[i * b + j], "transpose (%d,%d)", j, i);
    CHECK(int(p->nrows) == a && int(p->ncols) == cc, "product shape");
    for (int i = 0; i < a; i++) for (int j = 0; j < cc; j++) {
        LD s = 0;
        for (int k = 0; k < b; k++) s += (LD)A.data[i * b + k] * B.data[k * cc + j];
        NEAR(p->data[i * cc + j], s, tol, tol * 30, "product (%d,%d) of %dx%d and %dx%d", i, j, a, b, b, cc);
    }
    CHECK(A._data == a0 && B._data == b0, "operands changed");
    xmm::Matrix<T> W(unsigned(b + 1), 2u, true);
    CHECK(throwsAs<std::runtime_error>([&] { A.product(&W); }), "product of incompatible shapes");
    double det = 0;
    if (a != b) CHECK(throwsAs<std::runtime_error>([&] { A.gauss_jordan_inverse(&det); }), "inverse of a non-square matrix");
}
static bool wellPivoted(VL A, int n) {
    // elimination with the first usable pivot, as any non-pivoting method would do
    for (int k = 0; k < n; k++) {
        int i = k;
        while (i < n && fabsl(A[i * n + k]) < 1e-9L) i++;
        if (i == n || fabsl(A[i * n + k]) < 0.05L) return false;
        if (i != k) for (int j = 0; j < n; j++) std::swap(A[i * n + j], A[k * n + j]);
        for (int q = 0; q < n; q++) if (q != k) {
            LD f = A[q * n + k] / A[k * n + k];
            for (int j = 0; j < n; j++) A[q * n + j] -= f * A[k * n + j];
        }
        for (int q = k + 1; q < n; q++) if (fabsl(A[q * n + k]) < 1e-12L) A[q * n + k] = 0;
    }
    return true;
}
static void inverses(Rng& r) {
    int n = r.i(1, 6), kind = r.i(0, 3);
    caseNote("inverse n=%d kind %d", n, kind);
    VL A = mat(r, n, kind);
    LD det = refInverse(A, n, nullptr);
    bool sing = fabsl(det) < 1e-12L;
    if (!sing && !wellPivoted(A, n)) return;
    xmm::Matrix<double> M((unsigned)n, (unsigned)n, true);
    for (int i = 0; i < n * n; i++) M._data[i] = double(A[i]);
    std::vector<double> before = M._data;
    for (int how = 0; how < 2; how++) {
        double d = 12345;
        if (sing) {
            CHECK(throwsAs<std::runtime_error>([&] { M.gauss_jordan_inverse(&d); }), "singular matrix inverted");
            CHECK(throwsAny([&] { M.pinv(&d); }), "singular matrix inverted by pinv");
            continue;
        }
        std::unique_ptr<xmm::Matrix<double>> inv(how ? M.pinv(&d) : M.gauss_jordan_inverse(&d));
        NEAR(d, det, 1e-7, 1e-9, "determinant");
        CHECK(int(inv->nrows) == n && int(inv->ncols) == n, "shape of the inverse");
        LD sc = maxAbs(A) * maxAbs(toL(std::vector<double>(inv->data, inv->data + n * n))) * n;
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
            LD s = 0, q = 0;
            for (int k = 0; k < n; k++) { s += inv->data[i * n + k] * A[k * n + j]; q += A[i * n + k] * inv->data[k * n + j]; }
            NEAR(s, i == j, 0, 1e-9 * (1 + sc), "inverse * matrix at (%d,%d)", i, j);
            NEAR(q, i == j, 0, 1e-9 * (1 + sc), "matrix * inverse at (%d,%d)", i, j);
        }
    }
    CHECK(M._data == before, "inverted matrix changed");
}
static std::vector<double> arr(Json::Value const& v) { std::vector<double> o; for (auto x : v) o.push_back(x.asDouble()); return o; }
static void identity(std::vector<double> const& inv, VL const& A, int n, const char* w) {
    CHECK(int(inv.size()) == n * n, "%s: %d values for dimension %d", w, int(inv.size()), n);
    LD sc = maxAbs(A) * maxAbs(toL(inv)) * n;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        LD s = 0;
        for (int k = 0; k < n; k++) s += inv[i * n + k] * A[k * n + j];
        NEAR(s, i == j, 0, 1e-9 * (1 + sc), "%s: inverse * covariance at (%d,%d)", w, i, j);
    }
}
static void gaussian(Rng& r) {
    bool bim = r.b(0.6), diag = r.b(0.4);
    int D = r.i(bim ? 2 : 1, 6), I = bim ? r.i(1, D - 1) : 0;
    G g(bim, D, I, diag ? CM::Diagonal : CM::Full);
    int kind = r.i(0, 3);
    caseNote("covariance bimodal %d dimension %d input %d diagonal %d kind %d", bim, D, I, diag, kind);
    for (int rep = 0; rep < 2; rep++) {
        if (diag) {
            int bad = r.b(0.2) ? r.i(0, D - 1) : -1;
            for (int d = 0; d < D; d++) g.covariance[d] = r.u(0.05, 9);
            if (bad >= 0) g.covariance[bad] = r.b() ? 0. : -r.u(0, 3);
            if (bad >= 0) {
                CHECK(throwsAs<std::runtime_error>([&] { g.updateInverseCovariance(); }), "variance %g accepted", g.covariance[bad]);
                continue;
            }
        } else {
            VL A = mat(r, D, kind);
            VL AI = blockOf(A, D, 0, I, 0, I);
            if (!wellPivoted(A, D) || (bim && !wellPivoted(AI, I)) || fabsl(refInverse(A, D, nullptr)) < 1e-3L || (bim && fabsl(refInverse(AI, I, nullptr)) < 1e-3L)) {
                if (fabsl(refInverse(A, D, nullptr)) == 0)
                    { g.covariance = toD(A); CHECK(throwsAny([&] { g.updateInverseCovariance(); }), "singular covariance accepted"); }
                return;
            }
            g.covariance = toD(A);
        }
        std::vector<double> cov0 = g.covariance, m0 = g.mean;
        g.updateInverseCovariance();
        CHECK(g.covariance == cov0 && g.mean == m0, "covariance or mean changed");
        Json::Value j = g.toJson();
        VL C = gCov(g);
        std::vector<double> inv = arr(j["inverse_covariance"]);
        LD det = refInverse(C, D, nullptr);
        NEAR(j["covariance_determinant"].asDouble(), det, 1e-7, 1e-9, "stored determinant");
        if (diag) {
            CHECK(int(inv.size()) == D, "inverse size");
            for (int d = 0; d < D; d++) NEAR(inv[d] * g.covariance[d], 1, 1e-12, 0, "inverse variance %d", d);
        } else
            identity(inv, C, D, "joint");
        if (bim) {
            VL CI = blockOf(C, D, 0, I, 0, I);
            std::vector<double> ii = arr(j["inverse_covariance_input"]);
            NEAR(j["covariance_determinant_input"].asDouble(), refInverse(CI, I, nullptr), 1e-7, 1e-9, "stored input determinant");
            if (diag) {
                CHECK(int(ii.size()) == I, "input inverse size");
                for (int d = 0; d < I; d++) NEAR(ii[d] * g.covariance[d], 1, 1e-12, 0, "input inverse variance %d", d);
            } else
                identity(ii, CI, I, "input block");
        }
        if (r.b(0.3) && kind == 0) {  // change of mode keeps the variances
            G h(g);
            h.covariance_mode.set(diag ? CM::Full : CM::Diagonal);
            for (int d = 0; d < D; d++) CHECK(h.covariance[gDiag(h) ? d : d * D + d] == (double)C[d * D + d], "variances after a change of mode");
            Json::Value k = h.toJson();
            NEAR(k["covariance_determinant"].asDouble(), refInverse(gCov(h), D, nullptr), 1e-7, 1e-9, "determinant after a change of mode");
        }
    }
}
void one(Rng& r, long c) {
    switch (c % 4) {
        case 0: matrices<double>(r); matrices<float>(r); break;
        case 1: inverses(r); break;
        default: gaussian(r);
    }
}
