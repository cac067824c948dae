#include "common.hpp"
#include "core/common/xmmCircularbuffer.hpp"
// circular buffer against a list of the pushed values
template <class T, unsigned C> static void run(Rng& r) {
    unsigned N = r.b(0.2) ? 1 : r.i(1, 20);
    caseNote("channels %u length %u", C, N);
    xmm::CircularBuffer<T, C> cb(N);
    std::vector<std::vector<T>> hist;  // pushes since construction / clear
    auto verify = [&](xmm::CircularBuffer<T, C> const& cb, std::vector<std::vector<T>> const& hist) {
        unsigned k = unsigned(hist.size()), m = std::min(N, k);
        CHECK(cb.size() == N, "size() is %u, declared %u", cb.size(), N);
        CHECK(cb.size_t() == m, "actual size %u expected %u after %u pushes", cb.size_t(), m, k);
        std::vector<LD> sum(C, 0);
        for (unsigned j = (k > N ? k - N : 0); j < k; j++)
            for (unsigned c = 0; c < C; c++) {
                NEAR(cb(c, j % N), hist[j][c], 0, 0, "push %u of %u, channel %u", j, k, c);
                sum[c] += hist[j][c];
            }
        for (unsigned c = 0; c < C + 2; c++)
            for (unsigned q = 0; q < N + 2; q++) {
                if (!(c < C && q < m) && q != m && q != N && !r.b(0.1)) continue;
                bool ok = c < C && q < m;
                bool t = throwsAs<std::out_of_range>([&] { cb(c, q); });
                CHECK(t == !ok, "access (%u,%u) with actual size %u", c, q, m);
            }
        if (m) {
            auto mean = cb.mean();
            CHECK(mean.size() == C, "mean has %d channels", int(mean.size()));
            for (unsigned c = 0; c < C; c++) NEAR(mean[c], sum[c] / m, 1e-4, sizeof(T) == 4 ? 1e-3 : 1e-9, "mean channel %u after %u pushes, length %u", c, k, N);
        }
    };
    int ops = r.i(1, 60);
    for (int o = 0; o < ops; o++) {
        int op = r.i(0, 15);
        if (op == 0) {
            cb.clear();
            hist.clear();
        } else if (op == 1) {
            xmm::CircularBuffer<T, C> cp(cb);
            verify(cp, hist);
            std::vector<T> z(C, T(77));
            cp.push(z);
            if (r.b()) {
                cb = cp;
                hist.push_back(z);
            }
        } else {
            std::vector<T> v(C);
            for (auto& x : v) x = T(r.u(-100, 100));
            int how = r.i(0, C == 1 ? 2 : 1);
            if (how == 0) cb.push(v);
            else if (how == 1) cb.push((T const*)v.data());
            else cb.push(v[0]);
            hist.push_back(v);
            if (C > 1 && r.b(0.2)) {
                bool t = throwsAs<std::invalid_argument>([&] { cb.push(T(3)); });
                CHECK(t, "single-value push on %u channels did not throw", C);
            }
        }
        verify(cb, hist);
    }
}
void one(Rng& r, long c) {
    switch (c % 5) {
        case 0: case 1: run<double, 1>(r); break;
        case 2: run<float, 3>(r); break;
        case 3: run<double, 2>(r); break;
        case 4: run<float, 1>(r); break;
    }
}
