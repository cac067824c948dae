#include "common.hpp"
// phrase contents against plain vectors
static void verify(xmm::Phrase const& p, bool bim, int D, int I, Frames const& in, Frames const& out) {
    // unimodal: `in` holds the frames
    unsigned li = in.size(), lo = bim ? out.size() : 0, len = bim ? std::min(li, lo) : li;
    CHECK(p.size() == len, "length %u expected %u", p.size(), len);
    CHECK(p.inputSize() == li, "input length %u expected %u", p.inputSize(), li);
    if (bim) CHECK(p.outputSize() == lo, "output length %u expected %u", p.outputSize(), lo);
    CHECK(p.empty() == (bim ? std::max(li, lo) == 0 : li == 0), "empty() is %d", int(p.empty()));
    int Di = bim ? I : D;
    unsigned step = 1 + (li + lo) / 97;
    auto visit = [&](unsigned t) {
        for (int d = 0; d < D + 1; d++) {
            bool ok = d < D && t < (d < Di ? li : lo);
            bool threw = false;
            float v = 0;
            try {
                v = p.getValue(t, d);
            } catch (std::out_of_range&) {
                threw = true;
            }
            CHECK(threw == !ok, "getValue(%u,%d) %s (lengths %u %u, dimensions %d %d)", t, d, threw ? "threw" : "did not throw", li, lo, D, I);
            if (ok) {
                float e = d < Di ? in[t][d] : out[t][d - Di];
                CHECK(v == e, "getValue(%u,%d)=%g expected %g (lengths %u %u)", t, d, v, e, li, lo);
            }
        }
        bool ok = t < len;
        if (bim) {
            bool t1 = throwsAs<std::out_of_range>([&] { p.getPointer_input(t); });
            bool t2 = throwsAs<std::out_of_range>([&] { p.getPointer_output(t); });
            CHECK(t1 == !ok && t2 == !ok, "getPointer_input/output(%u) with length %u", t, len);
            if (t < 2) CHECK(throwsAny([&] { p.getPointer(t); }), "getPointer on a bimodal phrase");
            if (ok) {
                for (int d = 0; d < I; d++) CHECK(p.getPointer_input(t)[d] == in[t][d], "input pointer (%u,%d)", t, d);
                for (int d = 0; d < D - I; d++) CHECK(p.getPointer_output(t)[d] == out[t][d], "output pointer (%u,%d)", t, d);
            }
        } else {
            bool t1 = throwsAs<std::out_of_range>([&] { p.getPointer(t); });
            CHECK(t1 == !ok, "getPointer(%u) with length %u", t, len);
            if (t < 2) CHECK(throwsAny([&] { p.getPointer_input(t); }) && throwsAny([&] { p.getPointer_output(t); }), "input/output pointer of a unimodal phrase");
            if (ok)
                for (int d = 0; d < D; d++) CHECK(p.getPointer(t)[d] == in[t][d], "pointer (%u,%d)", t, d);
        }
    };
    for (unsigned t = 0; t < std::max(li, lo); t += step) visit(t);
    for (unsigned e : {li, lo})
        for (int k = -2; k <= 1; k++)
            if (int(e) + k >= 0) visit(e + k);
    for (unsigned b = 256; b <= std::max(li, lo); b += 256)
        for (int k = -1; k <= 1; k++)
            if (b + k < std::max(li, lo)) visit(b + k);
}
void one(Rng& r, long c) {
    bool bim = c & 1;
    int D = r.i(bim ? 2 : 1, 6), I = bim ? r.i(1, D - 1) : 0;
    caseNote("bimodal %d dimension %d input %d", bim, D, I);
    xmm::Phrase p(xmm::MemoryMode::OwnMemory, bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
    p.dimension.set(D);
    if (bim) p.dimension_input.set(I);
    Frames in, out;
    auto rnd = [&](int n) {
        Frame f(n);
        for (auto& x : f) x = float(r.u(-10, 10));
        return f;
    };
    int ops = r.i(1, 14);
    for (int o = 0; o < ops; o++) {
        int op = r.i(0, 19);
        if (op <= 4) {  // single full frames
            int n = r.b(0.15) ? r.i(200, 600) : r.i(1, 6);
            for (int k = 0; k < n; k++) {
                Frame f = rnd(D);
                bool sync = !bim || in.size() == out.size();
                bool threw = throwsAny([&] { p.record(f); });
                CHECK(threw == !sync, "record() %s with lengths %d %d", threw ? "threw" : "accepted", int(in.size()), int(out.size()));
                if (!threw) {
                    if (bim) {
                        in.push_back(Frame(f.begin(), f.begin() + I));
                        out.push_back(Frame(f.begin() + I, f.end()));
                    } else
                        in.push_back(f);
                }
            }
        } else if (op <= 8) {
            int n = r.b(0.2) ? r.i(100, 560) : r.i(1, 5);
            for (int k = 0; k < n; k++) {
                Frame f = rnd(bim ? I : D);
                bool threw = throwsAny([&] { p.record_input(f); });
                CHECK(threw == !bim, "record_input");
                if (!threw) in.push_back(f);
            }
        } else if (op <= 12) {
            int n = r.b(0.2) ? r.i(100, 560) : r.i(1, 5);
            for (int k = 0; k < n; k++) {
                Frame f = rnd(bim ? D - I : D);
                bool threw = throwsAny([&] { p.record_output(f); });
                CHECK(threw == !bim, "record_output");
                if (!threw) out.push_back(f);
            }
        } else if (op <= 15) {  // wrong dimension: refused and unchanged
            int w = r.i(0, D + 2);
            if (w != D && (!bim || in.size() == out.size())) CHECK(throwsAs<std::invalid_argument>([&] { p.record(rnd(w)); }), "record of %d values", w);
            if (bim && w != I) CHECK(throwsAs<std::invalid_argument>([&] { p.record_input(rnd(w)); }), "record_input of %d values", w);
            if (bim && w != D - I) CHECK(throwsAs<std::invalid_argument>([&] { p.record_output(rnd(w)); }), "record_output of %d values", w);
        } else if (op == 16 && r.b(0.5)) {
            p.clear();
            in.clear();
            out.clear();
        } else if (op == 17 && bim && r.b(0.5)) {
            if (r.b()) { p.clearInput(); in.clear(); }
            else { p.clearOutput(); out.clear(); }
        } else if (op == 18 && r.b(0.3)) {  // new dimensions: an empty phrase
            D = r.i(bim ? 2 : 1, 6);
            p.dimension.set(D);
            I = p.dimension_input.get();
            if (bim) { I = r.i(1, D - 1); p.dimension_input.set(I); }
            in.clear();
            out.clear();
        } else if (op == 19 && r.b(0.5)) {
            p.label.set("other");
            xmm::Phrase q(p);
            verify(q, bim, D, I, in, out);
            if (r.b()) p = q;
        }
        verify(p, bim, D, I, in, out);
    }
    // phrase over shared memory
    if (r.b(0.3)) {
        xmm::Phrase s(xmm::MemoryMode::SharedMemory, bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal);
        s.dimension.set(D);
        if (bim) s.dimension_input.set(I);
        int T = r.i(1, 9), To = r.i(1, 9);
        std::vector<float> a, b;
        Frames fa, fb;
        for (int t = 0; t < T; t++) { fa.push_back(rnd(bim ? I : D)); a.insert(a.end(), fa.back().begin(), fa.back().end()); }
        for (int t = 0; t < To; t++) { fb.push_back(rnd(D - I)); b.insert(b.end(), fb.back().begin(), fb.back().end()); }
        if (bim) {
            s.connect_input(a.data(), T);
            s.connect_output(b.data(), To);
            verify(s, bim, D, I, fa, fb);
            if (T == To) { s.disconnect(); s.connect(a.data(), b.data(), T); verify(s, bim, D, I, fa, fb); }
        } else {
            s.connect(a.data(), T);
            verify(s, bim, D, I, fa, fb);
        }
        CHECK(throwsAny([&] { s.record(rnd(D)); }) && throwsAny([&] { s.clear(); }), "record/clear on shared memory");
        s.disconnect();
        verify(s, bim, D, I, Frames(), Frames());
    }
}
