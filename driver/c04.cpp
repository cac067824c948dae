#include "common.hpp"
// independence of copied phrases: a pool of phrases against models
struct Mod {
    bool own, bim;
    int D, I;
    std::string label;
    Frames in, out;      // own data (unimodal: in)
    int buf = -1;        // shared: index of the external buffer
    std::vector<std::string> names;
};
struct Buf { std::vector<float> a, b, a0, b0; int T, D, I; bool bim; };
static void verify(xmm::Phrase const& p, Mod const& m) {
    CHECK(p.ownMemory() == m.own && p.bimodal() == m.bim, "memory mode / modality");
    CHECK(int(p.dimension.get()) == m.D && (!m.bim || int(p.dimension_input.get()) == m.I), "dimensions %u/%u expected %d/%d",
          p.dimension.get(), p.dimension_input.get(), m.D, m.I);
    CHECK(p.label.get() == m.label, "label '%s' expected '%s'", p.label.get().c_str(), m.label.c_str());
    unsigned li = m.in.size(), lo = m.out.size(), len = m.bim ? std::min(li, lo) : li;
    CHECK(p.size() == len, "length %u expected %u", p.size(), len);
    int Di = m.bim ? m.I : m.D;
    for (unsigned t = 0; t < std::max(li, lo); t++)
        for (int d = 0; d < m.D; d++) {
            bool ok = t < (d < Di ? li : lo);
            if (!ok) continue;
            float e = d < Di ? m.in[t][d] : m.out[t][d - Di];
            float g = p.getValue(t, d);
            CHECK(g == e, "value (%u,%d) is %g expected %g", t, d, g, e);
        }
}
void one(Rng& r, long c) {
    std::vector<std::unique_ptr<xmm::Phrase>> P;
    std::vector<Mod> M;
    std::vector<std::unique_ptr<Buf>> B;
    auto rnd = [&](int n) { Frame f(n); for (auto& x : f) x = float(r.u(-10, 10)); return f; };
    auto check = [&](const char* what, int i) {
        caseNote("after %s on %d of %d", what, i, int(P.size()));
        for (size_t k = 0; k < P.size(); k++) verify(*P[k], M[k]);
        for (auto& b : B) CHECK(b->a == b->a0 && b->b == b->b0, "shared buffer written");
    };
    int ops = r.i(3, 40);
    for (int o = 0; o < ops; o++) {
        if (P.empty() || (P.size() < 6 && r.b(0.2))) {
            Mod m;
            m.own = r.b(0.7);
            m.bim = r.b();
            m.D = m.bim ? 2 : 1;
            m.I = m.bim ? 1 : 0;
            P.emplace_back(new xmm::Phrase(m.own ? xmm::MemoryMode::OwnMemory : xmm::MemoryMode::SharedMemory,
                                           m.bim ? xmm::Multimodality::Bimodal : xmm::Multimodality::Unimodal));
            if (r.b(0.8)) {
                m.D = r.i(m.bim ? 2 : 1, 5);
                P.back()->dimension.set(m.D);
                if (m.bim) { m.I = r.i(1, m.D - 1); P.back()->dimension_input.set(m.I); }
            }
            M.push_back(m);
            check("create", int(P.size()) - 1);
            continue;
        }
        int i = r.i(0, int(P.size()) - 1);
        xmm::Phrase& p = *P[i];
        Mod& m = M[i];
        switch (r.i(0, 10)) {
            case 0: case 1: case 2: {
                if (m.own) {
                    int n = r.b(0.12) ? r.i(240, 300) : r.i(1, 5);
                    for (int k = 0; k < n; k++) {
                        if (m.bim && (m.in.size() != m.out.size() || r.b(0.3))) {
                            if (r.b()) { Frame f = rnd(m.I); p.record_input(f); m.in.push_back(f); }
                            else { Frame f = rnd(m.D - m.I); p.record_output(f); m.out.push_back(f); }
                        } else {
                            Frame f = rnd(m.D);
                            p.record(f);
                            if (m.bim) { m.in.push_back(head(f, m.I)); m.out.push_back(Frame(f.begin() + m.I, f.end())); }
                            else m.in.push_back(f);
                        }
                    }
                    check("record", i);
                } else {
                    std::unique_ptr<Buf> b(new Buf);
                    b->T = r.i(1, 6);
                    Frames fa, fb;
                    for (int t = 0; t < b->T; t++) {
                        fa.push_back(rnd(m.bim ? m.I : m.D));
                        b->a.insert(b->a.end(), fa.back().begin(), fa.back().end());
                        if (m.bim) { fb.push_back(rnd(m.D - m.I)); b->b.insert(b->b.end(), fb.back().begin(), fb.back().end()); }
                    }
                    b->a0 = b->a; b->b0 = b->b;
                    if (m.bim) p.connect(b->a.data(), b->b.data(), b->T); else p.connect(b->a.data(), b->T);
                    m.in = fa; m.out = fb;
                    B.push_back(std::move(b));
                    check("connect", i);
                }
                break;
            }
            case 3:
                if (P.size() < 7) {
                    P.emplace_back(new xmm::Phrase(*P[i]));
                    Mod cp = M[i];
                    M.push_back(cp);
                    check("copy", i);
                }
                break;
            case 4: case 5: {
                int k = r.i(0, int(P.size()) - 1);
                *P[k] = *P[i];
                M[k] = Mod(M[i]);
                check("assign", k);
                break;
            }
            case 6:
                if (r.b(0.6)) {
                    P.erase(P.begin() + i);
                    M.erase(M.begin() + i);
                    check("destroy", i);
                }
                break;
            case 7:
                if (m.own) p.clear(); else p.disconnect();
                m.in.clear(); m.out.clear();
                check("clear", i);
                break;
            case 8: {
                if (r.b() || !m.bim) {
                    m.D = r.i(m.bim ? 2 : 1, 5);
                    p.dimension.set(m.D);
                    if (m.bim) m.I = p.dimension_input.get();
                } else {
                    m.I = r.i(1, m.D - 1);
                    p.dimension_input.set(m.I);
                }
                m.in.clear(); m.out.clear();
                check("dimension change", i);
                break;
            }
            case 9:
                m.label = std::string(1, char('a' + r.i(0, 5)));
                p.label.set(m.label);
                check("label", i);
                break;
            case 10:
                if (m.own && m.bim && r.b()) {
                    if (r.b()) { p.clearInput(); m.in.clear(); } else { p.clearOutput(); m.out.clear(); }
                    check("clear one stream", i);
                } else {
                    P[i]->operator=(*P[i]);
                    check("self assignment", i);
                }
                break;
        }
    }
}
