#include "common.hpp"
// training sets against a map model with phrase identity
struct PM { std::string label; Frames f; };          // one phrase object
typedef std::shared_ptr<xmm::Phrase> PP;
struct SM { std::map<int, std::shared_ptr<PM>> m; int D, I; bool bim; };
static void verifyPhrase(xmm::Phrase const& p, PM const& m, bool bim) {
    CHECK(p.label.get() == m.label, "phrase label '%s' expected '%s'", p.label.get().c_str(), m.label.c_str());
    CHECK(p.size() == m.f.size(), "phrase length %u expected %d", p.size(), int(m.f.size()));
    for (size_t t = 0; t < m.f.size(); t++)
        for (size_t d = 0; d < m.f[t].size(); d++) CHECK(p.getValue(t, d) == m.f[t][d], "phrase value (%d,%d)", int(t), int(d));
}
static void verify(xmm::TrainingSet& ts, SM const& s, const char* which) {
    CHECK(ts.size() == s.m.size() && ts.empty() == s.m.empty(), "%s: %u phrases expected %d", which, ts.size(), int(s.m.size()));
    std::set<std::string> L;
    for (auto& x : s.m) L.insert(x.second->label);
    CHECK(ts.labels() == L, "%s: label list has %d entries, expected %d", which, int(ts.labels().size()), int(L.size()));
    for (int k = -3; k < 12; k++) {
        PP p = ts.getPhrase(k);
        auto it = s.m.find(k);
        CHECK((p != nullptr) == (it != s.m.end()), "%s: phrase %d %s", which, k, p ? "present" : "missing");
        if (p) verifyPhrase(*p, *it->second, s.bim);
    }
    std::set<std::string> all = {"", "a", "b", "c", "d", "zz"};
    for (auto& l : all) {
        xmm::TrainingSet* sub = ts.getPhrasesOfClass(l);
        CHECK((sub != nullptr) == (L.count(l) > 0), "%s: subset for label '%s' %s", which, l.c_str(), sub ? "present" : "missing");
        if (!sub) continue;
        std::map<int, xmm::Phrase*> e, g;
        for (auto& x : s.m)
            if (x.second->label == l) e[x.first] = ts.getPhrase(x.first).get();
        for (auto it = sub->begin(); it != sub->end(); ++it) g[it->first] = it->second.get();
        CHECK(e == g, "%s: subset '%s' holds %d phrases, expected %d (or other objects / indices)", which, l.c_str(), int(g.size()), int(e.size()));
        CHECK(sub->dimension.get() == ts.dimension.get() && sub->dimension_input.get() == ts.dimension_input.get() && sub->bimodal() == ts.bimodal(),
              "%s: dimensions of the subset '%s'", which, l.c_str());
    }
    int n = 0;
    for (auto it = ts.begin(); it != ts.end(); ++it, ++n) CHECK(s.m.count(it->first), "%s: iteration", which);
    CHECK(n == int(s.m.size()), "%s: iteration length", which);
}
void one(Rng& r, long c) {
    bool bim = r.b(0.4);
    int D = r.i(bim ? 2 : 1, 3), I = bim ? r.i(1, D - 1) : 0;
    std::vector<std::unique_ptr<xmm::TrainingSet>> S;
    std::vector<SM> M;
    std::vector<std::pair<PP, std::shared_ptr<PM>>> ext;  // externally owned phrases
    std::vector<std::string> labs = {"", "a", "b", "c", "d"};
    auto add = [&] {
        S.emplace_back(new xmm::TrainingSet(mkSet(bim, D, I)));
        M.push_back(SM{{}, D, I, bim});
    };
    add();
    auto check = [&](const char* what, int i) {
        caseNote("after %s (set %d, bimodal %d)", what, i, bim);
        for (size_t k = 0; k < S.size(); k++) verify(*S[k], M[k], fmt("set %d", int(k)).c_str());
        for (auto& e : ext) verifyPhrase(*e.first, *e.second, bim);
    };
    auto deepCopy = [&](SM const& s) {
        // phrases stored twice in one set become distinct phrases
        SM n = s;
        for (auto& x : n.m) x.second = std::make_shared<PM>(*x.second);
        return n;
    };
    int ops = r.i(3, 30);
    for (int o = 0; o < ops; o++) {
        int i = r.i(0, int(S.size()) - 1);
        auto& ts = *S[i];
        auto& m = M[i];
        int idx = r.i(-1, 6);
        std::string l = r.pick(labs);
        switch (r.i(0, 13)) {
            case 0: case 1:
                ts.addPhrase(idx, l);
                m.m[idx] = std::make_shared<PM>(PM{l, {}});
                check("addPhrase(index,label)", i);
                break;
            case 2: {
                Frames f = randFrames(r, r.i(0, 4), D);
                xmm::Phrase p = mkPhrase(bim, D, I, f, l);
                ts.addPhrase(idx, p);
                m.m[idx] = std::make_shared<PM>(PM{l, f});
                check("addPhrase(index,phrase)", i);
                p.label.set("zz");
                p.clear();
                check("change of the source of a copied phrase", i);
                break;
            }
            case 3: case 4: {
                if (ext.size() < 5 || r.b(0.3)) {
                    Frames f = randFrames(r, r.i(0, 4), D);
                    PP p = std::make_shared<xmm::Phrase>(mkPhrase(bim, D, I, f, l));
                    ext.push_back({p, std::make_shared<PM>(PM{l, f})});
                }
                auto& e = ext[r.i(0, int(ext.size()) - 1)];
                ts.addPhrase(idx, e.first);
                m.m[idx] = e.second;
                check("addPhrase(index,pointer)", i);
                break;
            }
            case 5: case 6: case 7: {  // relabel
                if (!ext.empty() && r.b(0.4)) {
                    auto& e = ext[r.i(0, int(ext.size()) - 1)];
                    e.first->label.set(l);
                    e.second->label = l;
                    check("relabel external phrase", i);
                } else if (!m.m.empty()) {
                    auto it = m.m.begin();
                    std::advance(it, r.i(0, int(m.m.size()) - 1));
                    ts.getPhrase(it->first)->label.set(l);
                    it->second->label = l;
                    check("relabel", i);
                }
                break;
            }
            case 8:
                ts.removePhrase(idx);
                m.m.erase(idx);
                check("removePhrase", i);
                break;
            case 9: {
                std::string lab = l;
                ts.removePhrasesOfClass(lab);
                for (auto it = m.m.begin(); it != m.m.end();)
                    if (it->second->label == lab) it = m.m.erase(it); else ++it;
                check("removePhrasesOfClass", i);
                break;
            }
            case 10:
                if (r.b(0.3)) {
                    ts.clear();
                    m.m.clear();
                    check("clear", i);
                }
                break;
            case 11:
                if (S.size() < 4) {
                    S.emplace_back(new xmm::TrainingSet(*S[i]));
                    M.push_back(deepCopy(SM(M[i])));
                    check("copy", i);
                }
                break;
            case 12: {
                int k = r.i(0, int(S.size()) - 1);
                if (r.b(0.2)) add();
                *S[k] = *S[i];
                if (k != i) M[k] = deepCopy(M[i]);
                check("assign", k);
                if (S.size() > 1 && r.b(0.3)) {
                    S.erase(S.begin() + i);
                    M.erase(M.begin() + i);
                    check("destroy a set", i);
                }
                break;
            }
            case 13:  // record into a contained phrase: the other sets do not see it
                if (!m.m.empty()) {
                    auto it = m.m.begin();
                    std::advance(it, r.i(0, int(m.m.size()) - 1));
                    Frame f = randFrames(r, 1, D)[0];
                    ts.getPhrase(it->first)->record(f);
                    it->second->f.push_back(f);
                    check("record", i);
                }
                break;
        }
    }
    if (r.b(0.2)) {  // dimension change reaches the phrases and the subsets
        size_t i = r.i(0, int(S.size()) - 1);
        auto& ts = *S[i];
        int nd = r.i(bim ? 2 : 1, 5);
        bool shared = false;
        for (size_t k = 0; k < S.size(); k++)
            for (auto it = S[k]->begin(); k != i && it != S[k]->end(); ++it)
                for (auto jt = ts.begin(); jt != ts.end(); ++jt) shared = shared || it->second == jt->second;
        if (!shared) {
            if (nd != D) {
                ts.dimension.set(nd);
                for (auto& x : M[i].m) x.second->f.clear();
            }
            if (bim && r.b()) {
                int ni = r.i(1, nd - 1);
                ts.dimension_input.set(ni);
                for (auto& x : M[i].m) x.second->f.clear();
                for (auto it = ts.begin(); it != ts.end(); ++it) CHECK(int(it->second->dimension_input.get()) == ni, "input dimension of the phrases after a change of the set");
            }
            for (auto it = ts.begin(); it != ts.end(); ++it) CHECK(int(it->second->dimension.get()) == nd, "phrase dimension after a change of the set");
            std::vector<std::string> cn(nd, "x");
            ts.column_names.set(cn);
            for (auto it = ts.begin(); it != ts.end(); ++it) CHECK(it->second->column_names == cn, "phrase column names");
            verify(ts, M[i], "set after dimension change");
            for (size_t k = 0; k < S.size(); k++)
                if (k != i) { verify(*S[k], M[k], "other set after dimension change"); CHECK(int(S[k]->dimension.get()) == D && int(S[k]->dimension_input.get()) == I, "dimensions of another set"); }
        }
    }
}
