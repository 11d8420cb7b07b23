// C06: sequence verification counts the disjoint ordered occurrences of the pattern.
#include "fk.hpp"
#include "heap.hpp"
using namespace fakeit;
using fk::L;

namespace {
    struct I {
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual ~I() {}
    };
    // history symbols: x a.f(1)   y a.f(2)   z b.g(1)   w c.f(1)
    // leaves:          X a.f(1)   Y a.f(2)   Z b.g      F a.f (any argument)   W c.f
    bool leafMatches(char leaf, char sym) {
        switch (leaf) {
            case 'X': return sym == 'x';
            case 'Y': return sym == 'y';
            case 'Z': return sym == 'z';
            case 'F': return sym == 'x' || sym == 'y';
            case 'W': return sym == 'w';
        }
        if (leaf >= 'a' && leaf <= 'e') return sym == leaf - 'a' + '0';
        return false;
    }
    unsigned leafMock(char leaf) { return leaf == 'Z' ? 2 : leaf == 'W' ? 4 : 1; }
    unsigned symMock(char sym) { return sym == 'z' ? 2 : sym == 'w' ? 4 : 1; }

    struct Elem {  // one comma separated element: the real sequence and its expansion
        const Sequence *seq;
        std::string leaves;
        std::string text;
        unsigned mocks() const { unsigned m = 0; for (char c : leaves) m |= leafMock(c); return m; }
    };

    // ---- reference: number of disjoint occurrences, by exhaustive placement ----
    struct Ref {
        const std::string &h;
        const std::vector<const Elem *> &p;
        bool at(size_t pos, const std::string &leaves) const {
            if (pos + leaves.size() > h.size()) return false;
            for (size_t i = 0; i < leaves.size(); i++) if (!leafMatches(leaves[i], h[pos + i])) return false;
            return true;
        }
        // E[k][pos]: smallest possible end of an occurrence of the elements k.. placed at or after pos (NONE: impossible)
        int count() const {
            const size_t NONE = std::string::npos, n = h.size();
            std::vector<std::vector<size_t>> E(p.size() + 1, std::vector<size_t>(n + 1, NONE));
            for (size_t pos = 0; pos <= n; pos++) E[p.size()][pos] = pos;
            for (size_t k = p.size(); k-- > 0;)
                for (size_t pos = n; pos-- > 0;) {
                    E[k][pos] = E[k][pos + 1];
                    if (at(pos, p[k]->leaves)) E[k][pos] = std::min(E[k][pos], E[k + 1][pos + p[k]->leaves.size()]);
                }
            // C[pos]: most occurrences that fit at or after pos
            std::vector<int> C(n + 1, 0);
            for (size_t pos = n; pos-- > 0;) C[pos] = E[0][pos] == NONE ? 0 : std::max(C[pos + 1], 1 + C[E[0][pos]]);
            return C[0];
        }
        // independent maximum over all choices of occurrences (cross-check of the greedy argument)
        int countMax(size_t pos = 0) const {
            int best = 0;
            for (size_t s = pos; s < h.size(); s++)
                if (at(s, p[0]->leaves)) {
                    std::vector<size_t> ends;
                    allEnds(s + p[0]->leaves.size(), 1, ends);
                    for (size_t e : ends) best = std::max(best, 1 + countMax(e));
                }
            return best;
        }
        void allEnds(size_t pos, size_t k, std::vector<size_t> &ends) const {
            if (k == p.size()) { ends.push_back(pos); return; }
            for (size_t s = pos; s < h.size(); s++)
                if (at(s, p[k]->leaves)) allEnds(s + p[k]->leaves.size(), k + 1, ends);
        }
    };

    struct World {
        Mock<I> a, b, c;
        std::string hist;
        std::vector<std::function<void()>> garbage;
        World() { Fake(Method(a, f), Method(b, g), Method(c, f)); }
        ~World() { for (size_t i = garbage.size(); i-- > 0;) garbage[i](); }
        void call(char s) {
            hist += s;
            switch (s) {
                case 'x': L(a.get()).f(1); break;
                case 'y': L(a.get()).f(2); break;
                case 'z': L(b.get()).g(1); break;
                case 'w': L(c.get()).f(1); break;
            }
        }
        std::string scoped(unsigned mask) const { std::string r; for (char s : hist) if (symMock(s) & mask) r += s; return r; }
        // ---- pattern construction ----
        template<class T>
        const Sequence &own(T *t) { garbage.push_back([t] { delete t; }); return *t; }
        Elem leaf(char c) {
            switch (c) {
                case 'X': return {&own(new auto(Method(a, f).Using(1))), "X", "X"};
                case 'Y': return {&own(new auto(Method(a, f)(2))), "Y", "Y"};
                case 'Z': return {&own(new auto(Method(b, g))), "Z", "Z"};
                case 'W': return {&own(new auto(Method(c_(), f).Using(Gt(0)))), "W", "W"};
                default: return {&own(new auto(Method(a, f))), "F", "F"};
            }
        }
        Mock<I> &c_() { return c; }
        Elem cat(const Elem &l, const Elem &r) { return {&own(new auto(*l.seq + *r.seq)), l.leaves + r.leaves, l.text + "+" + (r.text.size() > 1 ? "(" + r.text + ")" : r.text)}; }
        Elem rep(const Elem &e, int n, bool left = false) {
            std::string s;
            for (int i = 0; i < n; i++) s += e.leaves;
            return {left ? &own(new auto(n * *e.seq)) : &own(new auto(*e.seq * n)), s, "(" + e.text + ")*" + std::to_string(n)};
        }
    };
    template<class U>
    void run(U &&u, const std::vector<const Elem *> &p) {
#define E(i) *p[i]->seq
        switch (p.size()) {
            case 1: u.Verify(E(0)).Exactly(100000); break;
            case 2: u.Verify(E(0), E(1)).Exactly(100000); break;
            case 3: u.Verify(E(0), E(1), E(2)).Exactly(100000); break;
            case 4: u.Verify(E(0), E(1), E(2), E(3)).Exactly(100000); break;
            case 5: u.Verify(E(0), E(1), E(2), E(3), E(4)).Exactly(100000); break;
        }
    }
    void runDefault(const std::vector<const Elem *> &p) {
        switch (p.size()) {
            case 1: Verify(E(0)).Exactly(100000); break;
            case 2: Verify(E(0), E(1)).Exactly(100000); break;
            case 3: Verify(E(0), E(1), E(2)).Exactly(100000); break;
            case 4: Verify(E(0), E(1), E(2), E(3)).Exactly(100000); break;
            case 5: Verify(E(0), E(1), E(2), E(3), E(4)).Exactly(100000); break;
        }
    }
#undef E
    std::string text(const std::vector<const Elem *> &p) {
        std::string r;
        for (auto *e : p) r += (r.empty() ? "" : " , ") + e->text;
        return r;
    }
    const int NSCOPE = 6;
    const char *scopeName[] = {"default", "Using(a)", "Using(b)", "Using(a,b)", "Using(c,b,a)", "Using(a,c)"};
    const unsigned scopeMask[] = {0, 1, 2, 3, 7, 5};

    void judge(World &w, fk::QuietAdapter &q, const std::vector<const Elem *> &p, int scope, bool crossCheck = false) {
        unsigned mask = scopeMask[scope];
        if (scope == 0) for (auto *e : p) mask |= e->mocks();
        std::string h = w.scoped(mask);
        Ref ref{h, p};
        int want = ref.count();
        if (crossCheck) {
            int mx = ref.countMax();
            if (mx != want) { fprintf(stderr, "reference disagrees with itself\n"); _exit(9); }
        }
        Mock<I> &a = w.a, &b = w.b, &c = w.c;
        switch (scope) {
            case 0: runDefault(p); break;
            case 1: run(Using(a), p); break;
            case 2: run(Using(b), p); break;
            case 3: run(Using(a, b), p); break;
            case 4: run(Using(c, b, a), p); break;
            case 5: run(Using(a, c), p); break;
        }
        MC_CHECK(q.events.size() == 1, "no event for an impossible count");
        auto e = q.pop();
        if (mc::verbose()) MC_LOG("history %s (in scope %s) pattern [%s] %s: %d matches (model %d)", w.hist.c_str(), h.c_str(), text(p).c_str(), scopeName[scope], e.actual, want);
        mc::outcome(want == 0 ? "no match" : want == 1 ? "one match" : "several matches");
        if (e.actual != want)
            mc::fail(mc::fmt("history %s, %s, pattern [%s]: %d matches counted, there are %d", w.hist.c_str(), scopeName[scope], text(p).c_str(), e.actual, want));
        MC_CHECK(e.all.size() == h.size(), "%s: %zu calls in scope, expected %zu", scopeName[scope], e.all.size(), h.size());
        mc::step(mc::mix(mc::mix(mc::hashStr(h), mc::hashStr(text(p))), want));
    }

    // ---- space 1: patterns of one and two elements over all small elements ----
    void spacePatterns(int maxLen, int nsym) {
        World w;
        int len = mc::choose(maxLen + 1);
        for (int i = 0; i < len; i++) w.call("xyzw"[mc::choose(nsym)]);
        std::vector<Elem> leaves, one;
        for (char c : std::string("XYZF")) leaves.push_back(w.leaf(c));
        one = leaves;
        for (auto &l : leaves) for (auto &r : leaves) one.push_back(w.cat(l, r));
        for (auto &l : leaves) { one.push_back(w.rep(l, 2)); one.push_back(w.rep(l, 3, true)); }
        one.push_back(w.rep(w.cat(leaves[0], leaves[1]), 2));
        one.push_back(w.rep(w.cat(leaves[0], leaves[2]), 2, true));
        one.push_back(w.cat(w.rep(leaves[0], 2), leaves[1]));
        one.push_back(w.cat(leaves[0], w.rep(leaves[2], 2)));
        one.push_back(w.cat(w.cat(leaves[0], leaves[1]), leaves[0]));
        one.push_back(w.cat(leaves[3], w.cat(leaves[2], leaves[3])));
        one.push_back(w.rep(w.rep(leaves[3], 2), 2));
        one.push_back(w.rep(leaves[0], 1));
        one.push_back(w.leaf('W'));
        fk::QuietAdapter q;
        for (auto &e : one) {
            std::vector<const Elem *> p{&e};
            for (int s = 0; s < NSCOPE; s++) judge(w, q, p, s, true);
        }
        size_t small = 4 + 16;
        for (size_t i = 0; i < one.size(); i++)
            for (size_t j = 0; j < one.size(); j++) {
                if (i >= small && j >= small) continue;
                std::vector<const Elem *> p{&one[i], &one[j]};
                judge(w, q, p, 0, len <= 4);
                judge(w, q, p, 4);
                if (i < 8 && j < 8) judge(w, q, p, 1), judge(w, q, p, 5);
            }
    }
    // ---- space 2: three to five elements ----
    void spaceMany() {
        World w;
        int maxLen = mc::bound(7, 8);
        int len = mc::choose(maxLen + 1);
        for (int i = 0; i < len; i++) w.call("xyz"[mc::choose(3)]);
        std::vector<Elem> el;
        for (char c : std::string("XYZF")) el.push_back(w.leaf(c));
        el.push_back(w.cat(el[0], el[1]));
        el.push_back(w.rep(el[0], 2));
        fk::QuietAdapter q;
        for (auto &e1 : el) for (auto &e2 : el) for (auto &e3 : el) {
            std::vector<const Elem *> p{&e1, &e2, &e3};
            judge(w, q, p, 0, len <= 4);
            judge(w, q, p, 3);
        }
        for (int i = 0; i < 81; i++) {
            std::vector<const Elem *> p{&el[i % 3], &el[i / 3 % 3], &el[i / 9 % 3], &el[i / 27 % 3]};
            judge(w, q, p, 0);
        }
        for (int i = 0; i < 32; i++) {
            std::vector<const Elem *> p{&el[i & 1], &el[i >> 1 & 1], &el[i >> 2 & 1], &el[i >> 3 & 1], &el[i >> 4 & 1]};
            judge(w, q, p, 0);
        }
    }
    // ---- space 3: nested patterns of any shape up to a depth ----
    Elem tree(World &w, int depth) {
        int k = mc::choose(depth > 1 ? 4 : 2);
        if (k == 0) return w.leaf('X');
        if (k == 1) return w.leaf('Z');
        if (k == 2) { Elem l = tree(w, depth - 1); Elem r = tree(w, depth - 1); return w.cat(l, r); }
        return w.rep(tree(w, depth - 1), 2, depth % 2);
    }
    void spaceTrees() {
        World w;
        Elem e = tree(w, mc::bound(3, 4));
        Elem follow = w.leaf('Z');
        int len = mc::choose(9);
        // the histories of this length, one after the other on fresh mocks of the same pattern are not possible: choose
        for (int i = 0; i < len; i++) w.call("xz"[mc::choose(2)]);
        fk::QuietAdapter q;
        std::vector<const Elem *> p{&e}, p2{&e, &follow}, p3{&follow, &e};
        judge(w, q, p, 0);
        judge(w, q, p, 3);
        judge(w, q, p2, 0);
        judge(w, q, p3, 0);
    }
    // ---- space 4: long histories and repetitions ----
    void spaceLong() {
        static const int ns[] = {1, 2, 3, 7, 8, 9, 20, 31, 32, 33, 50, 51, 64, 100, 127, 128, 200, 255, 256, 257, 300, 520, 1030};
        World w;
        int n = ns[mc::choose(23)], gen = mc::choose(5), rep = 1 + mc::choose(10);
        for (int i = 0; i < n; i++) {
            char c = gen == 0 ? 'x' : gen == 1 ? "xy"[i % 2] : gen == 2 ? "xyz"[i % 3] : gen == 3 ? "xxy"[i % 3] : "xzxxwy"[i % 6];
            w.call(c);
        }
        Elem x = w.leaf('X'), y = w.leaf('Y'), f = w.leaf('F'), z = w.leaf('Z');
        static const int reps[] = {1, 2, 3, 10, 50, 101, 128, 255, 256, 300};
        int r = reps[rep - 1];
        Elem xr = w.rep(x, r), fr = w.rep(f, r), xyr = w.rep(w.cat(x, y), r), xzy = w.cat(w.cat(x, y), x);
        fk::QuietAdapter q;
        std::vector<std::vector<const Elem *>> ps = {{&xr}, {&fr}, {&xyr}, {&xzy}, {&x, &y}, {&y, &xr}, {&x, &z, &y}, {&f, &fr}};
        for (auto &p : ps) for (int s = 0; s < NSCOPE; s++) judge(w, q, p, s);
    }
    // ---- space 6: elements of up to 8 (9) methods of up to five mocks, put together in every way ----
    // history symbols 0..4: f(1) of that mock, 5..9: f(2) of it; leaves a..e: f(1) of that mock
    struct Five {
        Mock<I> m0, m1, m2, m3, m4;
        Mock<I> *m[5] = {&m0, &m1, &m2, &m3, &m4};
        std::vector<std::function<void()>> garbage;
        Five() { for (auto *k : m) { Mock<I> &mock = *k; Fake(Method(mock, f)); } }
        ~Five() { for (size_t i = garbage.size(); i-- > 0;) garbage[i](); }
        template<class T>
        const Sequence &own(T *t) { garbage.push_back([t] { delete t; }); return *t; }
        // every binary tree over the leaves
        Elem build(const std::string &leaves) {
            if (leaves.size() == 1) { Mock<I> &mock = *m[leaves[0] - 'a']; return {&own(new auto(Method(mock, f).Using(1))), leaves, leaves}; }
            int left = 1 + mc::choose((int) leaves.size() - 1);
            Elem l = build(leaves.substr(0, left)), r = build(leaves.substr(left));
            return {&own(new auto(*l.seq + *r.seq)), leaves, "(" + l.text + "+" + r.text + ")"};
        }
    };
    void spaceWide() {
        int n = 1 + mc::choose(mc::bound(8, 9)), mocks = 1 + mc::choose(5);
        if (mocks > n) mc::prune();
        std::string leaves;
        for (int i = 0; i < n; i++) leaves += char('a' + (i * (mocks == 4 ? 3 : 1)) % mocks);
        Five w;
        int cut = n == 1 ? 0 : mc::choose(n > mc::bound(5, 6) ? 2 : n);  // 0: one element, else the second begins there
        if (cut && n > mc::bound(5, 6)) cut = n - 1;
        std::vector<Elem> el;
        el.push_back(w.build(cut ? leaves.substr(0, cut) : leaves));
        if (cut) el.push_back(w.build(leaves.substr(cut)));
        std::vector<const Elem *> p;
        for (auto &e : el) p.push_back(&e);
        // histories: the pattern as such; with one call replaced, left out, or put in between
        std::string exact;
        for (char c : leaves) exact += char(c - 'a' + '0');
        std::vector<std::string> hs = {exact, exact + exact};
        for (int i = 0; i < n; i++) {
            std::string other = exact, gone = exact, more = exact, foreign = exact;
            other[i] = char(other[i] + 5);
            gone.erase(i, 1);
            more.insert(i, 1, char(exact[i] + 5));
            foreign.insert(i, 1, char('0' + (exact[i] - '0' + 1) % 5));
            hs.insert(hs.end(), {other, gone + exact, more, foreign});
        }
        fk::QuietAdapter q;
        for (auto &h : hs) {
            for (auto *k : w.m) k->ClearInvocationHistory();
            for (char c : h) L(w.m[(c - '0') % 5]->get()).f(c < '5' ? 1 : 2);
            for (int scope = 0; scope < 2; scope++) {
                std::string in;
                for (char c : h) if (scope || (c - '0') % 5 < mocks) in += c;
                int want = Ref{in, p}.count();
                if (scope) run(Using(w.m3, w.m0, w.m4, w.m1, w.m2), p);
                else runDefault(p);
                MC_CHECK(q.events.size() == 1, "no event for an impossible count");
                auto e = q.pop();
                MC_LOG("history %s, %s, pattern [%s]: %d matches (model %d), %zu calls in scope (model %zu)", h.c_str(), scope ? "Using all" : "default", text(p).c_str(), e.actual, want, e.all.size(), in.size());
                MC_CHECK(e.actual == want, "history %s, %s, pattern [%s]: %d matches counted, there are %d", h.c_str(), scope ? "Using all" : "default", text(p).c_str(), e.actual, want);
                MC_CHECK(e.all.size() == in.size(), "history %s, pattern [%s]: %zu calls in scope, expected %zu", h.c_str(), text(p).c_str(), e.all.size(), in.size());
                mc::outcome(want == 0 ? "no match" : want == 1 ? "one match" : "several matches");
                mc::step(mc::mix(mc::mix(mc::hashStr(in), mc::hashStr(text(p))), want));
            }
        }
    }
    // ---- space 7: lists of up to 24 elements and scopes of up to 24 mocks ----
    template<size_t... i>
    void listed(bool scope, const std::vector<const Sequence *> &p, Mock<I> *m, std::index_sequence<i...>) {
        if (scope) Using(m[sizeof...(i) - 1 - i]...).Verify(*p[i]...).Exactly(100000);
        else Verify(*p[i]...).Exactly(100000);
    }
    template<int N>
    void oneList(int mocks, bool scope) {
        Mock<I> m[24];
        std::vector<std::function<void()>> garbage;
        std::vector<const Sequence *> p;
        for (auto &mock : m) Fake(Method(mock, f));
        for (int i = 0; i < N; i++) {
            auto &mock = m[i % mocks];
            auto *s = new auto(Method(mock, f).Using(1));
            garbage.push_back([s] { delete s; });
            p.push_back(s);
        }
        typedef std::vector<std::pair<int, int>> History;  // mock, argument
        History exact;
        for (int i = 0; i < N; i++) exact.push_back({i % mocks, 1});
        std::vector<History> hs = {exact};
        for (int i = 0; i < N; i++) {
            History gone = exact, other = exact, more = exact, foreign = exact, twice = exact;
            gone.erase(gone.begin() + i);
            other[i].second = 2;
            more.insert(more.begin() + i, {i % mocks, 2});
            foreign.insert(foreign.begin() + i, {23, 1});
            twice.insert(twice.begin() + i, exact.begin(), exact.end());
            hs.insert(hs.end(), {gone, other, more, foreign, twice});
        }
        fk::QuietAdapter q;
        for (auto &h : hs) {
            for (auto &mock : m) mock.ClearInvocationHistory();
            size_t inScope = 0, at = 0;
            int want = 0;
            for (auto &c : h) {
                L(m[c.first].get()).f(c.second);
                if (c.first < (scope ? N : mocks)) {
                    inScope++;
                    if (c.second == 1 && c.first == (int) at % mocks && ++at == N) { want++; at = 0; }
                }
            }
            listed(scope, p, m, std::make_index_sequence<N>());
            MC_CHECK(q.events.size() == 1, "no event for an impossible count");
            auto e = q.pop();
            MC_CHECK(e.actual == want, "a list of %d elements of %d mocks%s: %d matches counted, there are %d", N, mocks, scope ? ", Using" : "", e.actual, want);
            MC_CHECK(e.all.size() == inScope, "a list of %d elements of %d mocks%s: %zu calls in scope, expected %zu", N, mocks, scope ? ", Using" : "", e.all.size(), inScope);
            mc::outcome(want == 0 ? "no match" : want == 1 ? "one match" : "several matches");
            mc::step(mc::mix(mc::mix(N * 2 + scope, mocks), &h - &hs[0]));
        }
        for (size_t i = garbage.size(); i-- > 0;) garbage[i]();
    }
    void spaceLists() {
        int n = mc::choose(10);
        bool scope = mc::flag();
        auto mocks = [](int N) { int k = mc::choose(3); return k == 0 ? 1 : k == 1 ? N / 2 : N; };
        switch (n) {
#define LIST(K, N) case K: oneList<N>(mocks(N), scope); break;
            LIST(0, 6) LIST(1, 7) LIST(2, 8) LIST(3, 9) LIST(4, 10) LIST(5, 12) LIST(6, 13) LIST(7, 16) LIST(8, 17) LIST(9, 23)
        }
    }
    // ---- space 5: repetition counts that make no sense ----
    void spaceBadTimes() {
        static const int ks[] = {0, -1, -2, -1000000, -2147483647 - 1};
        int k = ks[mc::choose(5)], form = mc::choose(4);
        World w;
        w.call('x');
        Mock<I> &a = w.a;
        bool threw = false;
        try {
            if (form == 0) { auto s = Method(a, f) * k; (void) s; }
            if (form == 1) { auto s = k * Method(a, f); (void) s; }
            if (form == 2) Verify(Method(a, f) * k);
            if (form == 3) Verify(Method(a, f), (Method(a, f) + Method(a, f)) * k).Exactly(1);
        } catch (std::invalid_argument &) { threw = true; }
        MC_CHECK(threw, "repetition %d is accepted", k);
        mc::step(mc::mix(form, k));
        mc::outcome("rejected");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 5;
        o.mandatory = {"no match", "one match", "several matches"};
        o.bound = "all histories up to 5 (6) over 4 calls on 3 mocks x 41 one-element patterns x 6 scopes and about 1240 two-element patterns x 2..4 scopes";
        mc::add("patterns", o, [] { spacePatterns(mc::bound(5, 6), 4); });
        o.bound = "histories up to 7 over 2 calls, the same patterns";
        mc::add("patterns-long", o, [] { spacePatterns(mc::bound(7, 8), 2); });
        o.bound = "all histories up to 7 (8) over 3 calls x 216 three-, 81 four- and 32 five-element patterns";
        mc::add("elements", o, spaceMany);
        o.shardDepth = 4;
        o.bound = "every pattern tree of + and *2 over two leaves up to depth 3 (4) x all histories up to 8 over two mocks";
        mc::add("trees", o, spaceTrees);
        o.shardDepth = 3;
        o.mandatory = {"no match", "several matches"};
        o.bound = "histories up to 1030 calls, repetitions up to 300 (of one and of two methods)";
        mc::add("long", o, spaceLong);
        o.shardDepth = 5;
        o.mandatory = {"no match", "one match", "several matches"};
        o.bound = "up to 8 (9) methods of up to 5 mocks put together with + in every shape, as one or two elements x the matching history and all its single changes";
        mc::add("wide", o, spaceWide);
        o.bound = "lists of 10 lengths from 6 to 23 over 1 to 23 mocks, with and without Using: the matching history and its single changes";
        mc::add("lists", o, spaceLists);
        o.shardDepth = 1;
        o.mandatory = {"rejected"};
        o.bound = "5 senseless repetition counts";
        mc::add("bad-times", o, spaceBadTimes);
    });
}
