// C07: only invocations covered by a successful verification count as verified.
#include "fk.hpp"
#include "heap.hpp"
using namespace fakeit;
using fk::L;

namespace {
    struct I {
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual ~I() {}
    };
    struct Call { char sym; bool marked; };
    typedef std::vector<std::string> Texts;
    const char *textOf(char s) { return s == 'x' ? "a.f(1)" : s == 'y' ? "a.f(2)" : "b.g(1)"; }
    bool leafMatches(char leaf, char s) { return leaf == 'X' ? s == 'x' : leaf == 'Y' ? s == 'y' : leaf == 'Z' ? s == 'z' : s == 'x' || s == 'y'; }
    unsigned mockOf(char c) { return c == 'z' || c == 'Z' ? 2 : 1; }

    // ---- verification operations ----
    struct Pattern { const char *text; std::vector<std::string> elems; };
    const std::vector<Pattern> PATTERNS = {
        {"X", {"X"}}, {"F", {"F"}}, {"X+Y", {"XY"}}, {"X , Z", {"X", "Z"}}, {"F*2", {"FF"}}, {"F+Z", {"FZ"}}, {"Z , X+Y", {"Z", "XY"}}, {"F , F , F", {"F", "F", "F"}},
    };
    const int NP = 8;
    enum Count { PLAIN, EXACT1, EXACT2, ANYC, NEVER, ATLEAST0, ATLEAST2, NC };
    enum Scope { DEFAULT, UNVERIFIED, USING_AB, USING_UNVERIFIED_AB, USING_A, USING_UNVERIFIED_A_B, NS };
    const char *countName[] = {"", "Exactly(1)", "Exactly(2)", "Any", "Never", "AtLeast(0)", "AtLeast(2)"};
    const char *scopeName[] = {"default", "Unverified", "Using(a,b)", "Using(Unverified(a,b))", "Using(a)", "Using(Unverified(a),b)"};

    template<class V>
    bool finish(V &&v, int count, bool cond) {
        bool r = false;
#define T(X) if (cond) r = (bool) X; else X
        switch (count) {
            case PLAIN: if (cond) r = (bool) v; break;
            case EXACT1: T(v.Exactly(1)); break;
            case EXACT2: T(v.Exactly(2)); break;
            case ANYC: T(v.Any()); break;
            case NEVER: T(v.Never()); break;
            case ATLEAST0: T(v.AtLeast(0)); break;
            case ATLEAST2: T(v.AtLeast(2)); break;
        }
#undef T
        return r;
    }
    struct World {
        Mock<I> a, b;
        std::vector<Call> h;
        fk::QuietAdapter q;
        World() { Fake(Method(a, f), Method(b, g)); }
        void call(char s) {
            MC_LOG("call %s", textOf(s));
            h.push_back({s, false});
            if (s == 'x') L(a.get()).f(1);
            if (s == 'y') L(a.get()).f(2);
            if (s == 'z') L(b.get()).g(1);
        }
        template<class U>
        bool with(U &&u, int p, int count, bool cond) {
            switch (p) {
                case 0: return finish(u.Verify(Method(a, f).Using(1)), count, cond);
                case 1: return finish(u.Verify(Method(a, f)), count, cond);
                case 2: return finish(u.Verify(Method(a, f)(1) + Method(a, f)(2)), count, cond);
                case 3: return finish(u.Verify(Method(a, f).Using(1), Method(b, g)), count, cond);
                case 4: return finish(u.Verify(Method(a, f) * 2), count, cond);
                case 5: return finish(u.Verify(Method(a, f) + Method(b, g)), count, cond);
                case 6: return finish(u.Verify(Method(b, g), Method(a, f)(1) + Method(a, f)(2)), count, cond);
                default: return finish(u.Verify(Method(a, f), Method(a, f), Method(a, f)), count, cond);
            }
        }
        bool plain(int p, int count, bool cond) {
            switch (p) {
                case 0: return finish(Verify(Method(a, f).Using(1)), count, cond);
                case 1: return finish(Verify(Method(a, f)), count, cond);
                case 2: return finish(Verify(Method(a, f)(1) + Method(a, f)(2)), count, cond);
                case 3: return finish(Verify(Method(a, f).Using(1), Method(b, g)), count, cond);
                case 4: return finish(Verify(Method(a, f) * 2), count, cond);
                case 5: return finish(Verify(Method(a, f) + Method(b, g)), count, cond);
                case 6: return finish(Verify(Method(b, g), Method(a, f)(1) + Method(a, f)(2)), count, cond);
                default: return finish(Verify(Method(a, f), Method(a, f), Method(a, f)), count, cond);
            }
        }
        void verify(int p, int count, int scope, bool cond) {
            // ---- model ----
            unsigned mask = 0;
            for (auto &e : PATTERNS[p].elems) for (char c : e) mask |= mockOf(c);
            if (scope == USING_AB || scope == USING_UNVERIFIED_AB || scope == USING_UNVERIFIED_A_B) mask = 3;
            if (scope == USING_A) mask = 1;
            std::vector<size_t> in;
            for (size_t i = 0; i < h.size(); i++) {
                if (!(mockOf(h[i].sym) & mask)) continue;
                bool onlyUnverified = scope == UNVERIFIED || scope == USING_UNVERIFIED_AB || (scope == USING_UNVERIFIED_A_B && mockOf(h[i].sym) == 1);
                if (onlyUnverified && h[i].marked) continue;
                in.push_back(i);
            }
            int n = 0;
            std::vector<size_t> matched;
            for (size_t pos = 0;;) {
                std::vector<size_t> mine;
                bool ok = true;
                for (auto &e : PATTERNS[p].elems) {
                    bool found = false;
                    for (; pos + e.size() <= in.size(); pos++) {
                        bool all = true;
                        for (size_t j = 0; j < e.size(); j++) all = all && leafMatches(e[j], h[in[pos + j]].sym);
                        if (all) { found = true; break; }
                    }
                    if (!found) { ok = false; break; }
                    for (size_t j = 0; j < e.size(); j++) mine.push_back(in[pos + j]);
                    pos += e.size();
                }
                if (!ok) break;
                n++;
                matched.insert(matched.end(), mine.begin(), mine.end());
            }
            bool want = count == PLAIN ? n >= 1 : count == EXACT1 ? n == 1 : count == EXACT2 ? n == 2 : count == NEVER ? n == 0 : count == ATLEAST2 ? n >= 2 : true;
            if (want) for (size_t i : matched) h[i].marked = true;
            // ---- implementation ----
            bool r = false;
            switch (scope) {
                case DEFAULT: r = plain(p, count, cond); break;
                case UNVERIFIED: r = with(Unverified, p, count, cond); break;
                case USING_AB: r = with(Using(a, b), p, count, cond); break;
                case USING_UNVERIFIED_AB: { auto u = Unverified(a, b); r = with(Using(u), p, count, cond); break; }
                case USING_A: r = with(Using(a), p, count, cond); break;
                case USING_UNVERIFIED_A_B: { auto u = Unverified(a); r = with(Using(b, u), p, count, cond); break; }
            }
            bool got = cond ? r : q.events.empty();
            MC_LOG("verify [%s] %s %s%s: %d matches, passes %d (model %d)", PATTERNS[p].text, countName[count], scopeName[scope], cond ? " as condition" : "", n, got, want);
            mc::outcome(want ? (matched.empty() ? "passes without match" : "passes") : (matched.empty() ? "fails" : "fails with matches"));
            MC_CHECK(got == want, "verify [%s] %s %s: %s with %d matches", PATTERNS[p].text, countName[count], scopeName[scope], got ? "passes" : "fails", n);
            if (cond) MC_CHECK(q.events.empty(), "condition reported");
            if (!cond && !want) {
                auto e = q.pop();
                MC_CHECK(e.actual == n, "%d matches reported, %d expected", e.actual, n);
                MC_CHECK(e.all.size() == in.size(), "%zu invocations in scope, %zu expected", e.all.size(), in.size());
                for (size_t i = 0; i < in.size(); i++) MC_CHECK(e.all[i] == textOf(h[in[i]].sym), "scope differs at %zu", i);
            }
        }
        template<class F>
        void expectLeft(const char *form, const char *syms, F f) {
            Texts left;
            for (auto &c : h) if (strchr(syms, c.sym) && !c.marked) left.push_back(textOf(c.sym));
            f(false);
            if (left.empty()) { MC_CHECK(q.events.empty(), "%s fails though everything is verified: %s", form, q.events[0].str().c_str()); }
            else {
                MC_CHECK(q.events.size() == 1, "%s passes though %zu invocations are unverified", form, left.size());
                auto e = q.pop();
                MC_CHECK(e.kind == fk::Event::NoMore && e.unverified == left, "%s reports %s, %zu unverified expected", form, e.str().c_str(), left.size());
                size_t total = 0;
                for (auto &c : h) total += strchr(syms, c.sym) != nullptr;
                MC_CHECK(e.all.size() == total, "%s shows %zu invocations, scope has %zu", form, e.all.size(), total);
            }
            bool cond = f(true);
            MC_CHECK(cond == left.empty(), "%s as condition says %d", form, cond);
            MC_CHECK(q.events.empty(), "condition reported");
        }
        void checkMarks(bool full = true) {
#define FORM(TXT, SYMS, X) expectLeft(TXT, SYMS, [&](bool cond) -> bool { if (cond) return (bool) X; X; return false; })
            FORM("NoOther(a,b)", "xyz", VerifyNoOtherInvocations(a, b));
            if (full) {
            FORM("NoOther(a)", "xy", VerifyNoOtherInvocations(a));
            FORM("NoOther(b)", "z", VerifyNoOtherInvocations(b));
            FORM("NoOther(b.g)", "z", VerifyNoOtherInvocations(Method(b, g)));
            FORM("NoOther(a.f)", "xy", VerifyNoOtherInvocations(Method(a, f)));
            FORM("NoOther(a.f(2))", "y", VerifyNoOtherInvocations(Method(a, f).Using(2)));
            FORM("NoOther(b.g,a.f)", "xyz", VerifyNoOtherInvocations(Method(b, g), Method(a, f)));
            FORM("NoOther(b,a.f(1))", "xz", VerifyNoOtherInvocations(b, Method(a, f).Using(1)));
            }
            uint64_t hsh = 17;
            for (auto &c : h) hsh = mc::mix(hsh, c.sym * 2 + c.marked);
            mc::step(hsh);
        }
    };

    // all histories, two verifications of any kind
    void spacePairs() {
        World w;
        int len = mc::choose(mc::bound(5, 6));
        for (int i = 0; i < len; i++) w.call("xyz"[mc::choose(3)]);
        int p = mc::choose(6), count = mc::choose(4), scope = mc::choose(4);
        w.verify(p, count, scope, mc::flag());
        int p2 = mc::choose(6), count2 = mc::choose(4), scope2 = mc::choose(4);
        w.verify(p2, count2, scope2, false);
        w.checkMarks(false);
    }
    // single verification, all forms, longer histories
    void spaceSingle() {
        World w;
        int len = mc::choose(mc::bound(6, 8));
        for (int i = 0; i < len; i++) w.call("xyz"[mc::choose(3)]);
        int p = mc::choose(NP), count = mc::choose(NC), scope = mc::choose(NS);
        w.verify(p, count, scope, mc::flag());
        w.checkMarks();
    }
    // interleavings of calls and verifications
    void spaceInterleaved() {
        World w;
        bool readEach = mc::flag();
        int D = mc::bound(readEach ? 4 : 5, readEach ? 5 : 6);
        for (int d = 0; d < D; d++) {
            int op = mc::choose(12);
            if (op == 0) break;
            switch (op) {
                case 1: w.call('x'); break;
                case 2: w.call('y'); break;
                case 3: w.call('z'); break;
                case 4: w.verify(0, PLAIN, DEFAULT, false); break;
                case 5: w.verify(2, PLAIN, UNVERIFIED, false); break;
                case 6: w.verify(4, EXACT1, DEFAULT, true); break;
                case 7: w.verify(1, EXACT2, UNVERIFIED, false); break;
                case 8: w.verify(3, ANYC, DEFAULT, false); break;
                case 9: w.verify(5, PLAIN, USING_UNVERIFIED_AB, true); break;
                case 10: w.verify(0, NEVER, UNVERIFIED, false); break;
                case 11: w.verify(7, EXACT1, USING_AB, false); break;
            }
            if (readEach) w.checkMarks();
        }
        w.checkMarks(false);
    }
    // many invocations verified piece by piece
    void spaceScale() {
        static const int ns[] = {5, 16, 17, 49, 50, 51, 100, 128, 255, 256, 300};
        World w;
        int n = ns[mc::choose(11)], gen = mc::choose(3), step = mc::choose(4);
        for (int i = 0; i < n; i++) w.call(gen == 0 ? 'x' : gen == 1 ? "xyz"[i % 3] : "xzxxy"[i % 5]);
        w.checkMarks();
        static const int plan[4][4] = {{0, 2, 1, 3}, {2, 2, 4, 1}, {5, 4, 3, 0}, {6, 7, 7, 1}};
        for (int k = 0; k < 4; k++) {
            int p = plan[step][k];
            w.verify(p, EXACT2, UNVERIFIED, false);
            w.checkMarks();
            w.verify(p, k % 2 ? PLAIN : ATLEAST2, k % 2 ? UNVERIFIED : DEFAULT, k % 2);
            w.checkMarks();
        }
    }
    // what happens to marks when calls come from actions and when verification happens inside an action
    void spaceInside() {
        World w;
        int when = mc::choose(3), p = mc::choose(6), scope = mc::choose(4), after = mc::choose(3), before = mc::choose(4);
        for (int i = 0; i < before; i++) w.call("xyz"[(i + after) % 3]);
        Mock<I> &a = w.a, &b = w.b;
        // g's action verifies while the call of g is already recorded
        if (when) {
            When(Method(b, g)).Do([&](int) -> int { w.verify(p, when == 1 ? PLAIN : ANYC, scope, true); return 1; });
        }
        w.call('z');
        w.checkMarks();
        for (int i = 0; i < after; i++) { w.call('x'); w.call('y'); }
        w.verify(p, ANYC, scope, false);
        w.checkMarks();
    }
    // ---- lists of up to 20 elements, mocks and methods ----
    template<size_t... i>
    bool verifyList(const std::vector<const Sequence *> &p, int form, std::index_sequence<i...>) {
        if (form == 0) return (bool) Verify(*p[i]...);
        if (form == 1) return (bool) Verify(*p[i]...).AtLeast(2);
        return (bool) Unverified.Verify(*p[i]...).Exactly(3);
    }
    template<class T, size_t... i>
    void noOther(std::vector<T *> &of, std::index_sequence<i...>) { VerifyNoOtherInvocations(*of[i]...); }
    template<size_t... i>
    int unverifiedCalls(std::vector<Mock<I> *> &m, const Sequence &s, std::index_sequence<i...>) {
        fk::Recorder r;
        Fakeit.addEventHandler(r);
        Using(Unverified(*m[i]...)).Verify(s).Exactly(100000);
        Fakeit.clearEventHandlers();
        return r.events.size() == 1 ? r.events[0].actual : -1;
    }
    template<int N>
    void oneList() {
        auto all = std::make_index_sequence<N>();
        std::vector<std::unique_ptr<Mock<I>>> mocks;
        std::vector<Mock<I> *> m;
        std::vector<std::function<void()>> garbage;
        std::vector<const Sequence *> p;
        std::vector<const ActualInvocationsSource *> methods;
        for (int i = 0; i < N; i++) {
            mocks.emplace_back(new Mock<I>());
            m.push_back(mocks.back().get());
            Mock<I> &mock = *m.back();
            Fake(Method(mock, f));
            auto *s = new auto(Method(mock, f));
            garbage.push_back([s] { delete s; });
            p.push_back(s);
            methods.push_back(s);
        }
        int form = mc::choose(3), gone = mc::choose(3 * N + 1);  // the last: none is left out
        std::vector<int> h;
        for (int i = 0; i < 3 * N; i++) if (i != gone) { L(m[i % N]->get()).f(i % N); h.push_back(i % N); }
        // complete occurrences
        std::vector<bool> marked(h.size());
        int found = 0;
        std::vector<size_t> now;
        for (size_t i = 0; i < h.size(); i++) if (h[i] == (int) now.size()) {
            now.push_back(i);
            if (now.size() == N) { found++; for (size_t k : now) marked[k] = true; now.clear(); }
        }
        bool want = form == 2 ? found == 3 : found >= (form ? 2 : 1);
        if (!want) std::fill(marked.begin(), marked.end(), false);
        fk::QuietAdapter q;
        MC_CHECK(verifyList(p, form, all) == want, "list of %d elements, call %d left out: %d occurrences", N, gone, found);
        Texts left;
        for (size_t i = 0; i < h.size(); i++) if (!marked[i]) left.push_back("mock.f(" + std::to_string(h[i]) + ")");
        for (int how = 0; how < 3; how++) {
            if (how == 0) noOther(m, all);
            else if (how == 1) noOther(methods, all);
            else { std::vector<Mock<I> *> r(m.rbegin(), m.rend()); noOther(r, all); }
            MC_CHECK(left.empty() ? q.events.empty() : q.events.size() == 1 && q.events[0].unverified == left, "list of %d, call %d left out, form %d: %zu unverified calls, reported %s", N, gone, form, left.size(), q.events.empty() ? "none" : q.events[0].str().c_str());
            q.events.clear();
        }
        for (int i = 0; i < N; i++) {
            int n = 0;
            for (size_t k = 0; k < h.size(); k++) n += h[k] == i && !marked[k];
            int counted = unverifiedCalls(m, *p[i], all);
            MC_CHECK(counted == n, "list of %d, call %d left out: mock %d has %d unverified calls, counted %d", N, gone, i, n, counted);
        }
        mc::outcome(want ? "passes" : "fails");
        mc::step(mc::mix(mc::mix(N, form), gone));
        for (size_t i = garbage.size(); i-- > 0;) garbage[i]();
    }
    void spaceLists() {
        switch (mc::choose(9)) {
#define LIST(K, N) case K: oneList<N>(); break;
            LIST(0, 3) LIST(1, 4) LIST(2, 5) LIST(3, 7) LIST(4, 8) LIST(5, 9) LIST(6, 12) LIST(7, 16) LIST(8, 20)
        }
    }
    // long patterns: complete and broken occurrences, marks of every single call
    struct Marked { virtual int f(int, int) = 0; virtual ~Marked() {} };
    void spacePatterns() {
        fk::QuietAdapter q;
        static const int ks[] = {1, 2, 3, 4, 5, 7, 8, 9, 16, 33};
        int k = ks[mc::choose(10)], form = mc::choose(3), count = mc::choose(4);
        static const int partial[] = {0, 1, 2, 3, 99, 100};  // 99: all but one, 100: complete
        std::vector<int> pattern, hist;
        for (int i = 0; i < k; i++) { if (form == 1) { pattern.push_back(1); pattern.push_back(2); } else pattern.push_back(1); }
        if (form == 0) pattern.push_back(2);
        if (form == 2) pattern.insert(pattern.begin(), 2);
        int n = (int) pattern.size();
        for (int piece = 0; piece < 3; piece++) {
            int p = partial[mc::choose(6)];
            int len = p == 99 ? n - 1 : p == 100 ? n : p;
            if (p < 99 && len >= n - 1) throw mc::Prune{};
            hist.insert(hist.end(), pattern.begin(), pattern.begin() + len);
            if (p && p < 100) hist.push_back(3);
        }
        Mock<Marked> m;
        Fake(Method(m, f));
        for (size_t i = 0; i < hist.size(); i++) L(m.get()).f(hist[i], (int) i);
        std::vector<bool> in(hist.size());
        int found = 0;
        for (size_t i = 0; i + n <= hist.size();)
            if (std::equal(pattern.begin(), pattern.end(), hist.begin() + i)) { for (int j = 0; j < n; j++) in[i + j] = true; i += n; found++; }
            else i++;
        bool pass = count == 0 ? found >= 1 : count == 1 ? found == 1 : count == 2 ? found == 0 : found == 2;
        auto a = Method(m, f).Using(1, _), b = Method(m, f).Using(2, _);
        auto say = [&](const Sequence &s) { bool r = false; switch (count) { case 0: r = Verify(s); break; case 1: r = Verify(s).Once(); break; case 2: r = Verify(s).Never(); break; case 3: r = Verify(s).Exactly(2); break; } return r; };
        bool got = false;
        switch (form) {
            case 0: got = say(a * k + b); break;
            case 1: got = say((a + b) * k); break;
            case 2: got = say(b + a * k); break;
        }
        MC_CHECK(got == pass, "pattern of %d elements found %d times: count %d %s", n, found, count, got ? "passes" : "fails");
        std::string want;
        for (size_t i = 0; i < hist.size(); i++) if (!pass || !in[i]) want += mc::fmt("m.f(%d, %d);", hist[i], (int) i);
        VerifyNoOtherInvocations(m);
        std::string left;
        if (!q.events.empty()) for (auto &u : q.events[0].unverified) left += u + ";";
        MC_CHECK(left == want, "pattern of %d elements, form %d, count %d (%s): not verified are %s instead of %s", n, form, count, pass ? "passes" : "fails", left.c_str(), want.c_str());
        mc::outcome(pass ? "passes" : "fails");
        uint64_t h = mc::mix(mc::mix(k, form), count);
        for (int x : hist) h = mc::mix(h, x);
        mc::step(h);
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 4;
        o.mandatory = {"passes", "fails", "fails with matches", "passes without match"};
        o.bound = "all histories up to 5 (7) over 3 calls, one verification: 8 patterns x 7 counts x 6 scopes x statement/condition; marks read through 8 forms x 2";
        mc::add("single", o, spaceSingle);
        o.bound = "all histories up to 4 (5), two verifications: 6 patterns x 4 counts x 4 scopes each";
        mc::add("pairs", o, spacePairs);
        o.bound = "all interleavings of up to 5 (6) of 3 calls and 8 verifications, marks read at the end; up to 4 (5) with marks read after each";
        mc::add("interleaved", o, spaceInterleaved);
        o.mandatory = {"passes"};
        o.shardDepth = 2;
        o.bound = "histories of 5..300 calls verified piece by piece";
        mc::add("scale", o, spaceScale);
        mc::Options l = o;
        l.mandatory = {"passes", "fails"};
        l.shardDepth = 2;
        l.bound = "lists of 9 lengths from 3 to 20 mocks and methods, three rounds of calls with any one left out, verified in 3 forms";
        mc::add("lists", l, spaceLists);
        l.bound = "patterns of 2 to 66 elements in 3 forms, 4 counts, all histories of 3 complete or broken occurrences";
        mc::add("patterns", l, spacePatterns);
        o.bound = "verification from inside an action";
        mc::add("inside", o, spaceInside);
    });
}
