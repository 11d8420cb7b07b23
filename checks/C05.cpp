// C05: a verification passes exactly when the number of matches fits the stated count.
#include "fk.hpp"
#include "heap.hpp"
#include <climits>
using namespace fakeit;
using fk::L;

namespace {
    struct I {
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual ~I() {}
    };
    // ---- count forms ----
    enum Form { PLAIN, ATLEASTONCE, ONCE, TWICE, NEVER, ANYCOUNT, EXACT, EXACTQ, EXACTT, ATLEAST, ATLEASTQ, ATLEASTT, EXACTONCE, NFORM };
    const char *formName[] = {"plain", "AtLeastOnce", "Once", "Twice", "Never", "Any", "Exactly(k)", "Exactly(k_Times)", "Exactly(Quantity)", "AtLeast(k)", "AtLeast(k_Times)", "AtLeast(Quantity)", "Exactly(Once)"};
    bool hasK(int f) { return f >= EXACT && f <= ATLEASTT; }
    struct Spec { bool any, exact; int count; };
    Spec spec(int form, int k) {
        switch (form) {
            case PLAIN: case ATLEASTONCE: return {false, false, 1};
            case ONCE: case EXACTONCE: return {false, true, 1};
            case TWICE: return {false, true, 2};
            case NEVER: return {false, true, 0};
            case ANYCOUNT: return {true, false, 0};
            case EXACT: case EXACTQ: case EXACTT: return {false, true, k};
            default: return {false, false, k};
        }
    }
    bool holds(const Spec &s, int n) { return s.any || (s.exact ? n == s.count : n >= s.count); }

    // use: 0 reporting statement, 1 converted to bool, 2 negated
    int gVerdict;
    template<class T>
    void take(T &&t, int use) {
        if (use == 1) gVerdict = (bool) t ? 1 : 0;
        if (use == 2) gVerdict = !t ? 0 : 1;
    }
    template<class V>
    void finish(V &&v, int form, int k, int use) {
        QuantifierFunctor q(k);
        Quantity qt(k);
        switch (form) {
            case PLAIN: take(v, use); break;
            case ATLEASTONCE: take(v.AtLeastOnce(), use); break;
            case ONCE: take(v.Once(), use); break;
            case TWICE: take(v.Twice(), use); break;
            case NEVER: take(v.Never(), use); break;
            case ANYCOUNT: take(v.Any(), use); break;
            case EXACT: take(v.Exactly(k), use); break;
            case EXACTQ: take(v.Exactly(q), use); break;
            case EXACTT: take(v.Exactly(qt), use); break;
            case ATLEAST: take(v.AtLeast(k), use); break;
            case ATLEASTQ: take(v.AtLeast(q), use); break;
            case ATLEASTT: take(v.AtLeast(qt), use); break;
            case EXACTONCE: take(v.Exactly(Once), use); break;
        }
    }
    const int NSUBJ = 9;
    const char *subjName[] = {"a.f(1)", "a.f", "a.f(1)+a.f(1)", "a.f(1)*2", "a.f(1), a.f(2)", "Using(a,b) a.f(1)", "Unverified a.f(1)", "a.f(1) + b.g", "3 * b.g"};
    struct World {
        Mock<I> a, b;
        std::string hist;  // x: a.f(1)  y: a.f(2)  z: b.g(3)
        World() {
            Fake(Method(a, f), Method(b, g));
        }
        void call(char c) {
            hist += c;
            if (c == 'x') L(a.get()).f(1);
            if (c == 'y') L(a.get()).f(2);
            if (c == 'z') L(b.get()).g(3);
        }
        std::string scoped(const char *keep) const {
            std::string r;
            for (char c : hist) if (strchr(keep, c)) r += c;
            return r;
        }
        static int disjoint(const std::string &h, const std::string &pat) {
            int n = 0;
            for (size_t p = 0; (p = h.find(pat, p)) != std::string::npos; p += pat.size()) n++;
            return n;
        }
        int matches(int subj) const {
            switch (subj) {
                case 0: case 5: case 6: return (int) std::count(hist.begin(), hist.end(), 'x');
                case 1: return (int) scoped("xy").size();
                case 2: case 3: return disjoint(scoped("xy"), "xx");
                case 4: {
                    std::string h = scoped("xy");
                    int n = 0;
                    char want = 'x';
                    for (char c : h) if (c == want) { if (c == 'y') n++; want = c == 'x' ? 'y' : 'x'; }
                    return n;
                }
                case 7: return disjoint(hist, "xz");
                case 8: return disjoint(scoped("z"), "zzz");
            }
            return 0;
        }
        void verify(int subj, int form, int k, int use) {
            switch (subj) {
                case 0: finish(Verify(Method(a, f).Using(1)), form, k, use); break;
                case 1: finish(Verify(Method(a, f)), form, k, use); break;
                case 2: finish(Verify(Method(a, f).Using(1) + Method(a, f).Using(1)), form, k, use); break;
                case 3: finish(Verify(Method(a, f)(1) * 2), form, k, use); break;
                case 4: finish(Verify(Method(a, f).Using(1), Method(a, f).Using(2)), form, k, use); break;
                case 5: finish(Using(a, b).Verify(Method(a, f).Using(1)), form, k, use); break;
                case 6: finish(Unverified.Verify(Method(a, f).Using(1)), form, k, use); break;
                case 7: finish(Verify(Method(a, f).Using(1) + Method(b, g)), form, k, use); break;
                case 8: finish(Verify(3 * Method(b, g)), form, k, use); break;
            }
        }
    };
    // One verification, compared with the table.
    void judge(World &w, fk::QuietAdapter &q, int subj, int form, int k, int use) {
        int n = w.matches(subj);
        Spec s = spec(form, k);
        bool want = holds(s, n);
        gVerdict = -1;
        w.verify(subj, form, k, use);
        bool got = use ? gVerdict == 1 : q.events.empty();
        MC_LOG("history %s: %s %s k=%d use %d: %d matches, passes %d (model %d)", w.hist.c_str(), subjName[subj], formName[form], k, use, n, got, want);
        mc::outcome(want ? "passes" : "fails");
        MC_CHECK(got == want, "history %s: Verify(%s) %s k=%d with %d matches %s", w.hist.c_str(), subjName[subj], formName[form], k, n, got ? "passes" : "fails");
        if (use) { MC_CHECK(q.events.empty(), "used as a condition it reports"); }
        else if (!want) {
            MC_CHECK(q.events.size() == 1, "%zu events", q.events.size());
            auto e = q.pop();
            MC_CHECK(e.kind == fk::Event::Sequence && e.type == (s.exact ? 0 : 1), "wrong kind of expectation reported: %s", e.str().c_str());
            MC_CHECK(e.expected == s.count, "expected count %d reported as %d", s.count, e.expected);
            MC_CHECK(e.actual == n, "%d matches reported as %d", n, e.actual);
        }
        mc::step(mc::mix(mc::mix(mc::mix(mc::hashStr(w.hist), subj), form), k));
    }
    // all counts of calls x forms x k
    void spaceTable() {
        World w;
        int len = mc::choose(mc::bound(8, 9));
        for (int i = 0; i < len; i++) w.call("xyz"[mc::choose(3)]);
        int form = mc::choose(NFORM), use = mc::choose(3);
        fk::QuietAdapter q;
        int kmax = hasK(form) ? 8 : 0;
        for (int subj = 0; subj < NSUBJ; subj++) {
            // marks made by passing verifications must not leak into the restricted subject
            if (subj == 6) {
                World v;
                for (char c : w.hist) v.call(c);
                // one k per fresh mock: the verification marks what it matches
                int k = hasK(form) ? len : 0;
                judge(v, q, subj, form, k, use);
                continue;
            }
            for (int k = 0; k <= kmax; k++) judge(w, q, subj, form, k, use);
        }
    }
    void spaceRestricted() {
        World w;
        int n = mc::choose(7), form = mc::choose(NFORM), use = mc::choose(3);
        int k = hasK(form) ? mc::choose(8) : 0;
        for (int i = 0; i < n; i++) { w.call('x'); if (i % 2) w.call('y'); }
        fk::QuietAdapter q;
        judge(w, q, 6, form, k, use);
    }
    // larger numbers
    void spaceScale() {
        static const int ns[] = {9, 10, 11, 15, 16, 17, 31, 32, 33, 49, 50, 51, 63, 64, 65, 99, 100, 127, 128, 129, 200, 254, 255, 256, 257, 300};
        World w;
        int n = ns[mc::choose(26)], form = EXACT + mc::choose(6), use = mc::choose(2), subj = mc::choose(4);
        int dk = mc::choose(9);
        for (int i = 0; i < n; i++) w.call('x');
        int m = w.matches(subj);
        int k = dk == 0 ? m : dk == 1 ? m - 1 : dk == 2 ? m + 1 : dk == 3 ? 0 : dk == 4 ? 1 : dk == 5 ? m / 2 : dk == 6 ? m * 2 : dk == 7 ? INT_MAX : 256 + m;
        fk::QuietAdapter q;
        judge(w, q, subj, form, k, use);
    }
    void spaceLarge() {
        static const int ns[] = {511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4096, 32768, 65537};
        World w;
        int i = mc::choose(11), n = ns[i], form = EXACT + mc::choose(6), subj = 2 * mc::choose(2), use = (i + form) % 2;
        for (int i = 0; i < n; i++) w.call('x');
        int m = w.matches(subj);
        fk::QuietAdapter q;
        for (int k : {m, m - 1, m + 1, 1}) judge(w, q, subj, form, k, use);
    }
    // negative counts
    void spaceNegative() {
        static const int ks[] = {-1, -2, -3, -100, -256, INT_MIN + 1, INT_MIN};
        World w;
        int n = mc::choose(4), form = EXACT + mc::choose(6), use = mc::choose(3), k = ks[mc::choose(7)], subj = mc::choose(NSUBJ), custom = mc::choose(2);
        for (int i = 0; i < n; i++) { w.call('x'); w.call('y'); w.call('z'); }
        fk::Recorder listener;
        Fakeit.addEventHandler(listener);
        struct Clear { ~Clear() { Fakeit.clearEventHandlers(); } } clear;
        std::unique_ptr<fk::QuietAdapter> q(custom ? new fk::QuietAdapter : nullptr);
        bool rejected = false;
        try { w.verify(subj, form, k, use); } catch (std::invalid_argument &) { rejected = true; }
        MC_LOG("%s %s k=%d: rejected %d", subjName[subj], formName[form], k, rejected);
        MC_CHECK(rejected, "%s with %d is not rejected", formName[form], k);
        MC_CHECK(listener.events.empty(), "a rejected count is reported as a verification failure");
        // nothing was verified
        if (!q) q.reset(new fk::QuietAdapter);
        Mock<I> &a = w.a, &b = w.b;
        VerifyNoOtherInvocations(a, b);
        size_t left = q->events.empty() ? 0 : q->events.back().unverified.size();
        MC_CHECK(left == w.hist.size(), "%zu of %zu calls count as verified after a rejected count", w.hist.size() - left, w.hist.size());
        mc::outcome("rejected");
        mc::step(mc::mix(mc::mix(mc::mix(n, form), k), subj));
    }
    // the default adapter: passes silently or throws
    void spaceDefaultAdapter() {
        World w;
        int n = mc::choose(4), form = mc::choose(NFORM), k = hasK(form) ? mc::choose(5) : 0, subj = mc::choose(2);
        for (int i = 0; i < n; i++) w.call('x');
        bool threw = false;
        std::string what;
        try { w.verify(subj, form, k, 0); } catch (SequenceVerificationException &e) { threw = true; what = e.what(); }
        Spec s = spec(form, k);
        bool want = holds(s, w.matches(subj));
        MC_CHECK(threw == !want, "%s k=%d with %d matches: threw %d", formName[form], k, n, threw);
        if (threw) {
            std::string exp = std::string("Expected matches: ") + (s.exact ? "exactly " : "at least ") + std::to_string(s.count) + "\nActual matches  : " + std::to_string(w.matches(subj)) + "\n";
            MC_CHECK(what.find(exp) != std::string::npos, "the message does not state the counts: %s", what.c_str());
        }
        mc::outcome(want ? "passes" : "fails");
        mc::step(mc::mix(mc::mix(n, form), k * 2 + subj));
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 4;
        o.mandatory = {"passes", "fails"};
        o.bound = "all histories up to 7 (8) over 3 calls x 9 subjects x 13 count forms x k 0..8 x 3 uses";
        mc::add("table", o, spaceTable);
        o.bound = "unverified-restricted subject, fresh mock per verification, n 0..6 x k 0..7";
        mc::add("restricted", o, spaceRestricted);
        o.bound = "n up to 300 with k at and around n, 0, 1, n/2, 2n, INT_MAX, n+256";
        mc::add("scale", o, spaceScale);
        o.bound = "11 n around powers of two up to 65537, k at and around n, 6 forms, 2 subjects";
        mc::add("large", o, spaceLarge);
        o.bound = "default adapter, n 0..3 x all forms x k 0..4";
        mc::add("default-adapter", o, spaceDefaultAdapter);
        o.mandatory = {"rejected"};
        o.bound = "7 negative counts x 6 forms x 9 subjects x 3 uses";
        mc::add("negative", o, spaceNegative);
    });
}
