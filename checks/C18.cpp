// C18: failure messages describe the pattern, the counts and the calls truthfully.
#include "fk.hpp"
#include "heap.hpp"
#include <climits>
#include <cfloat>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <map>
using namespace fakeit;
using fk::L;

#ifndef PART
#define PART 0
#endif

namespace {
    // the message a user of the default reporting sees, without the place in front of it
    template<class F>
    std::string message(F &&f) {
        std::string s;
        try { f(); return "no failure"; }
        catch (UnexpectedMethodCallException &e) { return e.what(); }
        catch (VerificationException &e) { s = e.what(); }
        size_t at = s.find("Verification error");
        return at == std::string::npos ? s : s.substr(at);
    }
    void same(const std::string &got, const std::string &want) {
        if (got == want) return;
        size_t i = 0;
        while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
        mc::fail(mc::fmt("the message differs at %zu: '%s' instead of '%s'; whole message: %s", i, got.substr(i, 60).c_str(), want.substr(i, 60).c_str(), got.c_str()));
    }
    std::string list(const std::vector<std::string> &calls) {
        std::string r;
        for (size_t i = 0; i < calls.size() && i < 50; i++) r += (i ? "\n  " : "  ") + calls[i];
        return r + (calls.size() > 50 ? "\n  ..." : "");
    }
    std::string sequenceMessage(const std::string &pattern, const std::string &expected, int actual, const std::vector<std::string> &calls) {
        return "Verification error\nExpected pattern: " + pattern + "\nExpected matches: " + expected + "\nActual matches  : " + std::to_string(actual)
               + "\nActual sequence : total of " + std::to_string(calls.size()) + " actual invocations" + (calls.empty() ? "." : ":\n") + list(calls);
    }
    std::string noMoreMessage(const std::vector<std::string> &calls) {
        return "Verification error\nExpected no more invocations!! but the following unverified invocations were found:\n" + list(calls);
    }

    // ================= patterns, counts and small histories =================
    struct I {
        virtual int f(int) = 0;
        virtual int g(int, const std::string &) = 0;
        virtual int none() = 0;
        virtual ~I() {}
    };
    const std::string sa = "a", sb = "some longer text that needs the heap";
    struct Holder { Mock<I> inner; };
    // calls: 0 m.f(1)  1 m.f(2)  2 m.g(1, a)  3 m.none()  4 delete  5 h.inner.f(3)  6 m.g(2, some longer…)
    const std::vector<std::string> callText = {"m.f(1)", "m.f(2)", "m.g(1, a)", "m.none()", "m.destructor()", "h.inner.f(3)", "m.g(2, " + sb + ")"};
    bool isInner(int c) { return c == 5; }
    struct Leaf { const char *text; std::vector<int> matches; bool inner; };
    const std::vector<Leaf> leaves = {
        {"m.f( Any arguments )", {0, 1}, false},
        {"m.f(1)", {0}, false},
        {"m.g(>1, Any)", {6}, false},
        {"m.none( Any arguments )", {3}, false},
        {"m.f( user defined matcher )", {1}, false},
        {"m.destructor( Any arguments )", {4}, false},
        {"h.inner.f( Any arguments )", {5}, true},
        {"h.inner.f(<=3)", {5}, true},
        {"m.g(!=1, a)", {}, false},
        {"m.f(>=2)", {1}, false},
        {"m.f(<2)", {0}, false},
        {"m.g(Any, " "some longer text that needs the heap" ")", {6}, false},
    };
    struct Elem { const Sequence *seq; std::vector<int> leaf; std::string text; bool compound; };
    struct World {
        Mock<I> m;
        Holder h;
        std::vector<int> hist;
        std::vector<std::function<void()>> garbage;
        World() {
            Fake(Method(m, f), Method(m, g), Method(m, none));
            Fake(Dtor(m));
            Fake(Method(h.inner, f));
        }
        ~World() { for (size_t i = garbage.size(); i-- > 0;) garbage[i](); }
        void call(int c) {
            hist.push_back(c);
            switch (c) {
                case 0: L(m.get()).f(1); break;
                case 1: L(m.get()).f(2); break;
                case 2: L(m.get()).g(1, sa); break;
                case 3: L(m.get()).none(); break;
                case 4: delete &L(m.get()); break;
                case 5: L(h.inner.get()).f(3); break;
                case 6: L(m.get()).g(2, sb); break;
            }
        }
        template<class T> const Sequence &own(T *t) { garbage.push_back([t] { delete t; }); return *t; }
        const Sequence &leafSeq(int k) {
            switch (k) {
                case 0: return own(new auto(Method(m, f)));
                case 1: return own(new auto(Method(m, f).Using(1)));
                case 2: return own(new auto(Method(m, g).Using(Gt(1), _)));
                case 3: return own(new auto(Method(m, none)));
                case 4: return own(new auto(Method(m, f).Matching([](int x) { return x == 2; })));
                case 5: return own(new auto(Dtor(m)));
                case 6: return own(new auto(Method(h.inner, f)));
                case 7: return own(new auto(Method(h.inner, f).Using(Le(3))));
                case 8: return own(new auto(Method(m, g).Using(Ne(1), sa)));
                case 9: return own(new auto(Method(m, f).Using(Ge(2))));
                case 10: return own(new auto(Method(m, f).Using(Lt(2))));
                default: return own(new auto(Method(m, g).Using(Any<int>(), Eq(sb))));
            }
        }
        Elem leaf(int k) { return {&leafSeq(k), {k}, leaves[k].text, false}; }
        Elem cat(const Elem &l, const Elem &r) {
            Elem e{&own(new auto(*l.seq + *r.seq)), l.leaf, l.text + " + " + r.text, true};
            e.leaf.insert(e.leaf.end(), r.leaf.begin(), r.leaf.end());
            return e;
        }
        Elem rep(const Elem &x, int n, bool left = false) {
            Elem e{left ? &own(new auto(n * *x.seq)) : &own(new auto(*x.seq * n)), {}, (x.compound ? "(" + x.text + ")" : x.text) + " * " + std::to_string(n), true};
            for (int i = 0; i < n; i++) e.leaf.insert(e.leaf.end(), x.leaf.begin(), x.leaf.end());
            return e;
        }
        std::vector<int> scoped(bool withM, bool withInner) const {
            std::vector<int> r;
            for (int c : hist) if (isInner(c) ? withInner : withM) r.push_back(c);
            return r;
        }
    };
    bool at(const std::vector<int> &h, size_t pos, const Elem &e) {
        if (pos + e.leaf.size() > h.size()) return false;
        for (size_t i = 0; i < e.leaf.size(); i++) {
            bool ok = false;
            for (int c : leaves[e.leaf[i]].matches) ok |= c == h[pos + i];
            if (!ok) return false;
        }
        return true;
    }
    int count(const std::vector<int> &h, const std::vector<Elem> &p) {
        int n = 0;
        size_t pos = 0;
        for (;;) {
            for (auto &e : p) {
                while (pos < h.size() && !at(h, pos, e)) pos++;
                if (pos >= h.size()) return n;
                pos += e.leaf.size();
            }
            n++;
        }
    }
    enum { EXACTLY, ATLEAST, NEVER, ONCE, TWICE, PLAIN, ATLEASTONCE, NTERM };
    template<class V>
    void terminate(V &&v, int term, int n) {
        switch (term) {
            case EXACTLY: v.Exactly(n); break;
            case ATLEAST: v.AtLeast(n); break;
            case NEVER: v.Never(); break;
            case ONCE: v.Once(); break;
            case TWICE: v.Twice(); break;
            case ATLEASTONCE: v.AtLeastOnce(); break;
        }
    }
    std::string expectedText(int term, int n) {
        switch (term) {
            case EXACTLY: return "exactly " + std::to_string(n);
            case ATLEAST: return "at least " + std::to_string(n);
            case NEVER: return "exactly 0";
            case ONCE: return "exactly 1";
            case TWICE: return "exactly 2";
            default: return "at least 1";
        }
    }
    bool fails(int term, int n, int actual) {
        switch (term) {
            case EXACTLY: return actual != n;
            case ATLEAST: return actual < n;
            case NEVER: return actual != 0;
            case ONCE: return actual != 1;
            case TWICE: return actual != 2;
            default: return actual < 1;
        }
    }
    void judge(World &w, const std::vector<Elem> &p, int scope, int term, int n) {
        bool withM = scope == 1, withInner = scope == 2;
        if (scope == 3) withM = withInner = true;
        if (scope == 0) for (auto &e : p) for (int l : e.leaf) (leaves[l].inner ? withInner : withM) = true;
        std::vector<int> h = w.scoped(withM, withInner);
        int actual = count(h, p);
        std::string pattern;
        for (auto &e : p) pattern += (pattern.empty() ? "" : " ... ") + e.text;
        std::vector<std::string> calls;
        for (int c : h) calls.push_back(callText[c]);
        std::string want = fails(term, n, actual) ? sequenceMessage(pattern, expectedText(term, n), actual, calls) : "no failure";
        auto &m = w.m;
        auto &inner = w.h.inner;
        std::string got = message([&] {
#define FORM(U) \
            if (p.size() == 1) terminate(U Verify(*p[0].seq), term, n); \
            else if (p.size() == 2) terminate(U Verify(*p[0].seq, *p[1].seq), term, n); \
            else if (p.size() == 3) terminate(U Verify(*p[0].seq, *p[1].seq, *p[2].seq), term, n); \
            else terminate(U Verify(*p[0].seq, *p[1].seq, *p[2].seq, *p[3].seq), term, n);
            if (scope == 0) { FORM() }
            if (scope == 1) { FORM(Using(m).) }
            if (scope == 2) { FORM(Using(inner).) }
            if (scope == 3) { FORM(Using(inner, m).) }
        });
        same(got, want);
        mc::outcome(got == "no failure" ? "passes" : "fails");
        mc::step(mc::mix(mc::hashStr(got), mc::hashStr(pattern)));
    }
    void someHistory(World &w, int maxLen, const std::vector<int> &calls) {
        int len = mc::choose(maxLen + 1);
        for (int i = 0; i < len; i++) w.call(calls[mc::choose((int) calls.size())]);
    }
    // every leaf, pair of leaves, repetition; every terminator
    void spacePatterns() {
        World w;
        someHistory(w, mc::bound(3, 4), {0, 1, 2, 3, 4, 5, 6});
        for (size_t k = 0; k < leaves.size(); k++) {
            std::vector<Elem> p{w.leaf((int) k)};
            for (int term = 0; term < NTERM; term++) for (int n = 0; n < 4; n++) if (term <= ATLEAST || n == 0) for (int s = 0; s < 4; s++) judge(w, p, s, term, n);
        }
        for (size_t k = 0; k < leaves.size(); k++) for (size_t l = 0; l < leaves.size(); l++) {
            Elem a = w.leaf((int) k), b = w.leaf((int) l);
            std::vector<std::vector<Elem>> ps = {{w.cat(a, b)}, {a, b}, {w.rep(w.cat(a, b), 2)}, {w.cat(w.rep(a, 2), b)}, {w.cat(a, w.rep(b, 3, true))}, {w.rep(a, 10), b}};
            for (auto &p : ps) { judge(w, p, 3, EXACTLY, 77); judge(w, p, 0, PLAIN, 0); }
        }
    }
    Elem tree(World &w, int depth) {
        int k = mc::choose(depth > 1 ? 4 : 2);
        if (k == 0) return w.leaf(0);
        if (k == 1) return w.leaf(6);
        if (k == 2) { Elem l = tree(w, depth - 1); Elem r = tree(w, depth - 1); return w.cat(l, r); }
        return w.rep(tree(w, depth - 1), 2, depth % 2);
    }
    void spaceTrees() {
        World w;
        w.call(0);
        w.call(5);
        w.call(1);
        Elem e = tree(w, mc::bound(4, 5));
        judge(w, {e}, 3, EXACTLY, 9);
        judge(w, {e, w.leaf(3), e}, 0, ATLEAST, 5);
        judge(w, {w.leaf(1), e, w.leaf(0), w.rep(e, 2)}, 1, TWICE, 0);
    }

    // ================= long lists =================
    void spaceLengths() {
        World w;
        int n = mc::choose(mc::bound(131, 261)), kind = mc::choose(3);
        for (int i = 0; i < n; i++) w.call(kind == 0 ? 0 : kind == 1 ? (i % 2 ? 5 : 1) : i % 7);
        std::vector<std::string> all, ofM, unverified;
        for (int c : w.hist) {
            all.push_back(callText[c]);
            if (!isInner(c)) { ofM.push_back(callText[c]); if (c != 1) unverified.push_back(callText[c]); }
        }
        auto &m = w.m;
        auto &h = w.h;
        same(message([&] { Using(m, h.inner).Verify(Method(m, f).Using(99)).Exactly(1000); }), sequenceMessage("m.f(99)", "exactly 1000", 0, all));
        same(message([&] { Verify(Method(m, f).Using(99)); }), sequenceMessage("m.f(99)", "at least 1", 0, ofM));
        same(message([&] { VerifyNoOtherInvocations(m); }), ofM.empty() ? "no failure" : noMoreMessage(ofM));
        same(message([&] { VerifyNoOtherInvocations(m, h.inner); }), all.empty() ? "no failure" : noMoreMessage(all));
        std::vector<std::string> ofF;
        for (int c : w.hist) if (c < 2) ofF.push_back(callText[c]);
        same(message([&] { VerifyNoOtherInvocations(Method(m, f)); }), ofF.empty() ? "no failure" : noMoreMessage(ofF));
        if (ofF.size() < 50) mc::outcome("complete list");
        if (ofF.size() == 50) mc::outcome("exactly fifty");
        if (all.size() > 50) mc::outcome("cut list");
        bool seen = false;
        for (int c : w.hist) seen |= c == 1;
        if (seen) Verify(Method(m, f).Using(2));
        same(message([&] { VerifyNoOtherInvocations(m); }), unverified.empty() ? "no failure" : noMoreMessage(unverified));
        same(message([&] { Using(Unverified(m)).Verify(Method(m, f).Using(99)); }), sequenceMessage("m.f(99)", "at least 1", 0, unverified));
        mc::step(n * 10 + kind);
    }
    // which calls a no-other-invocations message lists
    void spaceUnverified() {
        World w;
        someHistory(w, mc::bound(4, 5), {0, 1, 2, 4, 5});
        auto &m = w.m;
        auto &h = w.h;
        unsigned marked = mc::choose(16), mask = 0;
        std::map<int, int> n;
        for (int c : w.hist) n[c]++;
        if ((marked & 1) && n[0]) { Verify(Method(m, f).Using(1)); mask |= 1 << 0; }
        if ((marked & 2) && n[2]) { Verify(Method(m, g)); mask |= 1 << 2; }
        if ((marked & 4) && n[4]) { Verify(Dtor(m)); mask |= 1 << 4; }
        if ((marked & 8) && n[5]) { Verify(Method(h.inner, f)).AtLeastOnce(); mask |= 1 << 5; }
        std::vector<std::string> ofM, all, both, ofF;
        for (int c : w.hist) {
            if (!isInner(c)) all.push_back(callText[c]);
            if (mask >> c & 1) continue;
            both.push_back(callText[c]);
            if (!isInner(c)) ofM.push_back(callText[c]);
            if (c < 2) ofF.push_back(callText[c]);
        }
        same(message([&] { VerifyNoOtherInvocations(m); }), ofM.empty() ? "no failure" : noMoreMessage(ofM));
        same(message([&] { VerifyNoOtherInvocations(h.inner, m); }), both.empty() ? "no failure" : noMoreMessage(both));
        same(message([&] { VerifyNoOtherInvocations(Method(m, f)); }), ofF.empty() ? "no failure" : noMoreMessage(ofF));
        mc::outcome(both.empty() ? "passes" : "fails");
        mc::step(mc::mix(mc::hashStr(list(both)), marked));
    }

    // ================= values =================
    enum Plain { PA, PB = 300 };
    enum class Scoped : char { A = 'A', B = 'B' };
    enum class Shown { A, B };
    std::ostream &operator<<(std::ostream &o, Shown s) { return o << (s == Shown::A ? "Shown::A" : "Shown::B"); }
    struct NoStream { int v; bool operator==(const NoStream &o) const { return v == o.v; } };
    struct Stream { int v; bool operator==(const Stream &o) const { return v == o.v; } };
    std::ostream &operator<<(std::ostream &o, const Stream &s) { return o << std::hex << std::showbase << "S" << s.v; }
    struct Derived : Stream { Derived(int v) : Stream{v} {} };
    struct MoveOnly { std::unique_ptr<int> p; MoveOnly(int v) : p(new int(v)) {} };
    struct MoveOnlyShown { std::unique_ptr<int> p; MoveOnlyShown(int v) : p(new int(v)) {} };
    std::ostream &operator<<(std::ostream &o, const MoveOnlyShown &s) { return o << "mo" << *s.p; }
    struct Convertible { int v; operator int() const { return v; } };

    template<class T> std::string streamed(const T &t) { std::ostringstream o; o << t; return o.str(); }
    template<class T> struct Shows { static std::string of(const T &t) { return streamed(t); } };
    template<> struct Shows<bool> { static std::string of(bool b) { return b ? "true" : "false"; } };
    template<> struct Shows<char> { static std::string of(char c) { return std::string("'") + c + "'"; } };
    template<> struct Shows<const char *> { static std::string of(const char *s) { return s ? std::string("\"") + s + "\"" : "[nullptr]"; } };
    template<> struct Shows<char *> { static std::string of(char *s) { return Shows<const char *>::of(s); } };
    template<> struct Shows<Scoped> { static std::string of(Scoped) { return "?"; } };
    template<> struct Shows<NoStream> { static std::string of(const NoStream &) { return "?"; } };
    template<> struct Shows<MoveOnly> { static std::string of(const MoveOnly &) { return "?"; } };
    template<> struct Shows<std::vector<int>> { static std::string of(const std::vector<int> &) { return "?"; } };
    template<class A, class B> struct Shows<std::pair<A, B>> { static std::string of(const std::pair<A, B> &) { return "?"; } };

    // one argument of type T in every way it can be passed
    template<class T> struct One {
        virtual int byValue(T) = 0;
        virtual int byConstRef(const T &) = 0;
        virtual int byRef(T &) = 0;
        virtual int between(int, T, int) = 0;
        virtual int constant(T) const = 0;
        virtual ~One() {}
    };
    template<class T> void oneValue(T v, bool conditions) {
        Mock<One<T>> m;
        When(Method(m, byValue).Matching([](const T &) { return true; })).AlwaysReturn(1);
        When(Method(m, byConstRef).Matching([](const T &) { return true; })).AlwaysReturn(1);
        When(Method(m, byRef).Matching([](T &) { return true; })).AlwaysReturn(1);
        When(Method(m, between).Matching([](int x, const T &, int) { return x == 255; })).AlwaysReturn(1);
        When(Method(m, constant).Matching([](const T &) { return true; })).AlwaysReturn(1);
        One<T> &o = L(m.get());
        o.byValue(v);
        o.byConstRef(v);
        o.byRef(v);
        o.between(255, v, 254);
        o.constant(v);
        std::string s = Shows<T>::of(v);
        std::vector<std::string> calls = {"m.byValue(" + s + ")", "m.byConstRef(" + s + ")", "m.byRef(" + s + ")", "m.between(255, " + s + ", 254)", "m.constant(" + s + ")"};
        MC_LOG("value %s", s.c_str());
        same(message([&] { VerifyNoOtherInvocations(m); }), noMoreMessage(calls));
        same(message([&] { o.between(1, v, 10); }), "Unexpected method invocation: m.between(1, " + s + ", 10)\n  Could not find any recorded behavior to support this method call.");
        (void) conditions;
        mc::outcome(s == "?" ? "unprintable" : "printable");
        mc::step(mc::hashStr(s));
    }
    // the same values inside conditions
    template<class T> void oneCondition(const T &v) {
        Mock<One<T>> m;
        When(Method(m, byValue).Matching([](const T &) { return true; })).AlwaysReturn(1);
        When(Method(m, between).Matching([](int, const T &, int) { return true; })).AlwaysReturn(1);
        std::string s = Shows<T>::of(v);
        MC_LOG("condition %s", s.c_str());
        same(message([&] { Verify(Method(m, byValue).Using(v)).Exactly(3); }), sequenceMessage("m.byValue(" + s + ")", "exactly 3", 0, {}));
        same(message([&] { Verify(Method(m, between).Using(Gt(17), Eq(v), _)).Exactly(3); }), sequenceMessage("m.between(>17, " + s + ", Any)", "exactly 3", 0, {}));
        mc::step(mc::hashStr(s) + 1);
    }
    template<class T> void ordered(const T &v) {
        Mock<One<T>> m;
        When(Method(m, byValue).Matching([](const T &) { return true; })).AlwaysReturn(1);
        std::string s = Shows<T>::of(v);
        auto show = [&](const char *op) { return sequenceMessage("m.byValue(" + std::string(op) + s + ")", "at least 2", 0, {}); };
        same(message([&] { Verify(Method(m, byValue).Using(Gt(v))).AtLeast(2); }), show(">"));
        same(message([&] { Verify(Method(m, byValue).Using(Ge(v))).AtLeast(2); }), show(">="));
        same(message([&] { Verify(Method(m, byValue).Using(Lt(v))).AtLeast(2); }), show("<"));
        same(message([&] { Verify(Method(m, byValue).Using(Le(v))).AtLeast(2); }), show("<="));
        same(message([&] { Verify(Method(m, byValue).Using(Ne(v))).AtLeast(2); }), show("!="));
        same(message([&] { Verify(Method(m, byValue).Using(Any())).AtLeast(2); }), sequenceMessage("m.byValue(Any)", "at least 2", 0, {}));
    }
    template<class T> void approx(const T &v, const T &margin) {
        Mock<One<T>> m;
        Fake(Method(m, byValue));
        same(message([&] { Verify(Method(m, byValue).Using(ApproxEq(v, margin))).Exactly(2); }), sequenceMessage("m.byValue(" + Shows<T>::of(v) + "+/-" + Shows<T>::of(margin) + ")", "exactly 2", 0, {}));
    }
    template<class T> void number() {
        typedef std::numeric_limits<T> N;
        static const std::vector<T> vs = {T(0), T(1), T(9), T(10), T(65), T(100), T(127), N::max(), N::min(), N::lowest(), T(N::max() - T(1)), T(-1), T(N::max() / T(3))};
        T v = vs[mc::choose((int) vs.size())];
        oneValue<T>(v, true);
        oneCondition<T>(v);
        ordered<T>(v);
    }
    template<class T> void real() {
        typedef std::numeric_limits<T> N;
        static const std::vector<T> vs = {T(0), T(-0.0), T(1), T(0.1), T(1) / T(3), T(1e10), T(1e-10), T(123456), T(1234567), T(0.0001), T(0.00001), N::max(), N::min(), N::lowest(), N::infinity(), -N::infinity(), N::epsilon(), T(2.5)};
        T v = vs[mc::choose((int) vs.size())];
        oneValue<T>(v, true);
        oneCondition<T>(v);
        ordered<T>(v);
        approx<T>(v, T(0.5));
        approx<T>(T(1), T(1) / T(3));
    }
    void spaceChars() {
        char c = (char) (1 + mc::choose(255));  // a message ends at a null character
        oneValue<char>(c, true);
        oneCondition<char>(c);
        ordered<char>(c);
        oneValue<signed char>((signed char) c, true);
        oneValue<unsigned char>((unsigned char) c, true);
    }
    void spaceStrings() {
        static const char *texts[] = {"", "a", "two words", "\"quoted\"", "'", "line\nbreak", "\t", "(a, b)", "%d %s", "\xc3\xa4", "a long text that does not fit into any small buffer of the library", ", ", "...", "Any", "[nullptr]", "?"};
        const char *t = texts[mc::choose(16)];
        std::string s = t;
        oneValue<std::string>(s, true);
        oneCondition<std::string>(s);
        ordered<std::string>(s);
        oneValue<const char *>(t, false);
        std::vector<char> buf(t, t + strlen(t) + 1);
        oneValue<char *>(buf.data(), false);
    }
    // long values and long names
    const int lengths[] = {20, 31, 32, 63, 64, 65, 99, 100, 127, 128, 129, 199, 200, 255, 256, 257, 499, 500, 511, 512, 513, 999, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 10000, 65535, 65536};
    void spaceLongValues() {
        std::string s;
        for (int n = lengths[mc::choose(34)]; n > 0; n--) s += (char) ('!' + n % 90);
        oneValue<std::string>(s, true);
        oneCondition<std::string>(s);
        ordered<std::string>(s);
        oneValue<const char *>(s.c_str(), false);
    }
    struct Named { virtual int aMethodNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49(int) = 0; virtual int f(int) = 0; virtual ~Named() {} };
    void spaceLongNames() {
        Mock<Named> aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49, m;
        int which = mc::choose(4), x = mc::choose(3) * 1000;
        const std::string ln = "aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49", lm = "aMethodNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49", arg = "(" + std::to_string(x) + ")";
        const char *unmatched = "\n  Could not find any recorded behavior to support this method call.";
        auto all = [&](Mock<Named> &mock, const std::string &name, auto &&method, auto &&call) {
            std::string c = name + arg;
            call(x);
            same(message([&] { VerifyNoOtherInvocations(mock); }), noMoreMessage({c}));
            same(message([&] { Verify(method()).Twice(); }), sequenceMessage(name + "( Any arguments )", "exactly 2", 1, {c}));
            same(message([&] { Verify(method().Using(x) * 2, method().Using(Gt(x)) + method()).Twice(); }), sequenceMessage(name + arg + " * 2 ... " + name + "(>" + std::to_string(x) + ") + " + name + "( Any arguments )", "exactly 2", 0, {c}));
            same(message([&] { call(7); }), "Unexpected method invocation: " + name + "(7)" + unmatched);
        };
        switch (which) {
            case 0: When(Method(m, f).Using(Ne(7))).AlwaysReturn(1); all(m, "m.f", [&] { return Method(m, f); }, [&](int v) { L(m.get()).f(v); }); break;
            case 1: When(Method(m, aMethodNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49).Using(Ne(7))).AlwaysReturn(1); all(m, "m." + lm, [&] { return Method(m, aMethodNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49); }, [&](int v) { L(m.get()).aMethodNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49(v); }); break;
            case 2: When(Method(aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49, f).Using(Ne(7))).AlwaysReturn(1); all(aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49, ln + ".f", [&] { return Method(aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49, f); }, [&](int v) { L(aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49.get()).f(v); }); break;
            default: When(Method(aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49, aMethodNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49).Using(Ne(7))).AlwaysReturn(1); all(aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49, ln + "." + lm, [&] { return Method(aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49, aMethodNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49); }, [&](int v) { L(aMockNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49.get()).aMethodNamed_part10_part11_part12_part13_part14_part15_part16_part17_part18_part19_part20_part21_part22_part23_part24_part25_part26_part27_part28_part29_part30_part31_part32_part33_part34_part35_part36_part37_part38_part39_part40_part41_part42_part43_part44_part45_part46_part47_part48_part49(v); });
        }
        mc::outcome("printable");
        mc::step(which * 10 + x);
    }
    struct Pointers { virtual int p(const char *) = 0; virtual int q(char *) = 0; virtual int v(const void *) = 0; virtual int i(int *) = 0; virtual int n(std::nullptr_t) = 0; virtual int s(NoStream *) = 0; virtual ~Pointers() {} };
    void spacePointers() {
        Mock<Pointers> m;
        When(Method(m, p)).AlwaysReturn(1);
        When(Method(m, q)).AlwaysReturn(1);
        When(Method(m, v)).AlwaysReturn(1);
        When(Method(m, i)).AlwaysReturn(1);
        When(Method(m, s)).AlwaysReturn(1);
        Pointers &o = L(m.get());
        static int x;
        static NoStream ns;
        bool null = mc::flag();
        int *pi = null ? nullptr : &x;
        NoStream *pn = null ? nullptr : &ns;
        const void *pv = pi;
        o.p(nullptr);
        o.q(nullptr);
        o.v(pv);
        o.i(pi);
        o.s(pn);
        same(message([&] { VerifyNoOtherInvocations(m); }), noMoreMessage({"m.p([nullptr])", "m.q([nullptr])", "m.v(" + streamed(pv) + ")", "m.i(" + streamed(pi) + ")", "m.s(" + streamed(pn) + ")"}));
        oneValue<int *>(pi, false);
        oneCondition<int *>(pi);
        mc::outcome("printable");
        mc::step(null);
    }
    void spaceOthers() {
        switch (mc::choose(11)) {
            case 0: oneValue<bool>(true, true); oneCondition<bool>(true); break;
            case 1: oneValue<bool>(false, true); oneCondition<bool>(false); break;
            case 2: oneValue<Plain>(PA, false); oneCondition<Plain>(PA); oneValue<Plain>(PB, false); break;
            case 3: oneValue<Scoped>(Scoped::A, false); oneCondition<Scoped>(Scoped::B); break;
            case 4: oneValue<Shown>(Shown::A, false); oneCondition<Shown>(Shown::B); break;
            case 5: oneValue<NoStream>(NoStream{1}, false); oneCondition<NoStream>(NoStream{1}); break;
            case 6: oneValue<Stream>(Stream{31}, false); oneCondition<Stream>(Stream{31}); break;
            case 7: oneValue<Derived>(Derived{31}, false); break;
            case 8: oneValue<std::vector<int>>({1, 2}, false); oneCondition<std::vector<int>>({1, 2}); break;
            case 9: oneValue<std::pair<int, int>>({1, 2}, false); break;
            case 10: oneValue<Convertible>(Convertible{5}, false); break;
        }
    }
    struct Movers { virtual int f(MoveOnly) = 0; virtual int g(int, MoveOnlyShown, int) = 0; virtual int r(std::string &&, int) = 0; virtual ~Movers() {} };
    void spaceMovers() {
        int n = mc::choose(3);
        Mock<Movers> m;
        Fake(Method(m, f), Method(m, g), Method(m, r));
        static std::string text;
        text = "text";
        std::vector<std::string> want;
        for (int i = 0; i <= n; i++) {
            L(m.get()).f(MoveOnly(i));
            L(m.get()).g(31, MoveOnlyShown(i), 32);
            L(m.get()).r(std::move(text), i);
            want.insert(want.end(), {"m.f(?)", "m.g(31, mo" + std::to_string(i) + ", 32)", "m.r(text, " + std::to_string(i) + ")"});
        }
        same(message([&] { VerifyNoOtherInvocations(m); }), noMoreMessage(want));
        mc::outcome("printable");
        mc::step(n);
    }
    // number of parameters, and values that leave marks on a stream
    struct Many {
        virtual int f0() = 0;
        virtual int f1(Stream) = 0;
        virtual int f2(Stream, int) = 0;
        virtual int f3(int, Stream, int) = 0;
        virtual int f4(double, Stream, double, bool) = 0;
        virtual int f5(int, char, const char *, bool, std::string) = 0;
        virtual int f8(int, int, int, int, int, int, int, int) = 0;
        virtual int f12(int, char, int, bool, int, NoStream, int, Stream, int, double, int, std::string) = 0;
        virtual ~Many() {}
    };
    void spaceMany() {
        int a = mc::choose(4), b = mc::choose(4);
        static const int vs[] = {0, 10, -1, 255};
        static const double ds[] = {0.5, 100, 1e20, -0.125};
        int x = vs[a], y = vs[b];
        double d = ds[a];
        Mock<Many> m;
        Fake(Method(m, f0), Method(m, f1), Method(m, f2), Method(m, f3), Method(m, f4), Method(m, f5), Method(m, f8), Method(m, f12));
        Many &o = L(m.get());
        o.f0();
        o.f1(Stream{y});
        o.f2(Stream{y}, x);
        o.f3(x, Stream{y}, x);
        o.f4(d, Stream{y}, d, a % 2);
        o.f5(x, 'c', "text", b % 2, "plain");
        o.f8(x, y, x, y, 1, 2, 3, y);
        o.f12(x, 'q', y, a % 2, x, NoStream{1}, y, Stream{x}, x, d, y, "last");
        std::string X = std::to_string(x), Y = std::to_string(y), D = streamed(d), SX = streamed(Stream{x}), SY = streamed(Stream{y}), A = a % 2 ? "true" : "false", B = b % 2 ? "true" : "false";
        std::vector<std::string> want = {"m.f0()", "m.f1(" + SY + ")", "m.f2(" + SY + ", " + X + ")", "m.f3(" + X + ", " + SY + ", " + X + ")", "m.f4(" + D + ", " + SY + ", " + D + ", " + A + ")",
            "m.f5(" + X + ", 'c', \"text\", " + B + ", plain)", "m.f8(" + X + ", " + Y + ", " + X + ", " + Y + ", 1, 2, 3, " + Y + ")",
            "m.f12(" + X + ", 'q', " + Y + ", " + A + ", " + X + ", ?, " + Y + ", " + SX + ", " + X + ", " + D + ", " + Y + ", last)"};
        same(message([&] { VerifyNoOtherInvocations(m); }), noMoreMessage(want));
        same(message([&] { Verify(Method(m, f3).Using(x, Stream{y}, Gt(x))).Exactly(7); }), sequenceMessage("m.f3(" + X + ", " + SY + ", >" + X + ")", "exactly 7", 0, want));
        same(message([&] { Verify(Method(m, f4).Using(Ne(d), Stream{y}, ApproxEq(d, 0.25), _)).Exactly(7); }), sequenceMessage("m.f4(!=" + D + ", " + SY + ", " + D + "+/-0.25, Any)", "exactly 7", 0, want));
        same(message([&] { Verify(Method(m, f8).Using(x, Gt(y), Ge(x), Lt(y), Le(1), Ne(2), _, Any())).Exactly(7); }), sequenceMessage("m.f8(" + X + ", >" + Y + ", >=" + X + ", <" + Y + ", <=1, !=2, Any, Any)", "exactly 7", 0, want));
        mc::outcome("printable");
        mc::step(a * 4 + b);
    }
    // ================= unexpected calls =================
    struct U { virtual int f(int, const std::string &) = 0; virtual void g() = 0; virtual int h(int) const = 0; virtual int ov(int) = 0; virtual int ov(const char *) = 0; virtual ~U() {} };
    void spaceUnexpected() {
        const char *unmatched = "\n  Could not find any recorded behavior to support this method call.", *unmocked = "\n  An unmocked method was invoked. All used virtual methods must be stubbed!";
        struct { Mock<U> in; } box;
        auto &m = box.in;
        U &u = L(m.get());
        int stub = mc::choose(5), x = mc::choose(3) - 1, before = mc::choose(3);
        bool named = mc::flag();
        auto unexpected = [](const std::string &s) { return "Unexpected method invocation: " + s; };
        std::string mm = named ? "box.in" : "m";
        if (named) {
            if (stub == 1) When(Method(box.in, f).Using(5, sa)).AlwaysReturn(1);
            if (stub == 2) When(Method(box.in, f)).Return(Quantifier<int>(before, 1));
            if (stub == 3) { When(Method(box.in, f).Matching([](int y, const std::string &) { return y == 5; })).AlwaysReturn(1); When(Method(box.in, h).Using(Gt(10))).AlwaysReturn(1); }
            if (stub == 4) When(OverloadedMethod(box.in, ov, int(const char *)).Using((const char *) nullptr)).AlwaysReturn(1);
        } else {
            if (stub == 1) When(Method(m, f).Using(5, sa)).AlwaysReturn(1);
            if (stub == 2) When(Method(m, f)).Return(Quantifier<int>(before, 1));
            if (stub == 3) { When(Method(m, f).Matching([](int y, const std::string &) { return y == 5; })).AlwaysReturn(1); When(Method(m, h).Using(Gt(10))).AlwaysReturn(1); }
            if (stub == 4) When(OverloadedMethod(m, ov, int(const char *)).Using((const char *) nullptr)).AlwaysReturn(1);
        }
        for (int i = 0; i < before; i++) if (stub == 2) u.f(7, sa);
        std::string fx = mm + ".f(" + std::to_string(x) + ", " + sb + ")";
        same(message([&] { u.f(x, sb); }), unexpected(stub >= 1 && stub <= 3 ? fx + unmatched : std::string("unknown()") + unmocked));
        same(message([&] { u.g(); }), unexpected(std::string("unknown()") + unmocked));
        same(message([&] { u.h(x); }), unexpected(stub == 3 ? mm + ".h(" + std::to_string(x) + ")" + unmatched : std::string("unknown()") + unmocked));
        same(message([&] { u.ov(x); }), unexpected(std::string("unknown()") + unmocked));
        same(message([&] { u.ov("txt"); }), unexpected(stub == 4 ? mm + ".ov(\"txt\")" + unmatched : std::string("unknown()") + unmocked));
        mc::outcome(stub ? "some stub" : "no stub");
        mc::step(stub * 100 + x * 10 + before * 2 + named);
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
#if PART == 0
        o.shardDepth = 2;
        o.mandatory = {"fails", "passes"};
        o.bound = "all histories up to 3 (4) over 7 calls of two mocks x 12 leaves x every terminator x 4 scopes, and 6 shapes over every pair of leaves";
        mc::add("patterns", o, spacePatterns);
        o.bound = "all histories up to 4 (5) over 5 calls x 16 sets of earlier verifications";
        mc::add("unverified", o, spaceUnverified);
        o.shardDepth = 4;
        o.mandatory = {"fails"};
        o.bound = "every pattern tree of + and *2 over two leaves up to depth 4 (5), alone and in lists of 3 and 4";
        mc::add("trees", o, spaceTrees);
        o.shardDepth = 1;
        o.mandatory = {"complete list", "exactly fifty", "cut list"};
        o.bound = "every history length from 0 to 130 (260), 3 kinds of histories, 5 kinds of lists";
        mc::add("lengths", o, spaceLengths);
#endif
        o.shardDepth = 1;
        o.mandatory = {"printable"};
#if PART == 1
        o.bound = "every char but the null character, and as signed and unsigned char";
        mc::add("characters", o, spaceChars);
        o.bound = "16 texts as string and C string";
        mc::add("strings", o, spaceStrings);
        o.bound = "texts of 34 lengths up to 65536";
        mc::add("long values", o, spaceLongValues);
        o.bound = "names of mocks and methods of 1 and 290 characters";
        mc::add("long names", o, spaceLongNames);
        o.bound = "null and other pointers";
        mc::add("pointers", o, spacePointers);
#endif
#if PART == 2
        o.bound = "13 values including the limits, passed in 5 ways and in 8 conditions";
        mc::add("short", o, number<short>);
        mc::add("int", o, number<int>);
        mc::add("unsigned", o, number<unsigned>);
        mc::add("long", o, number<long>);
        mc::add("unsigned long", o, number<unsigned long>);
        mc::add("long long", o, number<long long>);
        mc::add("unsigned short", o, number<unsigned short>);
#endif
#if PART == 3
        o.bound = "18 values including the limits, passed in 5 ways and in 10 conditions";
        mc::add("float", o, real<float>);
        mc::add("double", o, real<double>);
        mc::add("long double", o, real<long double>);
#endif
#if PART == 1
        o.bound = "up to 12 parameters, 16 combinations of values";
        mc::add("many parameters", o, spaceMany);
        o.bound = "move-only and rvalue parameters";
        mc::add("moved", o, spaceMovers);
        o.mandatory = {"printable", "unprintable"};
        o.bound = "booleans, enumerations and classes with and without stream operator";
        mc::add("others", o, spaceOthers);
        o.mandatory = {"some stub", "no stub"};
        o.bound = "5 kinds of stubs, 3 arguments, up to 2 calls before, 2 ways to name the mock";
        mc::add("unexpected", o, spaceUnexpected);
#endif
    });
}
