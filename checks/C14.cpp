// C14: Reset makes a mock as good as new.
// After any history and Reset, every continuation is observed exactly as on a mock created for it.
#include "fk.hpp"
#include "heap.hpp"
#include <map>
using namespace fakeit;
using fk::L;

namespace {
    std::vector<int> destroyed;
    struct V {
        int v;
        std::string text;
        explicit V(int v_) : v(v_), text(40, 'v') {}
        ~V() { destroyed.push_back(v); v = 77; }
    };
    struct X {
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual ~X() {}
        virtual std::string s(const std::string &) = 0;
        virtual void nothing() = 0;
        int d;
        int e[4];
        V v;
        X() : v(0) {}
    };
    struct Y {
        int runs = 0;
        virtual int f(int x) { runs++; return 100 + x; }
        virtual int g(int x) { runs++; return 200 + x; }
        virtual ~Y() {}
        virtual std::string s(const std::string &x) { runs++; return "original " + x; }
        virtual void nothing() { runs++; }
    };
    struct Z { virtual int f(int) = 0; virtual ~Z() {} };

    enum { F_ALWAYS, F1_ONCE, G_FAKE, S_STUB, DTOR_FAKE, DTOR_COUNT, MEMBER_D, MEMBER_V, WRITE, CALL_F1, CALL_F2, CALL_G, CALL_S, DELETE, VERIFY_F, VERIFY_ALL, CLEAR, RESET, F_SCRIPT, NAMED, SPY_OR_NOTHING, NOPS };
    const char *opName[] = {"stub f", "stub f(1) once", "fake g", "stub s", "fake destructor", "destructor action", "stub d", "stub v", "write data", "f(1)", "f(2)", "g(1)", "s", "delete", "Verify(f)", "VerifyNoOther", "clear", "reset", "script f", "Verify(nothing).Never", "stub nothing"};
    const std::vector<int> ALL = {F_ALWAYS, F1_ONCE, G_FAKE, S_STUB, DTOR_FAKE, DTOR_COUNT, MEMBER_D, MEMBER_V, WRITE, CALL_F1, CALL_F2, CALL_G, CALL_S, DELETE, VERIFY_F, VERIFY_ALL, CLEAR, RESET, F_SCRIPT, NAMED, SPY_OR_NOTHING};

    template<class T>
    struct Subject {
        static constexpr bool pure = std::is_same<T, X>::value;
        fk::QuietAdapter q;
        Mock<Z> other;
        std::unique_ptr<T> real;
        std::unique_ptr<Mock<T>> pm;
        std::string obs;
        bool sStubbed = false;
        int dtors = 0, made = 0, deadBefore = 0;

        Subject() {
            destroyed.clear();
            Fake(Method(other, f));
            L(other.get()).f(1);
            create(std::integral_constant<bool, pure>());
        }
        void create(std::true_type) { pm.reset(new Mock<T>()); }
        void create(std::false_type) { real.reset(new Y()); pm.reset(new Mock<T>(*real)); }
        void note(const std::string &s) { obs += s + "\n"; }
        void events() {
            for (auto &e : q.events) note("  event " + e.str());
            q.events.clear();
        }
        template<class F> void guarded(F &&f) {
            try { fk::there(f); } catch (UnexpectedMethodCallException &) { note("  unexpected"); }
            events();
        }
        void members(X &x) {
            note("  d=" + std::to_string(x.d) + " e=" + std::to_string(x.e[0]) + "," + std::to_string(x.e[3]) + " v=" + std::to_string(x.v.v));
        }
        void members(Y &) {}
        void memberD(Mock<X> &m) { m.Stub(&X::d, 5); }
        void memberD(Mock<Y> &) { throw mc::Prune{}; }
        void memberV(Mock<X> &m) { m.Stub(&X::v, 9); made++; }
        void memberV(Mock<Y> &) { throw mc::Prune{}; }
        void write(X &x) { x.d = 55; x.e[0] = 56; x.e[3] = 57; if (made) x.v.v = 58; }
        void write(Y &) { throw mc::Prune{}; }
        void apply(int op) {
            Mock<T> &m = *pm;
            T &o = L(m.get());
            note(opName[op]);
            MC_LOG("%s", opName[op]);
            static std::string arg = "arg";
            switch (op) {
                case F_ALWAYS: When(Method(m, f)).AlwaysReturn(7); break;
                case F1_ONCE: When(Method(m, f).Using(1)).Return(8); break;
                case G_FAKE: Fake(Method(m, g)); break;
                case S_STUB: When(Method(m, s)).AlwaysReturn("a result that is too long for the small buffer"); sStubbed = true; break;
                case DTOR_FAKE: Fake(Dtor(m)); break;
                case DTOR_COUNT: Dtor(m) = [this]() { dtors++; }; break;
                case MEMBER_D: memberD(m); break;
                case MEMBER_V: if (made) throw mc::Prune{}; memberV(m); break;
                case WRITE: write(m.get()); break;
                case CALL_F1: guarded([&] { note("  = " + std::to_string(o.f(1))); }); break;
                case CALL_F2: guarded([&] { note("  = " + std::to_string(o.f(2))); }); break;
                case CALL_G: guarded([&] { note("  = " + std::to_string(o.g(1))); }); break;
                case CALL_S:
                    if (pure && !sStubbed) throw mc::Prune{};  // see the known finding of C03
                    guarded([&] { note("  = " + o.s(arg)); });
                    break;
                case DELETE: if (!pure) throw mc::Prune{}; guarded([&] { delete &o; }); note("  dtors " + std::to_string(dtors)); break;
                case VERIFY_F: note(Verify(Method(m, f).Using(1)) ? "  yes" : "  no"); break;
                case VERIFY_ALL: VerifyNoOtherInvocations(m); events(); break;
                case CLEAR: m.ClearInvocationHistory(); break;
                case RESET: reset(); break;
                case F_SCRIPT: When(Method(m, f)).Return(21, 22).Throw(std::string("thrown")); break;
                case NAMED: note(Verify(Method(m, nothing)).Never() ? "  yes" : "  no"); break;
                case SPY_OR_NOTHING: stubNothing(m, std::integral_constant<bool, pure>()); break;
            }
            members(m.get());
        }
        void stubNothing(Mock<T> &m, std::true_type) { Fake(Method(m, nothing)); }
        void stubNothing(Mock<T> &m, std::false_type) { Spy(Method(m, nothing), Method(m, f)); }
        void reset() {
            size_t dead = destroyed.size();
            fk::there([&] { pm->Reset(); });
            sStubbed = false;
            MC_CHECK(destroyed.size() == dead + made, "Reset destroyed %zu stubbed members instead of %d", destroyed.size() - dead, made);
            for (size_t i = dead; i < destroyed.size(); i++) MC_CHECK(destroyed[i] == 9 || destroyed[i] == 58, "a stubbed member had the value %d when it was destroyed", destroyed[i]);
            made = 0;
        }
        // calls that throw something else end the operation
        void applyAll(const std::vector<int> &ops) {
            for (int op : ops) {
                try { apply(op); } catch (std::string &s) { note("  threw " + s); }
                mc::beat();
            }
        }
        std::string finish() {
            L(other.get()).f(2);
            applyAll({CALL_F1, CALL_F2, CALL_G});
            if (!pure || sStubbed) applyAll({CALL_S});
            Mock<T> &m = *pm;
            guarded([&] { L(m.get()).nothing(); });
            L(other.get()).f(3);
            if (pure) applyAll({DELETE, CALL_F1});
            Using(m, other).Verify(Method(other, f).Using(99));  // lists the calls of both mocks in order
            events();
            applyAll({VERIFY_F, VERIFY_ALL});
            VerifyNoOtherInvocations(other);
            events();
            size_t dead = destroyed.size();
            pm.reset();
            note("destroyed " + std::to_string(destroyed.size() - dead));
            return obs;
        }
    };
    std::vector<int> draw(int n, const std::vector<int> &ops) {
        std::vector<int> r;
        for (int i = 0; i < n; i++) r.push_back(ops[mc::choose((int) ops.size())]);
        return r;
    }
    template<class T>
    const std::string &fresh(const std::vector<int> &after) {
        static std::map<std::vector<int>, std::string> known;
        auto it = known.find(after);
        if (it == known.end()) {
            Subject<T> s;
            s.applyAll(after);
            it = known.insert({after, s.finish()}).first;
        }
        return it->second;
    }
    template<class T>
    void space(int nbefore, int nafter) {
        std::vector<int> before = draw(mc::choose(nbefore + 1), ALL), after = draw(mc::choose(nafter + 1), ALL);
        const std::string &want = fresh<T>(after);
        Subject<T> s;
        uint64_t h = 5;
        for (int op : before) { s.applyAll({op}); h = mc::mix(h, op); }
        MC_LOG("--- reset");
        s.reset();
        s.dtors = 0;
        s.obs.clear();
        s.applyAll(after);
        std::string got = s.finish();
        if (got != want) {
            size_t i = 0;
            while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
            size_t a = got.rfind('\n', i ? i - 1 : 0);
            a = a == std::string::npos ? 0 : a + 1;
            MC_CHECK(false, "differs from a new mock: '%s' instead of '%s'", got.substr(a, got.find('\n', i) - a).c_str(), want.substr(a, want.find('\n', i) - a).c_str());
        }
        for (int op : after) h = mc::mix(h, op);
        mc::step(h);
        if (want.find("unexpected") != std::string::npos) mc::outcome("unexpected");
        if (want.find("  = ") != std::string::npos) mc::outcome("answered");
    }
    // stubs of two mocks at once; resetting one leaves the other alone
    void spaceOther() {
        fk::QuietAdapter q;
        Mock<X> a, b;
        int nextA = 0, nextB = 0;
        std::vector<std::string> hist;  // calls of b
        When(Method(b, f)).Return(1, 2, 3, 4, 5, 6, 7, 8, 9, 10);
        b.Stub(&X::d, 3);
        int depth = mc::bound(5, 7);
        bool stubbed = false;
        int marked = 0;
        uint64_t h = 1;
        for (int i = 0; i < depth; i++) {
            int op = mc::choose(5);
            h = mc::mix(h, op);
            switch (op) {
                case 0: MC_CHECK(L(b.get()).f(i) == ++nextB, "result of the other mock"); hist.push_back("b.f(" + std::to_string(i) + ")"); break;
                case 1: a.Reset(); stubbed = false; break;
                case 2: Fake(Method(a, f)); stubbed = true; break;
                case 3: {
                    bool ok = true;
                    try { L(a.get()).f(1); } catch (UnexpectedMethodCallException &) { ok = false; }
                    MC_CHECK(ok == stubbed, "the reset mock");
                    break;
                }
                case 4: if (!hist.empty()) { bool ok = Verify(Method(b, f)); MC_CHECK(ok, "verification of the other mock"); marked = (int) hist.size(); } break;
            }
            MC_CHECK(b.get().d == 3, "data of the other mock");
            mc::step(h);
        }
        (void) nextA;
        q.events.clear();
        VerifyNoOtherInvocations(b);
        std::vector<std::string> left(hist.begin() + marked, hist.end());
        MC_CHECK(left.empty() ? q.events.empty() : q.events.size() == 1 && q.events[0].unverified == left && q.events[0].all == hist, "history of the other mock");
        mc::outcome("checked");
    }

    // ---- a class with 300 methods: Reset undoes the stub of every one ----
#define M10(F, A) F(A##0) F(A##1) F(A##2) F(A##3) F(A##4) F(A##5) F(A##6) F(A##7) F(A##8) F(A##9)
#define MANY(F) M10(F, 10) M10(F, 11) M10(F, 12) M10(F, 13) M10(F, 14) M10(F, 15) M10(F, 16) M10(F, 17) M10(F, 18) M10(F, 19) M10(F, 20) M10(F, 21) M10(F, 22) M10(F, 23) M10(F, 24) M10(F, 25) M10(F, 26) M10(F, 27) M10(F, 28) M10(F, 29) M10(F, 30) M10(F, 31) M10(F, 32) M10(F, 33) M10(F, 34) M10(F, 35) M10(F, 36) M10(F, 37) M10(F, 38) M10(F, 39)
    struct W {
#define DECL(N) virtual int f##N(int x) { return x * 10000 + N; }
        MANY(DECL)
        virtual ~W() {}
    };
    int callW(W &w, int n) {
        switch (n) {
#define CALL(N) case N: return w.f##N(1);
            MANY(CALL)
        }
        return -1;
    }
    void stubW(Mock<W> &m, int n, int v) {
        switch (n) {
#define STUB(N) case N: When(Method(m, f##N)).AlwaysReturn(v); break;
            MANY(STUB)
        }
    }
    // answers -1 when the call is unexpected
    int tryW(W &w, int n) {
        try { return callW(w, n); } catch (UnexpectedMethodCallException &) { return -1; }
    }
    void spaceWide() {
        fk::QuietAdapter q;
        bool object = mc::flag(), all = mc::flag(), dtor = mc::flag();
        int chosen = 100 + (all ? 0 : mc::choose(300)), again = 100 + (object ? 0 : mc::choose(2) * 299);
        W real;
        std::unique_ptr<Mock<W>> pm(object ? new Mock<W>(real) : new Mock<W>());
        Mock<W> &m = *pm;
        if (dtor) Fake(Dtor(m));
        for (int n = 100; n < 400; n++) if (all || n == chosen) stubW(m, n, n);
        for (int n = 100; n < 400; n++) MC_CHECK(tryW(L(m.get()), n) == (all || n == chosen ? n : object ? 10000 + n : -1), "method %d before Reset", n);
        m.Reset();
        q.events.clear();
        for (int n = 100; n < 400; n++) MC_CHECK(tryW(L(m.get()), n) == (object ? 10000 + n : -1), "method %d after Reset", n);
        MC_CHECK(object || q.events.size() == 300, "events of the calls after Reset");
        for (auto &e : q.events) MC_CHECK(e.kind == fk::Event::Unexpected && e.type == 0, "after Reset a method is not unmocked: %s", e.str().c_str());
        q.events.clear();
        VerifyNoOtherInvocations(m);
        MC_CHECK(q.events.empty(), "the history survived Reset: %s", q.events[0].str().c_str());
        if (!object) {
            stubW(m, again, 5);
            for (int n = 100; n < 400; n++) MC_CHECK(tryW(L(m.get()), n) == (n == again ? 5 : -1), "method %d after Reset and stubbing of %d", n, again);
        }
        mc::step(mc::mix(mc::mix(chosen, again), object * 4 + all * 2 + dtor));
        mc::outcome("checked");
    }
    // ---- many stubs, calls, verifications and earlier Resets ----
    void spaceMany() {
        fk::QuietAdapter q;
        static const int ns[] = {1, 2, 3, 5, 8, 9, 10, 16, 17, 33, 64, 65, 100, 129, 257, 1000};
        int n = ns[mc::choose(16)], what = mc::choose(5);
        bool object = mc::flag();
        W real;
        std::unique_ptr<Mock<W>> pm(object ? new Mock<W>(real) : new Mock<W>());
        Mock<W> &m = *pm;
        W &w = L(m.get());
        auto before = [&](int k) {
            if (what == 0) for (int i = 0; i < k; i++) When(Method(m, f100).Using(i)).AlwaysReturn(7);
            if (what != 0) When(Method(m, f100)).AlwaysReturn(7);
            for (int i = 0; i < (what == 1 || what == 2 ? k : 1); i++) MC_CHECK(w.f100(0) == 7, "before Reset");
            if (what == 2) Verify(Method(m, f100)).Exactly(k);
            if (what == 4) { Fake(Dtor(m)); delete &m.get(); }
        };
        auto after = [&](int r) {
            q.events.clear();
            int got = tryW(w, 100);
            MC_CHECK(got == (object ? 10100 : -1), "Reset %d after %d (%d): the method gives %d", r, n, what, got);
            if (!object) MC_CHECK(q.events.size() == 1 && q.events[0].type == 0, "Reset %d after %d (%d): not unmocked", r, n, what);
            q.events.clear();
            VerifyNoOtherInvocations(m);
            MC_CHECK(q.events.empty(), "Reset %d after %d (%d): %s", r, n, what, q.events[0].str().c_str());
            bool none = Verify(Method(m, f101)).Never();
            MC_CHECK(none, "Reset %d after %d (%d): a call is left", r, n, what);
            m.Reset();
            mc::step(mc::mix(mc::mix(n, what), r * 2 + object));
        };
        int resets = what >= 3 ? n : 3;
        for (int r = 0; r < resets; r++) {
            before(n);
            m.Reset();
            after(r);
        }
        When(Method(m, f100)).Return(1, 2);
        MC_CHECK(w.f100(5) == 1 && w.f100(6) == 2 && tryW(w, 100) == -1, "script after Reset");
        bool two = Verify(Method(m, f100).Using(5), Method(m, f100).Using(6)).Once();
        MC_CHECK(two, "verification after Reset");
        mc::outcome("checked");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 4;
        o.mandatory = {"unexpected", "answered"};
        o.bound = "all histories of up to 2 (3) of 21 operations before and up to 2 after Reset, followed by using everything; compared with a new mock";
        mc::add("pure", o, [] { space<X>(mc::bound(2, 3), 2); });
        mc::add("pure, long before", o, [] { space<X>(3, mc::bound(1, 2)); });
        mc::add("pure, long after", o, [] { space<X>(mc::bound(1, 2), 3); });
        o.mandatory = {"answered"};
        o.bound = "the same for a mocked object";
        mc::add("object", o, [] { space<Y>(mc::bound(2, 3), 2); });
        o.bound = "1 (2) operations before and 2 after, calls and Reset while an exception propagates or in a catch block";
        mc::add("pure, places", o, [] { fk::Place p(1 + mc::choose(2)); space<X>(mc::bound(1, 2), 2); });
        mc::add("object, places", o, [] { fk::Place p(1 + mc::choose(2)); space<Y>(mc::bound(1, 2), 2); });
        o.mandatory = {"checked"};
        o.shardDepth = 2;
        o.bound = "all sequences of 5 (7) of calls, verifications and Reset on two mocks";
        mc::add("other", o, spaceOther);
        o.shardDepth = 4;
        o.bound = "a class of 300 methods: each stubbed alone, all stubbed, after Reset each called, the first or last stubbed again";
        mc::add("wide", o, spaceWide);
        o.shardDepth = 2;
        o.bound = "up to 1000 stubs, calls, verified calls, Resets or Resets with deletions (16 numbers), pure and object";
        mc::add("many", o, spaceMany);
    });
}
