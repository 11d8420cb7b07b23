// C15: ClearInvocationHistory forgets exactly the history.
#include "fk.hpp"
#include "heap.hpp"
#include <deque>
using namespace fakeit;
using fk::L;

namespace {
    std::vector<int> destroyed;
    struct V { int v; explicit V(int v_) : v(v_) {} ~V() { destroyed.push_back(v); } };
    struct X {
        virtual int f(int) = 0;
        virtual int g(const std::string &) = 0;
        virtual ~X() {}
        virtual void h() = 0;
        int d;
        int e;
        V v;
        X() : v(0) {}
    };
    struct Y {
        int runs = 0;
        virtual int f(int x) { runs++; return 100 + x; }
        virtual int g(const std::string &) { runs++; return 200; }
        virtual ~Y() {}
        virtual void h() { runs++; }
    };
    // what a stub of f has left
    struct Stub { int arg; std::deque<int> left; int always; };  // arg 0: any; always: 0 none, 1 the original
    const std::string ga = "a", gb = "bb";

    template<class T>
    struct World {
        static constexpr bool pure = std::is_same<T, X>::value;
        fk::QuietAdapter q;
        Y realA, realB;
        std::unique_ptr<Mock<T>> pa, pb;
        struct Call { std::string text; int mock; bool marked; };
        std::vector<Call> calls;
        std::vector<Stub> stubs;
        bool gStub = false, hStub = false, dtor = false;
        int dtors = 0, next = 1, runs = 0, d = 0;

        World() { create(std::integral_constant<bool, pure>()); stub(*pb); }
        void create(std::true_type) { destroyed.clear(); pa.reset(new Mock<T>()); pb.reset(new Mock<T>()); pa->Stub(&X::d, 5); pa->Stub(&X::v, 6); pa->get().e = 7; d = 5; }
        void create(std::false_type) { pa.reset(new Mock<T>(realA)); pb.reset(new Mock<T>(realB)); }
        void stub(Mock<T> &b) { Fake(Method(b, f), Method(b, h)); }

        void call(int arg) {
            Mock<T> &a = *pa;
            int want = -1;
            bool matched = false;
            for (size_t i = stubs.size(); i-- > 0 && !matched;) {
                Stub &s = stubs[i];
                if (s.arg && s.arg != arg) continue;
                matched = true;
                if (!s.left.empty()) { want = s.left.front(); s.left.pop_front(); }
                else if (s.always == 1) { want = 100 + arg; runs++; }
                else if (s.always) want = s.always;
            }
            if (matched) calls.push_back({"a.f(" + std::to_string(arg) + ")", 0, false});
            else if (!pure && stubs.empty()) { want = 100 + arg; runs++; }
            int got = -1;
            try { fk::there([&] { got = L(a.get()).f(arg); }); } catch (UnexpectedMethodCallException &) {}
            MC_CHECK(got == want, "f(%d) gave %d, expected %d", arg, got, want);
            mc::outcome(want == -1 ? "nothing left" : "answered");
        }
        void callG(const std::string &arg) {
            Mock<T> &a = *pa;
            int want = gStub ? 9 : pure ? -1 : 200, got = -1;
            if (gStub) calls.push_back({"a.g(" + arg + ")", 0, false});
            else if (!pure) runs++;
            try { fk::there([&] { got = L(a.get()).g(arg); }); } catch (UnexpectedMethodCallException &) {}
            MC_CHECK(got == want, "g gave %d, expected %d", got, want);
        }
        void forget(int mock) {
            size_t n = 0;
            for (auto &c : calls) if (c.mock != mock) calls[n++] = c;
            calls.resize(n);
        }
        void mark(const char *prefix) { for (auto &c : calls) if (c.text.compare(0, strlen(prefix), prefix) == 0) c.marked = true; }
        int count(const char *prefix) { int n = 0; for (auto &c : calls) n += c.text.compare(0, strlen(prefix), prefix) == 0; return n; }

        void members(X &x) { MC_CHECK(x.d == d && x.e == 7 && x.v.v == 6 && destroyed.empty(), "data members %d %d %d", x.d, x.e, x.v.v); }
        void members(Y &y) { MC_CHECK(y.runs == runs, "the originals ran %d times instead of %d", y.runs, runs); }
        void check() {
            Mock<T> &a = *pa, &b = *pb;
            q.events.clear();
            MC_CHECK(!(bool) Using(a, b).Verify(Method(b, f).Using(-5)), "a call that never happened was verified");
            std::vector<std::string> all;
            for (auto &c : calls) all.push_back(c.text);
            MC_CHECK(q.events.empty(), "converted verification reported");
            { Using(a, b).Verify(Method(b, f).Using(-5)); }
            MC_CHECK(q.events.size() == 1 && q.events[0].all == all, "visible calls: %s, expected %zu", q.events.empty() ? "none" : q.events[0].str().c_str(), all.size());
            q.events.clear();
            for (int k = 0; k < 2; k++) {
                std::vector<std::string> left;
                for (auto &c : calls) if (c.mock == k && !c.marked) left.push_back(c.text);
                VerifyNoOtherInvocations(k ? b : a);
                MC_CHECK(left.empty() ? q.events.empty() : q.events.size() == 1 && q.events[0].unverified == left, "unverified calls of mock %d: %s", k, q.events.empty() ? "none" : q.events[0].str().c_str());
                q.events.clear();
            }
            members(a.get());
        }
        void memberOp(X &x) { x.d = ++d; }
        void memberOp(Y &) { throw mc::Prune{}; }
        void del(X &x) { delete &x; }
        void del(Y &) { throw mc::Prune{}; }

        void op(int o) {
            Mock<T> &a = *pa, &b = *pb;
            switch (o) {
                case 0: MC_LOG("a.ClearInvocationHistory"); fk::there([&] { a.ClearInvocationHistory(); }); forget(0); mc::outcome("cleared"); break;
                case 1: MC_LOG("b.ClearInvocationHistory"); fk::there([&] { b.ClearInvocationHistory(); }); forget(1); break;
                case 2: MC_LOG("a.f(1)"); call(1); break;
                case 3: MC_LOG("a.f(2)"); call(2); break;
                case 4: MC_LOG("b.f(1)"); L(b.get()).f(1); calls.push_back({"b.f(1)", 1, false}); break;
                case 5:
                    MC_LOG("stub f twice");
                    When(Method(a, f)).Return(10 + next, 11 + next);
                    stubs.push_back({0, {10 + next, 11 + next}, 0});
                    next += 2;
                    break;
                case 6:
                    MC_LOG("stub f(1) once and then always");
                    When(Method(a, f).Using(1)).Return(10 + next).AlwaysReturn(50 + next);
                    stubs.push_back({1, {10 + next}, 50 + next});
                    next += 2;
                    break;
                case 7: {
                    if (!pure && stubs.empty()) throw mc::Prune{};
                    MC_LOG("Verify(f(1))");
                    int n = count("a.f(1)");
                    bool ok = Verify(Method(a, f).Using(1));
                    MC_CHECK(ok == (n > 0), "Verify(f(1)) answered %d with %d calls", ok, n);
                    if (ok) mark("a.f(1)");
                    break;
                }
                case 8: {
                    if (!pure && stubs.empty()) throw mc::Prune{};
                    MC_LOG("Verify(f).Exactly(2)");
                    int n = count("a.f(");
                    bool ok = Verify(Method(a, f)).Exactly(2);
                    MC_CHECK(ok == (n == 2), "Verify(f).Exactly(2) answered %d with %d calls", ok, n);
                    if (ok) mark("a.f(");
                    break;
                }
                case 9:
                    MC_LOG("stub g, h and the destructor");
                    When(Method(a, g)).AlwaysReturn(9);
                    Fake(Method(a, h));
                    gStub = hStub = true;
                    if (pure) { Dtor(a) = [this] { dtors++; }; dtor = true; }
                    break;
                case 10: MC_LOG("a.g"); callG(mc::flag() ? ga : gb); break;
                case 11:
                    MC_LOG("delete");
                    if (dtor) calls.push_back({"a.destructor()", 0, false});
                    { int want = dtors + dtor; try { fk::there([&] { del(L(a.get())); }); } catch (UnexpectedMethodCallException &) { MC_CHECK(!dtor, "the destructor is not stubbed"); } MC_CHECK(dtors == want, "destructor action ran %d times", dtors); }
                    break;
                case 12: MC_LOG("write d"); memberOp(a.get()); break;
                case 13: {
                    MC_LOG("spy or script with 0 left");
                    spyOp(a, std::integral_constant<bool, pure>());
                    break;
                }
                case 14: {
                    MC_LOG("h");
                    if (hStub) calls.push_back({"a.h()", 0, false});
                    else if (!pure) runs++;
                    try { fk::there([&] { L(a.get()).h(); }); } catch (UnexpectedMethodCallException &) { MC_CHECK(!hStub && pure, "h is not answered"); }
                    break;
                }
            }
            check();
        }
        void spyOp(Mock<T> &a, std::true_type) { When(Method(a, f)).AlwaysReturn(70 + next); stubs.push_back({0, {}, 70 + next}); next++; }
        void spyOp(Mock<T> &a, std::false_type) { Spy(Method(a, f)); stubs.push_back({0, {}, 1}); }
    };
    template<class T>
    void space(int depth) {
        World<T> w;
        uint64_t h = 1;
        for (int i = 0; i < depth; i++) {
            int o = mc::choose(15);
            h = mc::mix(h, o);
            w.op(o);
            mc::step(h);
        }
    }
    // partly consumed scripts: always clears, calls, stubs and verifications only
    template<class T>
    void spaceDeep(int depth) {
        World<T> w;
        w.op(5);
        w.op(6);
        uint64_t h = 1;
        static const int ops[] = {0, 2, 3, 7, 4, 13};
        for (int i = 0; i < depth; i++) {
            int o = ops[mc::choose(6)];
            h = mc::mix(h, o);
            w.op(o);
            mc::step(h);
        }
    }
    // long histories, many methods
#define M10(F, A) F(A##0) F(A##1) F(A##2) F(A##3) F(A##4) F(A##5) F(A##6) F(A##7) F(A##8) F(A##9)
#define MANY(F) M10(F, 10) M10(F, 11) M10(F, 12) M10(F, 13) M10(F, 14) M10(F, 15) M10(F, 16)
    struct W {
#define DECL(N) virtual int f##N(int x) { return x * 10000 + N; }
        MANY(DECL)
        virtual ~W() {}
    };
    int callW(W &w, int n, int x) {
        switch (n) {
#define CALL(N) case N: return w.f##N(x);
            MANY(CALL)
        }
        return -1;
    }
    void stubW(Mock<W> &m, int n, int kind) {
        switch (n) {
#define STUB(N) case N: if (kind == 1) Spy(Method(m, f##N)); else When(Method(m, f##N)).Return(1, 2, 3, 4).AlwaysReturn(5); break;
            MANY(STUB)
        }
    }
    void spaceWide() {
        fk::QuietAdapter q;
        int kind = mc::choose(2), only = mc::choose(71), perMethod = mc::choose(4), times = only == 70 ? 1 : mc::choose(2) ? 200 : 1;  // only 70: all methods
        W real;
        std::unique_ptr<Mock<W>> pm(kind ? new Mock<W>(real) : new Mock<W>());
        Mock<W> &m = *pm;
        for (int n = 100; n < 170; n++) stubW(m, n, kind);
        int done = 0;
        auto call = [&](int n, int k) {
            int got = callW(L(m.get()), n, 1), want = kind ? 10000 + n : k < 5 ? k : 5;
            MC_CHECK(got == want, "call %d of method %d gave %d instead of %d", k, n, got, want);
        };
        for (int n = 100; n < 170; n++) if (only == 70 || only == n - 100) for (int k = 0; k < perMethod * times; k++) { call(n, k + 1); done++; }
        mc::beat();
        m.ClearInvocationHistory();
        VerifyNoOtherInvocations(m);
        MC_CHECK(q.events.empty(), "after clearing: %s", q.events[0].str().c_str());
        for (int n = 100; n < 170; n++) call(n, (only == 70 || only == n - 100 ? perMethod * times : 0) + 1);
        VerifyNoOtherInvocations(m);
        MC_CHECK(q.events.size() == 1 && q.events[0].unverified.size() == 70 && q.events[0].all.size() == 70, "calls after clearing: %s", q.events.empty() ? "none" : q.events[0].str().c_str());
        mc::step(mc::mix(mc::mix(kind, only), perMethod * 1000 + times));
        mc::outcome("cleared");
    }
    // many stubs of one method, each partly consumed, over several clearings
    void spaceStubs() {
        fk::QuietAdapter q;
        static const int ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 65, 129, 257};
        int n = ns[mc::choose(22)], before = mc::choose(3), clears = 1 + mc::choose(3), more = mc::choose(2);
        Mock<W> m, other;
        W &w = L(m.get());
        Fake(Method(other, f100));
        L(other.get()).f100(1);
        for (int i = 0; i < n; i++) When(Method(m, f100).Using(i)).Return(i * 10, i * 10 + 1, i * 10 + 2, i * 10 + 3);
        std::vector<int> used(n);
        auto call = [&](int i) {
            int got = -99;
            try { got = w.f100(i); } catch (UnexpectedMethodCallException &) {}
            int want = used[i] < 4 ? i * 10 + used[i] : -99;
            used[i]++;
            MC_CHECK(got == want, "%d stubs: use %d of stub %d gave %d", n, used[i], i, got);
        };
        for (int c = 0; c < clears; c++) {
            for (int i = 0; i < n; i++) for (int k = 0; k < before; k++) call(i);
            m.ClearInvocationHistory();
            q.events.clear();
            VerifyNoOtherInvocations(m);
            MC_CHECK(q.events.empty(), "%d stubs, after clearing: %s", n, q.events[0].str().c_str());
            if (more && c == 0) { When(Method(m, f100).Using(n)).Return(n * 10, n * 10 + 1, n * 10 + 2, n * 10 + 3); used.push_back(0); n++; }
            mc::step(mc::mix(mc::mix(n, before), c * 2 + more));
        }
        q.events.clear();
        for (int i = n - 1; i >= 0; i--) call(i);
        q.events.clear();
        VerifyNoOtherInvocations(m);
        MC_CHECK(q.events.size() == 1 && (int) q.events[0].unverified.size() == n, "%d stubs: calls after clearing: %s", n, q.events.empty() ? "none" : q.events[0].str().c_str());
        q.events.clear();
        Verify(Method(other, f100)).Once();
        MC_CHECK(q.events.empty(), "another mock: %s", q.events[0].str().c_str());
        mc::outcome("cleared");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 3;
        o.mandatory = {"cleared", "answered", "nothing left"};
        o.bound = "all sequences of 5 (6) of 15 operations (clearing, calls, stubbing, verifying, destructor, data) on two mocks, everything visible checked after each";
        mc::add("pure", o, [] { space<X>(mc::bound(5, 6)); });
        o.mandatory = {"cleared", "answered"};
        mc::add("object", o, [] { space<Y>(mc::bound(5, 6)); });
        o.bound = "all sequences of 3 (4) operations, calls and clearing while an exception propagates or in a catch block";
        mc::add("pure, places", o, [] { fk::Place p(1 + mc::choose(2)); space<X>(mc::bound(3, 4)); });
        mc::add("object, places", o, [] { fk::Place p(1 + mc::choose(2)); space<Y>(mc::bound(3, 4)); });
        o.bound = "all sequences of 7 (8) of clearing, calls, verifying and one more stub over partly consumed scripts";
        mc::add("pure deep", o, [] { spaceDeep<X>(mc::bound(7, 8)); });
        mc::add("object deep", o, [] { spaceDeep<Y>(mc::bound(7, 8)); });
        o.mandatory = {"cleared"};
        o.shardDepth = 2;
        o.bound = "70 methods: up to 600 calls of one or 3 calls of every one before clearing; stubbed and spied";
        mc::add("wide", o, spaceWide);
        o.bound = "up to 257 stubs (22 numbers) of one method, 0..2 of their 4 actions used before each of 1..3 clearings, with or without one more stub";
        mc::add("stubs", o, spaceStubs);
    });
}
