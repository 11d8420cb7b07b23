// C13: stubbing one method of one object affects that method of that object only.
#include "fk.hpp"
#include "heap.hpp"
using namespace fakeit;
using fk::L;

#ifndef PART
#define PART 0
#endif

namespace {
#if PART == 0
    // ---- overloads, qualifiers, inherited and overridden methods ----
    struct Top {
        virtual int inherited(int) = 0;
        virtual int overridden(int) = 0;
        virtual ~Top() {}
        virtual int hidden(int) = 0;
    };
    struct Middle : Top {
        int overridden(int) override = 0;
        virtual int middle(int) = 0;
    };
    struct O : Middle {
        virtual int f() = 0;
        virtual int f(int) = 0;
        virtual int f(int) const = 0;
        virtual int f(double) = 0;
        virtual int f(const std::string &) = 0;
        virtual int f(int, int) = 0;
        virtual int hidden(long) = 0;
        using Top::hidden;
        virtual int q(int) & = 0;
        virtual int q(int) const & = 0;
        virtual int q(int) && = 0;
        virtual int q(int) const && = 0;
        virtual int n(int) noexcept = 0;
        virtual void nothing() = 0;
        virtual long wide(long long) = 0;
    };
    enum { NM = 18 };
    const char *names[NM] = {"inherited", "overridden", "hidden(int)", "middle", "f()", "f(int)", "f(int) const", "f(double)", "f(string)", "f(int,int)", "hidden(long)", "q &", "q const &", "q &&", "q const &&", "n noexcept", "nothing", "wide"};

    // every method is named by two different statements
    template<class F>
    void named(Mock<O> &m, int meth, bool second, F &&use) {
        switch (meth * 2 + second) {
#define TWO(N, M) case N * 2: use(M); break; case N * 2 + 1: use(M); break;
            TWO(0, Method(m, inherited))
            TWO(1, Method(m, overridden))
            TWO(2, OverloadedMethod(m, hidden, int(int)))
            TWO(3, Method(m, middle))
            TWO(4, OverloadedMethod(m, f, int()))
            TWO(5, OverloadedMethod(m, f, int(int)))
            TWO(6, ConstOverloadedMethod(m, f, int(int)))
            TWO(7, OverloadedMethod(m, f, int(double)))
            TWO(8, OverloadedMethod(m, f, int(const std::string &)))
            TWO(9, OverloadedMethod(m, f, int(int, int)))
            TWO(10, OverloadedMethod(m, hidden, int(long)))
            TWO(11, RefOverloadedMethod(m, q, int(int)))
            TWO(12, ConstRefOverloadedMethod(m, q, int(int)))
            TWO(13, RValRefOverloadedMethod(m, q, int(int)))
            TWO(14, ConstRValRefOverloadedMethod(m, q, int(int)))
            TWO(15, Method(m, n))
            TWO(16, Method(m, nothing))
            TWO(17, Method(m, wide))
        }
    }
    int result = 0;
    template<class R, class... A> void stubWith(MockingContext<R, A...> c, int value) { When(c).AlwaysDo([value](auto &&...) -> R { result = value; return value; }); }
    template<class... A> void stubWith(MockingContext<void, A...> c, int value) { When(c).AlwaysDo([value](auto &&...) { result = value; }); }
    void invoke(O &o, int meth) {
        static std::string text = "text";
        const O &c = o;
        switch (meth) {
            case 0: o.inherited(1); break;
            case 1: o.overridden(1); break;
            case 2: o.hidden(1); break;
            case 3: o.middle(1); break;
            case 4: o.f(); break;
            case 5: o.f(1); break;
            case 6: c.f(1); break;
            case 7: o.f(1.5); break;
            case 8: o.f(text); break;
            case 9: o.f(1, 2); break;
            case 10: o.hidden(1L); break;
            case 11: o.q(1); break;
            case 12: c.q(1); break;
            case 13: std::move(o).q(1); break;
            case 14: std::move(c).q(1); break;
            case 15: o.n(1); break;
            case 16: o.nothing(); break;
            case 17: o.wide(1); break;
        }
    }
    void spaceOverloads() {
        fk::QuietAdapter q;
        Mock<O> m, untouched;
        int value[NM] = {}, count[NM] = {}, next = 10;
        int n = 1 + mc::choose(mc::bound(3, 4));
        uint64_t h = 1;
        for (int i = 0; i < n; i++) {
            int meth = mc::choose(NM);
            bool second = mc::flag();
            MC_LOG("stub %s by statement %d", names[meth], second);
            named(m, meth, second, [&](auto &&c) { stubWith(c, next); });
            value[meth] = next++;
            h = mc::mix(h, meth * 2 + second);
            mc::step(h);
        }
        auto callAll = [&](bool backwards) {
            for (int k = 0; k < NM; k++) {
                int meth = backwards ? NM - 1 - k : k;
                if (meth == 15 && !value[meth]) continue;  // an exception would leave a noexcept method
                result = 0;
                bool unexpected = false;
                try { invoke(L(m.get()), meth); } catch (UnexpectedMethodCallException &) { unexpected = true; }
                MC_CHECK(unexpected == !value[meth], "%s is %s", names[meth], unexpected ? "unexpected although it is stubbed" : "answered although it is not stubbed");
                MC_CHECK(result == value[meth], "%s is answered by stub %d instead of %d", names[meth], result, value[meth]);
                if (value[meth]) count[meth]++;
                unexpected = false;
                if (meth == 15) continue;
                try { invoke(L(untouched.get()), meth); } catch (UnexpectedMethodCallException &) { unexpected = true; }
                MC_CHECK(unexpected, "%s of another mock is answered", names[meth]);
            }
        };
        callAll(false);
        callAll(true);
        for (int meth = 0; meth < NM; meth++)
            if (value[meth]) named(m, meth, mc::bound(0, 1), [&](auto &&c) { bool ok = Verify(c).Exactly(count[meth]); MC_CHECK(ok, "calls of %s", names[meth]); });
        q.events.clear();
        VerifyNoOtherInvocations(m);
        MC_CHECK(q.events.empty(), "calls of other methods are recorded");
        VerifyNoOtherInvocations(untouched);
        MC_CHECK(q.events.empty(), "calls of another mock are recorded");
        mc::outcome("stubbed");
    }

    // ---- several mocks, mocked and unmocked real objects, created and destroyed in any order ----
    struct A {
        int a = 3;
        virtual int f(int) { return 1000 + a; }
        virtual int g(int) { return 2000 + a; }
        virtual ~A() {}
    };
    struct B {
        virtual int g(int) = 0;
        virtual int f(int) = 0;
        virtual ~B() {}
    };
    struct World {
        struct Slot {
            int kind;  // 0 Mock<A>, 1 Mock<A> of an object, 2 Mock<B>
            std::unique_ptr<A> real;
            std::unique_ptr<Mock<A>> a;
            std::unique_ptr<Mock<B>> b;
            int value[2] = {};
            int calls[2] = {};
            bool alive() const { return a || b; }
        };
        Slot s[4];
        A bystander;
        World() { s[0].kind = 0; s[1].kind = 0; s[2].kind = 1; s[3].kind = 2; }
        void create(int i) {
            if (s[i].kind == 0) s[i].a.reset(new Mock<A>());
            if (s[i].kind == 1) { s[i].real.reset(new A()); s[i].a.reset(new Mock<A>(*s[i].real)); }
            if (s[i].kind == 2) s[i].b.reset(new Mock<B>());
        }
        void forget(int i) { for (int k = 0; k < 2; k++) s[i].value[k] = s[i].calls[k] = 0; }
        void destroy(int i) { s[i].a.reset(); s[i].b.reset(); forget(i); }
        void reset(int i) { if (s[i].a) s[i].a->Reset(); if (s[i].b) s[i].b->Reset(); forget(i); }
        // the same statements stub all mocks
        template<class M> static void stub(M &m, int meth, int v) {
            if (meth) When(Method(m, g)).AlwaysReturn(v); else When(Method(m, f)).AlwaysReturn(v);
        }
        int call(int i, int meth) {
            try {
                if (s[i].b) return meth ? L(s[i].b->get()).g(1) : L(s[i].b->get()).f(1);
                A &o = s[i].a ? L(s[i].a->get()) : L(*s[i].real);
                return meth ? o.g(1) : o.f(1);
            } catch (UnexpectedMethodCallException &) { return -1; }
        }
        void checkAll() {
            for (int i = 0; i < 4; i++) for (int meth = 0; meth < 2; meth++) {
                if (!s[i].alive() && !s[i].real) continue;
                int want = s[i].value[meth] ? s[i].value[meth] : s[i].kind == 1 ? 1003 + 1000 * meth : -1;
                int got = call(i, meth);
                MC_CHECK(got == want, "mock %d, method %d gives %d instead of %d", i, meth, got, want);
                if (s[i].value[meth]) s[i].calls[meth]++;
            }
            MC_CHECK(L(bystander).f(1) == 1003 && L(bystander).g(1) == 2003, "a real object that was never mocked");
        }
        template<class M> void verify(M &m, int i, int meth) {
            bool ok = meth ? (bool) Verify(Method(m, g)).Exactly(s[i].calls[1]) : (bool) Verify(Method(m, f)).Exactly(s[i].calls[0]);
            MC_CHECK(ok, "mock %d has not recorded %d calls of method %d", i, s[i].calls[meth], meth);
        }
    };
    void spaceMocks() {
        fk::QuietAdapter q;
        World w;
        int depth = mc::bound(6, 7), next = 10;
        uint64_t h = 2;
        for (int d = 0; d < depth; d++) {
            int i = mc::choose(4), op = mc::choose(4);
            auto &s = w.s[i];
            if (op == 0) { if (s.alive()) w.destroy(i); else w.create(i); }
            else if (!s.alive()) mc::prune();
            else if (op == 3) w.reset(i);
            else {
                s.value[op - 1] = next++;
                if (s.a) World::stub(*s.a, op - 1, s.value[op - 1]); else World::stub(*s.b, op - 1, s.value[op - 1]);
            }
            MC_LOG("mock %d operation %d", i, op);
            h = mc::mix(h, i * 4 + op);
            mc::step(h);
            w.checkAll();
        }
        for (int i = 0; i < 4; i++) for (int meth = 0; meth < 2; meth++)
            if (w.s[i].value[meth]) {
                if (w.s[i].a) w.verify(*w.s[i].a, i, meth); else w.verify(*w.s[i].b, i, meth);
            }
        mc::outcome("checked");
    }

    // ---- statements far apart in one file ----
    struct Far { virtual int f(int) = 0; virtual int g(int) = 0; virtual int h(int) = 0; virtual int i(int) = 0; virtual int j(int) = 0; virtual ~Far() {} };
#define S1 static_assert(__COUNTER__ >= 0, "");
#define S4 S1 S1 S1 S1
#define S16 S4 S4 S4 S4
#define S64 S16 S16 S16 S16
#define S256 S64 S64 S64 S64
#define S4096 S256 S256 S256 S256 S256 S256 S256 S256 S256 S256 S256 S256 S256 S256 S256 S256
    void farF(Mock<Far> &m) { When(Method(m, f)).AlwaysReturn(1); }
    S64 S64 S64 S16 S16 S16 S4 S4 S4 S1 S1 S1
    void farG(Mock<Far> &m) { When(Method(m, g)).AlwaysReturn(2); }  // 256 after f
    S256 S256 S256 S64 S64 S64 S16 S16 S16 S4 S4 S4 S1 S1 S1
    void farH(Mock<Far> &m) { When(Method(m, h)).AlwaysReturn(3); }  // 1024 after g
    S4096 S4096 S4096 S4096 S4096 S4096 S4096 S4096 S4096 S4096 S4096 S4096 S4096 S4096 S4096
    S256 S256 S256 S256 S256 S256 S256 S256 S256 S256
    S64 S64 S64 S16 S16 S16 S4 S4 S4 S1 S1 S1
    void farI(Mock<Far> &m) { When(Method(m, i)).AlwaysReturn(4); }  // 65536 after f
    S1
    void farJ(Mock<Far> &m) { When(Method(m, j)).AlwaysReturn(5); }
    // ---- methods stubbed long after one another ----
    struct Late {
        virtual int first(int) = 0;
#define LATE(N) virtual int m##N(int) = 0;
        LATE(0) LATE(1) LATE(2) LATE(3) LATE(4) LATE(5) LATE(6) LATE(7) LATE(8)
        virtual ~Late() {}
    };
    void spaceLate() {
        static const int gaps[] = {0, 250, 506, 1018, 4090, 32762, 65530};
        fk::QuietAdapter q;
        Mock<Late> m, other;
        bool otherMock = mc::flag();
        int gap = gaps[mc::choose(7)];
        Mock<Late> &first = otherMock ? other : m;
        Fake(Method(first, first));
        {
            Mock<Far> busy;
            for (int i = 0; i < gap; i++) { Fake(Method(busy, f)); busy.Reset(); }
        }
        int calls[10] = {};
#define LATE_STUB(N) When(Method(m, m##N)).AlwaysReturn(N + 1);
        LATE_STUB(0) LATE_STUB(1) LATE_STUB(2) LATE_STUB(3) LATE_STUB(4) LATE_STUB(5) LATE_STUB(6) LATE_STUB(7) LATE_STUB(8)
        for (int which = 0; which <= 9; which++) {
            Late &o = L(m.get());
            int r = -1;
            switch (which) {
#define LATE_CALL(N) case N: r = o.m##N(1); break;
                LATE_CALL(0) LATE_CALL(1) LATE_CALL(2) LATE_CALL(3) LATE_CALL(4) LATE_CALL(5) LATE_CALL(6) LATE_CALL(7) LATE_CALL(8)
                default: r = L(first.get()).first(1);
            }
            MC_CHECK(r == (which == 9 ? 0 : which + 1), "method %d gives %d", which, r);
            calls[which]++;
#define LATE_VERIFY(N) MC_CHECK((bool) Using(m, other).Verify(Method(m, m##N)).Exactly(calls[N]), "%d methods stubbed between: method %d was not called %d times", gap, N, calls[N]);
            LATE_VERIFY(0) LATE_VERIFY(1) LATE_VERIFY(2) LATE_VERIFY(3) LATE_VERIFY(4) LATE_VERIFY(5) LATE_VERIFY(6) LATE_VERIFY(7) LATE_VERIFY(8)
            MC_CHECK((bool) Using(m, other).Verify(Method(first, first)).Exactly(calls[9]), "%d methods stubbed between: the first method was not called %d times", gap, calls[9]);
            mc::step(mc::mix(mc::mix(gap, otherMock), which));
        }
        MC_CHECK(q.events.empty(), "events");
        mc::outcome("checked");
    }
    void spaceFar() {
        fk::QuietAdapter q;
        Mock<Far> m;
        void (*stubs[])(Mock<Far> &) = {farF, farG, farH, farI, farJ};
        bool on[5] = {};
        for (int i = 0; i < 5; i++) {
            int s = mc::choose(6);
            if (s < 5) { stubs[s](m); on[s] = true; }
            Far &o = L(m.get());
            for (int k = 0; k < 5; k++) {
                int r = -1;
                try { r = k == 0 ? o.f(1) : k == 1 ? o.g(1) : k == 2 ? o.h(1) : k == 3 ? o.i(1) : o.j(1); } catch (UnexpectedMethodCallException &) {}
                MC_CHECK(r == (on[k] ? k + 1 : -1), "method %d gives %d", k, r);
            }
            mc::step(mc::mix(i, on[0] + on[1] * 2 + on[2] * 4 + on[3] * 8 + on[4] * 16));
        }
        mc::outcome("checked");
    }

    // ---- known finding: one statement in a template that names different methods ----
    struct T2 { virtual int f(int) = 0; virtual int f(long) = 0; virtual ~T2() {} };
    template<class P> void stubOverload(Mock<T2> &m, int v) { When(OverloadedMethod(m, f, int(P))).AlwaysReturn(v); }
    void probeTemplate() {
        Mock<T2> m;
        stubOverload<int>(m, 1);
        stubOverload<long>(m, 2);
        int a = L(m.get()).f(1), b = L(m.get()).f(1L);
        MC_CHECK(a == 1 && b == 2, "f(int) gives %d and f(long) gives %d", a, b);
    }
#elif PART == 1 || PART == 2
    // ---- large classes ----
#define M10(F, A) F(A##0) F(A##1) F(A##2) F(A##3) F(A##4) F(A##5) F(A##6) F(A##7) F(A##8) F(A##9)
#define M100(F, A) M10(F, A##0) M10(F, A##1) M10(F, A##2) M10(F, A##3) M10(F, A##4) M10(F, A##5) M10(F, A##6) M10(F, A##7) M10(F, A##8) M10(F, A##9)
#if PART == 1
#define ALL(F) M100(F, 1) M100(F, 2) M10(F, 30) M10(F, 31)
#define STUBBED(F) ALL(F)
    enum { FIRST = 100, COUNT = 220 };
    struct W {
#else
#define ALL(F) M100(F, 10) M100(F, 11) M100(F, 12) M100(F, 13) M100(F, 14) M100(F, 15) M100(F, 16) M100(F, 17) M100(F, 18) M10(F, 190) M10(F, 191) M10(F, 192) M10(F, 193) M10(F, 194) M10(F, 195) M10(F, 196) M10(F, 197) M10(F, 198)
#define STUBBED(F) ALL(F)
    enum { FIRST = 1000, COUNT = 990 };
    struct W {
#endif
        // the result tells the position and the argument
#define DECL(N) virtual int f##N(int x) { return x * 10000 + N; }
        ALL(DECL)
        virtual ~W() {}
    };
    const std::vector<int> POSITIONS = {
#define POS(N) N,
        STUBBED(POS)
    };
    int callW(W &w, int n, int x) {
        switch (n) {
#define CALL(N) case N: return w.f##N(x);
            ALL(CALL)
        }
        return -1;
    }
    void stubW(Mock<W> &m, int n, int v) {
        switch (n) {
#define STUB(N) case N: When(Method(m, f##N)).AlwaysReturn(v); break;
            STUBBED(STUB)
        }
    }
    void spaceWide() {
        W real, other;
        int P = (int) POSITIONS.size();
        int a = POSITIONS[mc::choose(P)], b = POSITIONS[mc::choose(P)];
            {
            Mock<W> m(real);
            stubW(m, a, -5);
            stubW(m, b, -6);
            for (int f = FIRST; f < FIRST + COUNT; f++) {
                int want = f == b ? -6 : f == a ? -5 : 30000 + f;
                int got = callW(L(m.get()), f, 3);
                MC_CHECK(got == want, "methods %d and %d stubbed: method %d gives %d instead of %d", a - FIRST, b - FIRST, f - FIRST, got, want);
            }
            MC_CHECK(callW(L(other), a, 4) == 40000 + a && callW(L(other), b, 4) == 40000 + b, "another object of the class");
        }
        MC_CHECK(callW(L(real), a, 4) == 40000 + a && callW(L(real), b, 4) == 40000 + b, "the object after the mock is gone");
        mc::step(mc::mix(a, b));
        mc::outcome("checked");
    }
    // without an object: every other method is unexpected
    void spaceWidePure() {
        fk::QuietAdapter q;
        int a = POSITIONS[mc::choose((int) POSITIONS.size())];
        bool alone = mc::flag();
        Mock<W> m;
        if (!alone) Fake(Dtor(m));
        stubW(m, a, -5);
        for (int f = FIRST; f < FIRST + COUNT; f++) {
            int got = 0;
            try { got = callW(L(m.get()), f, 3); } catch (UnexpectedMethodCallException &) { got = -1; }
            MC_CHECK(got == (f == a ? -5 : -1), "method %d stubbed: method %d gives %d", a - FIRST, f - FIRST, got);
        }
        q.events.clear();
        W *p = &L(m.get());
        delete p;
        MC_CHECK(q.events.empty(), "deleting the instance raised an event");
        MC_CHECK(callW(*p, a, 3) == -5, "the stub is gone after deleting the instance");
        mc::step(a * 2 + alone);
        mc::outcome("checked");
    }
#endif
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
#if PART == 0
        o.shardDepth = 3;
        o.mandatory = {"stubbed"};
        o.bound = "18 overloads, qualified variants, inherited and overridden methods: all sequences of up to 3 (4) stubbings by two statements each, all methods of two mocks called twice";
        mc::add("overloads", o, spaceOverloads);
        o.mandatory = {"checked"};
        o.bound = "2 mocks of one class, one of an object, one of another class: all sequences of 6 (7) of creating/destroying, stubbing either method, Reset; everything called after each";
        mc::add("mocks", o, spaceMocks);
        o.shardDepth = 2;
        o.bound = "statements 256, 1024, 64256 and 65536 uses of the counter apart, all orders of up to 5 stubbings";
        mc::add("far", o, spaceFar);
        o.bound = "up to 65530 methods stubbed between the first and nine more of the same or another mock";
        mc::add("late", o, spaceLate);
        mc::probe("statement-in-template", "one OverloadedMethod(...) statement in a function template instantiated for two overloads of one mock", probeTemplate);
#else
        o.shardDepth = 1;
        o.mandatory = {"checked"};
        o.bound = "all ordered pairs of the stubbed positions of a large class (220 and 990 methods), all methods called";
        mc::add("wide", o, spaceWide);
        o.bound = "every stubbed position alone or with the destructor on a mock without object";
        mc::add("pure", o, spaceWidePure);
#endif
    });
}
