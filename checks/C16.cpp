// C16: destructor mocking counts deletions and never destroys the mocked instance.
#include "heap.hpp"
#include "fk.hpp"
#include <deque>
using namespace fakeit;
using fk::L;

#ifndef PART
#define PART 0
#endif

namespace {
    int realDtors;  // destructors of the mocked classes themselves
#define THROWS noexcept(false)
    // ---- where the destructor is declared ----
    struct First {
        virtual ~First() THROWS { realDtors++; }
        virtual int f(int) = 0;
        virtual void g() = 0;
    };
    struct Middle {
        virtual int f(int) = 0;
        virtual ~Middle() THROWS { realDtors++; }
        virtual void g() = 0;
    };
    struct Last {
        virtual int f(int) = 0;
        virtual void g() = 0;
        virtual ~Last() THROWS { realDtors++; }
    };
    struct Only {
        virtual ~Only() THROWS { realDtors++; }
        int data[20];
    };
    struct WithData {
        int before[3];
        virtual int f(int) = 0;
        std::string text;
        virtual void g() = 0;
        virtual ~WithData() THROWS { realDtors++; }
    };
    struct ImplicitDtor : First {
        virtual void h() = 0;
    };
    struct DtorOfDerived : Middle {
        virtual void h() = 0;
        ~DtorOfDerived() THROWS { realDtors++; }
    };
    struct NonPure {
        virtual int f(int x) { return x; }
        virtual void g() {}
        virtual ~NonPure() THROWS { realDtors++; }
        virtual void h() {}
    };
    struct Deep : DtorOfDerived {
        int f(int) override = 0;
        virtual void i() = 0;
    };
#define M10(F, A) F(A##0) F(A##1) F(A##2) F(A##3) F(A##4) F(A##5) F(A##6) F(A##7) F(A##8) F(A##9)
#define DECL(N) virtual int f##N(int) = 0;
    struct Many {
        M10(DECL, 10) M10(DECL, 11) M10(DECL, 12) M10(DECL, 13)
        virtual int f(int) = 0;
        M10(DECL, 14) M10(DECL, 15) M10(DECL, 16) M10(DECL, 17)
        virtual ~Many() THROWS { realDtors++; }
        M10(DECL, 18) M10(DECL, 19)
        virtual void g() = 0;
    };

    struct Stub { std::deque<int> left; int always; };  // 1: nothing, 2: throws, 3: counted; always 0: none

    template<class T>
    struct HasF { static constexpr bool value = !std::is_same<T, Only>::value; };

    template<class T, class B = T>
    struct World {
        fk::QuietAdapter q;
        std::unique_ptr<Mock<T>> pm;
        std::vector<Stub> dtor;
        bool fStub = false, gStub = false;
        struct Call { std::string text; bool marked; };
        std::vector<Call> calls;
        int ran = 0, wantRan = 0;

        World() { realDtors = 0; pm.reset(new Mock<T>()); }
        B *instance() { return &L(static_cast<B &>(pm->get())); }

        enum { DELETE, FAKE, COUNT, SCRIPT, THROW, F, STUB_F, VERIFY, CLEAR, RESET, AGAIN, ORDER, SHARED, NOPS };

        void expectDelete(int how) {
            int want = -2;  // -2: no stub, -1: unexpected
            if (!dtor.empty()) {
                Stub &s = dtor.back();
                calls.push_back({"m.destructor()", false});
                if (!s.left.empty()) { want = s.left.front(); s.left.pop_front(); }
                else want = s.always ? s.always : -1;
            }
            if (want == 3) wantRan++;
            int got = 0;
            size_t before = q.events.size();
            try {
                if (how == 0) fk::there([&] { delete instance(); });
                else { std::unique_ptr<B> p(instance()); fk::there([&] { delete p.release(); }); }
            } catch (int) { got = 2; }
            catch (UnexpectedMethodCallException &) { got = -1; }
            MC_CHECK(got == (want == 2 ? 2 : want == -1 ? -1 : 0), "deleting: outcome %d, expected %d", got, want);
            MC_CHECK(ran == wantRan, "the destructor action ran %d times, expected %d", ran, wantRan);
            MC_CHECK(q.events.size() == before + (want == -1), "deleting made %zu events", q.events.size() - before);
            if (want == -1) MC_CHECK(q.events.back().what == "m.destructor()", "unexpected delete shown as %s", q.events.back().what.c_str());
        }
        template<class M> void fake(M &m, std::true_type) { Fake(Method(m, g)); When(Method(m, f)).AlwaysReturn(5); fStub = gStub = true; }
        template<class M> void fake(M &, std::false_type) { throw mc::Prune{}; }
        template<class M> void f(M &m, std::true_type) {
            int got = -1;
            try { fk::there([&] { got = L(m.get()).f(1); }); } catch (UnexpectedMethodCallException &) {}
            MC_CHECK(got == (fStub ? 5 : -1), "f gave %d", got);
            if (fStub) calls.push_back({"m.f(1)", false});
            bool ok = true;
            try { L(m.get()).g(); } catch (UnexpectedMethodCallException &) { ok = false; }
            MC_CHECK(ok == gStub, "g");
            if (gStub) calls.push_back({"m.g()", false});
        }
        template<class M> void f(M &, std::false_type) { throw mc::Prune{}; }
        template<class M> void order(M &m, std::true_type) {
            // greedy leftmost pairs of a delete directly followed by f
            if (dtor.empty() || !fStub) throw mc::Prune{};
            int n = 0;
            std::vector<Call *> list;
            for (auto &c : calls) list.push_back(&c);
            std::vector<Call *> used;
            for (size_t i = 0; i + 1 < list.size();) {
                if (list[i]->text == "m.destructor()" && list[i + 1]->text == "m.f(1)") { n++; used.push_back(list[i]); used.push_back(list[i + 1]); i += 2; }
                else i++;
            }
            bool ok = Verify(Dtor(m) + Method(m, f)).Exactly(n);
            MC_CHECK(ok, "destructor then f did not match exactly %d times", n);
            for (auto c : used) c->marked = true;
        }
        template<class M> void order(M &, std::false_type) { throw mc::Prune{}; }
        void act(int op) {
            Mock<T> &m = *pm;
            std::integral_constant<bool, HasF<T>::value> hasF;
            switch (op) {
                case DELETE: expectDelete(0); break;
                case SHARED: expectDelete(1); break;
                case FAKE: Fake(Dtor(m)); dtor.push_back({{}, 1}); break;
                case COUNT: Dtor(m) = [this] { ran++; }; dtor.push_back({{}, 3}); break;
                case SCRIPT: {
                    auto script = [&](decltype(When(Dtor(m))) when) { when.Do([this] { ran++; }).Return().Return(2_Times); };
                    script(When(Dtor(m)));
                    dtor.push_back({{3, 1, 1, 1}, 0});
                    break;
                }
                case THROW: When(Dtor(m)).Throw(1).AlwaysDo([this] { ran++; }); dtor.push_back({{2}, 3}); break;
                case F: f(m, hasF); break;
                case STUB_F: fake(m, hasF); break;
                case VERIFY: {
                    if (dtor.empty()) throw mc::Prune{};
                    int n = 0;
                    for (auto &c : calls) if (c.text == "m.destructor()") { n++; c.marked = true; }
                    bool more = Verify(Dtor(m)).Exactly(n + 1), ok = Verify(Dtor(m)).Exactly(n);
                    MC_CHECK(ok && !more, "%d deletions are not counted", n);
                    break;
                }
                case CLEAR: fk::there([&] { m.ClearInvocationHistory(); }); calls.clear(); break;
                case RESET: fk::there([&] { m.Reset(); }); calls.clear(); dtor.clear(); fStub = gStub = false; break;
                case AGAIN:
                    fk::there([&] { pm.reset(); });
                    MC_CHECK(ran == wantRan, "destroying the mock ran the destructor action");
                    pm.reset(new Mock<T>());
                    calls.clear();
                    dtor.clear();
                    fStub = gStub = false;
                    break;
                case ORDER: order(m, hasF); break;
            }
            MC_CHECK(realDtors == 0, "the destructor of the class itself ran");
            q.events.clear();
            VerifyNoOtherInvocations(*pm);
            std::vector<std::string> left;
            for (auto &c : calls) if (!c.marked) left.push_back(c.text);
            MC_CHECK(left.empty() ? q.events.empty() : q.events.size() == 1 && q.events[0].unverified == left, "unverified calls: %s, expected %zu", q.events.empty() ? "none" : q.events[0].str().c_str(), left.size());
            q.events.clear();
        }
        void end() {
            pm.reset();
            MC_CHECK(ran == wantRan, "destroying the mock ran the destructor action");
            MC_CHECK(realDtors == 0, "destroying the mock ran the destructor of the class");
        }
    };
    const char *names[] = {"delete", "Fake(Dtor)", "Dtor = action", "script Dtor", "Dtor throws first", "f, g", "stub f, g", "Verify(Dtor)", "clear", "reset", "destroy the mock, make a new one", "Verify(Dtor + f)", "delete through unique_ptr"};

    template<class T, class B>
    void run(const std::vector<int> &ops) {
        World<T, B> w;
        for (int o : ops) w.act(o);
        w.end();
    }
    template<class T, class B = T>
    void space(int depth) {
        std::vector<int> ops;
        uint64_t h = 1;
        for (int i = 0; i < depth; i++) {
            ops.push_back(mc::choose((int) World<T, B>::NOPS));
            MC_LOG("%s", names[ops.back()]);
        }
        long before = heap::live();
        run<T, B>(ops);
        if (heap::live() != before) {  // something may be allocated once
            before = heap::live();
            run<T, B>(ops);
            MC_CHECK(heap::live() == before, "%ld blocks are left after the mock was destroyed", heap::live() - before);
        }
        bool deleted = false;
        for (int o : ops) { h = mc::mix(h, o); mc::step(h); if (o == 0) deleted = true; }
        if (deleted) mc::outcome("deleted");
    }
    // owned by the code under test, as users do
    template<class T>
    void spaceOwned() {
        fk::QuietAdapter q;
        int how = mc::choose(4), stub = mc::choose(3), owners = 1 + mc::choose(3);
        long before = heap::live();
        int rounds = 0;
    again:
        {
            int ran = 0;
            Mock<T> m;
            if (stub == 1) Fake(Dtor(m));
            if (stub == 2) Dtor(m) = [&] { ran++; };
            for (int k = 0; k < owners; k++) {
                T *t = &L(m.get());
                if (how == 0) { std::unique_ptr<T> p(t); }
                else if (how == 1) { std::shared_ptr<T> p(t), p2 = p, p3(p2); }
                else if (how == 2) { std::vector<std::unique_ptr<T>> v; v.emplace_back(t); v.clear(); }
                else { struct Holder { T *t; ~Holder() { delete t; } }; Holder h{t}; }
                MC_CHECK(ran == (stub == 2 ? k + 1 : 0), "the destructor action ran %d times after %d deletions", ran, k + 1);
            }
            if (stub) MC_CHECK((bool) Verify(Dtor(m)).Exactly(owners), "%d deletions", owners);
            mc::outcome(stub ? "counted" : "ignored");
        }
        if (heap::live() != before && rounds++ < 2) { before = heap::live(); goto again; }
        MC_CHECK(heap::live() == before, "%ld blocks left", heap::live() - before);
        mc::step(how * 100 + stub * 10 + owners);
    }
    // an existing object with a stubbed destructor survives being deleted
    struct Holder : NonPure { int value = 42; std::string text = "some text longer than the small buffer"; };
    void spaceObject() {
        int depth = mc::bound(6, 8);
        std::vector<int> ops;
        for (int i = 0; i < depth; i++) {
            ops.push_back(mc::choose(6));
            static const char *n[] = {"delete", "Fake(Dtor)", "Dtor = action", "stub f", "f", "reset"};
            MC_LOG("%s", n[ops.back()]);
        }
        realDtors = 0;
        {
            fk::QuietAdapter q;
            std::unique_ptr<Holder> real(new Holder());
            {
                Mock<NonPure> m(*real);
                std::vector<int> kinds;
                int ran = 0, want = 0, n = 0;
                bool stubbed = false;
                for (int o : ops) {
                    if (o == 0) {
                        if (kinds.empty()) throw mc::Prune{};
                        if (kinds.back() == 2) want++;
                        n++;
                        delete &L(m.get());
                        MC_CHECK(ran == want, "the destructor action ran %d times instead of %d", ran, want);
                    } else if (o == 1) { Fake(Dtor(m)); kinds.push_back(1); }
                    else if (o == 2) { Dtor(m) = [&] { ran++; }; kinds.push_back(2); }
                    else if (o == 3) { When(Method(m, f)).AlwaysReturn(77); stubbed = true; }
                    else if (o == 4) MC_CHECK(L(m.get()).f(3) == (stubbed ? 77 : 3), "f");
                    else { m.Reset(); kinds.clear(); stubbed = false; n = 0; }
                    MC_CHECK(realDtors == 0 && real->value == 42 && real->text[0] == 's', "the object was damaged");
                    MC_CHECK(L(m.get()).f(3) == (stubbed ? 77 : 3), "f afterwards");
                    if (!kinds.empty()) MC_CHECK((bool) Verify(Dtor(m)).Exactly(n), "%d deletions", n);
                }
                if (n) mc::outcome("deleted");
            }
            MC_CHECK(realDtors == 0 && L(static_cast<NonPure &>(*real)).f(4) == 4, "the object after its mock");
        }
        MC_CHECK(realDtors == 1, "the object was destroyed %d times", realDtors);
        uint64_t h = 1;
        for (int o : ops) { h = mc::mix(h, o); mc::step(h); }
    }
    // many deletions
    void spaceMany() {
        fk::QuietAdapter q;
        static const int counts[] = {0, 1, 2, 9, 10, 11, 49, 50, 51, 99, 100, 127, 128, 255, 256, 257, 1000};
        int n = counts[mc::choose(17)], clearAt = mc::choose(3);
        int ran = 0;
        Mock<Middle> m;
        When(Dtor(m)).AlwaysDo([&] { ran++; });
        When(Method(m, f)).AlwaysReturn(5);
        for (int i = 0; i < n; i++) {
            delete &L(m.get());
            MC_CHECK(ran == i + 1, "deletion %d", i);
            if (clearAt == 1 && i == n / 2) m.ClearInvocationHistory();
            MC_CHECK(L(m.get()).f(i) == 5, "f after a deletion");
        }
        if (clearAt != 1) MC_CHECK((bool) Verify(Dtor(m)).Exactly(n) && (bool) Verify(Dtor(m) + Method(m, f)).Exactly(n), "%d deletions", n);
        else if (n) MC_CHECK((bool) Verify(Dtor(m)).Exactly(n - n / 2 - 1) && (bool) Verify(Method(m, f)).Exactly(n - n / 2), "%d deletions", n);
        mc::step(n * 10 + clearAt);
        mc::outcome("counted");
    }
    // the destructor behind any number of other methods
    template<int N> struct Chain : Chain<N - 1> {
        virtual int p(std::integral_constant<int, N> *) { return N; }
    };
    template<> struct Chain<0> {};
    template<int N> struct Behind : Chain<N> {
        virtual ~Behind() {}
        virtual int f(int) = 0;
        virtual int g(int) = 0;
    };
#define BEHIND(N) \
    void behind##N() { \
        fk::QuietAdapter q; \
        int how = mc::choose(5), n = 1 + mc::choose(3), ran = 0; \
        Mock<Behind<N>> m; \
        Behind<N> &o = L(m.get()); \
        When(Method(m, f)).AlwaysReturn(5); \
        if (how == 0 || how == 4) When(Dtor(m)).AlwaysDo([&] { ran++; }); \
        if (how == 1) Fake(Dtor(m)); \
        if (how == 2) Dtor(m) = [&] { ran++; }; \
        if (how == 4) { m.Reset(); When(Method(m, f)).AlwaysReturn(5); } \
        for (int i = 0; i < n; i++) { \
            delete &o; \
            MC_CHECK(ran == (how == 0 || how == 2 ? i + 1 : 0), "%d methods before the destructor, way %d: deletion %d ran the action %d times", N, how, i, ran); \
            MC_CHECK(o.f(i) == 5, "%d methods before the destructor, way %d: f after a deletion", N, how); \
            mc::step(N * 100 + how * 10 + i); \
        } \
        if (how < 3) MC_CHECK((bool) Verify(Dtor(m)).Exactly(n) && (bool) Verify(Dtor(m) + Method(m, f)).Exactly(n), "%d methods before the destructor, way %d: not %d deletions", N, how, n); \
        bool failed = false; \
        try { o.g(1); } catch (UnexpectedMethodCallException &) { failed = true; } \
        MC_CHECK(failed, "g"); \
        mc::outcome("counted"); \
    }
#define POSITIONS(F) F(0) F(1) F(2) F(3) F(4) F(5) F(7) F(8) F(9) F(15) F(16) F(17) F(31) F(32) F(33) F(63) F(64) F(65) F(99) F(100) F(127) F(128) F(129) F(199) F(200) F(201) F(254) F(255) F(256) F(257) F(300) F(400)
    POSITIONS(BEHIND)
    void spacePositions() {
#define NAME(N) behind##N,
        static void (*const all[])() = {POSITIONS(NAME)};
        all[mc::choose(sizeof all / sizeof *all)]();
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 2;
        o.mandatory = {"deleted"};
#ifdef __SANITIZE_ADDRESS__
        o.bound = "all sequences of 4 (5) of 13 operations, under address sanitizer";
        int q = 4, t = 5;
#else
        o.bound = "all sequences of 5 (6) of 13 operations: deletions, stubbings of the destructor, other calls, verification, clear, reset, destruction";
        int q = 5, t = 6;
#endif
#define SPACE(N, ...) mc::add(N, o, [q, t] { space<__VA_ARGS__>(mc::bound(q, t)); });
        SPACE("destructor in the middle", Middle)
        SPACE("destructor first", First)
        SPACE("destructor last", Last)
        SPACE("class with data", WithData)
        SPACE("inherited destructor", ImplicitDtor)
        SPACE("inherited destructor, through base", ImplicitDtor, First)
        SPACE("overridden destructor", DtorOfDerived)
        SPACE("overridden destructor, through base", DtorOfDerived, Middle)
        SPACE("class without pure methods", NonPure)
        SPACE("two levels", Deep, Middle)
        SPACE("many methods", Many)
        o.bound = "all sequences of 3 (4) operations while an exception propagates or in a catch block";
        mc::add("places, middle", o, [] { fk::Place p(1 + mc::choose(2)); space<Middle>(mc::bound(3, 4)); });
        mc::add("places, first", o, [] { fk::Place p(1 + mc::choose(2)); space<First>(mc::bound(3, 4)); });
        mc::add("places, derived", o, [] { fk::Place p(1 + mc::choose(2)); space<DtorOfDerived, Middle>(mc::bound(3, 4)); });
        o.bound = "all sequences of the operations that do not need methods";
        SPACE("destructor only", Only)
        o.bound = "all sequences of 6 (8) of deletions, stubbings, calls and resets of a mocked existing object";
        mc::add("existing object", o, spaceObject);
        o.mandatory = {"counted", "ignored"};
        o.bound = "unique_ptr, shared_ptr, vector and class members owning the instance, up to 3 deletions, 3 stubbings";
        mc::add("owned middle", o, spaceOwned<Middle>);
        mc::add("owned first", o, spaceOwned<First>);
        mc::add("owned derived", o, spaceOwned<DtorOfDerived>);
        mc::add("owned only", o, spaceOwned<Only>);
        o.mandatory = {"counted"};
        o.bound = "0 to 1000 deletions";
        mc::add("many deletions", o, spaceMany);
        o.bound = "0 to 400 methods declared before the destructor (32 numbers), 5 ways to stub it or not, 1..3 deletions";
        mc::add("positions", o, spacePositions);
    });
}
