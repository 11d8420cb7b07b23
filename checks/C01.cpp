// C01: a call is answered by the newest stub whose argument condition accepts it.
#include "fk.hpp"
#include "heap.hpp"
using namespace fakeit;
using fk::L;

namespace {
    struct I {
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual ~I() {}
    };
    struct Obj : I {  // original used by Spy forms
        int f(int a) override { return 1000 + a; }
        int g(int a) override { return 2000 + a; }
    };

    // ---------------- reference model -----------------
    enum Cond { ANY, EQ1, EQ2, LT2, GE2, NCOND };
    bool accepts(int c, int a) {
        switch (c) {
            case ANY: return true;
            case EQ1: return a == 1;
            case EQ2: return a == 2;
            case LT2: return a < 2;
            case GE2: return a >= 2;
        }
        return false;
    }
    const int UNEXPECTED = -99, INF = 1 << 20, THROWN = 5000;
    struct Stub {
        int cond, uses, id;
        int kind;  // 0 fixed id, 1 id+arg
    };
    struct Method_ {
        std::vector<Stub> stubs;
        int original = UNEXPECTED;  // result base of an unmocked method
        int call(int a) {
            for (size_t i = stubs.size(); i-- > 0;)
                if (accepts(stubs[i].cond, a)) {
                    Stub &s = stubs[i];
                    if (s.uses == 0) return UNEXPECTED;
                    if (s.uses < INF) s.uses--;
                    return s.kind ? s.id + a : s.id;
                }
            if (stubs.empty() && original != UNEXPECTED) return original + a;
            return UNEXPECTED;
        }
        uint64_t hash(uint64_t h) const {
            for (auto &s : stubs) h = mc::mix(mc::mix(h, s.cond * 31 + (s.uses > 3 ? 9 : s.uses)), s.kind);
            return mc::mix(h, 77);
        }
    };

    template<class F>
    int observe(F f) {
        try {
            return f();
        } catch (UnexpectedMethodCallException &) {
            return UNEXPECTED;
        } catch (int e) {
            return e;
        }
    }

    void compare(const char *what, int a, int got, int want) {
        MC_LOG("call %s(%d) -> %d (model %d)", what, a, got, want);
        mc::outcome(want == UNEXPECTED ? "unexpected" : "answered");
        MC_CHECK(got == want, "%s(%d) returned %d, the newest accepting stub says %d (-99: unexpected)", what, a, got, want);
    }

    // ---------------- space 1: selection -----------------
    void regF(Mock<I> &m, int cond, int life, int id) {
        switch (cond * 3 + life) {
            case 0: When(Method(m, f)).Return(id); break;
            case 1: When(Method(m, f)).Return(id, id); break;
            case 2: When(Method(m, f)).AlwaysReturn(id); break;
            case 3: When(Method(m, f).Using(1)).Return(id); break;
            case 4: When(Method(m, f).Using(1)).Return(2_Times(id)); break;
            case 5: When(Method(m, f).Using(1)).AlwaysReturn(id); break;
            case 6: When(Method(m, f)(2)).Return(id); break;
            case 7: When(Method(m, f)(2)).Return(id).Return(id); break;
            case 8: When(Method(m, f)(2)).AlwaysReturn(id); break;
            case 9: When(Method(m, f).Matching([](int a) { return a < 2; })).Return(id); break;
            case 10: When(Method(m, f).Matching([](int a) { return a < 2; })).Return(id, id); break;
            case 11: When(Method(m, f).Matching([](int a) { return a < 2; })).AlwaysReturn(id); break;
            case 12: When(Method(m, f).Using(Ge(2))).Return(id); break;
            case 13: When(Method(m, f).Using(Ge(2))).Return(2_Times(id)); break;
            case 14: When(Method(m, f).Using(Ge(2))).AlwaysReturn(id); break;
        }
    }
    const char *condName[] = {"any", "==1", "==2", "<2", ">=2"};

    void spaceSelect() {
        Mock<I> m;
        I &o = L(m.get());
        Method_ mf, mg;
        int D = mc::bound(5, 6), id = 10;
        for (int d = 0; d < D; d++) {
            // 0 stop; 1..15 register f; 16..18 call f(1..3); 19 register g; 20 call g
            int op = mc::choose(d == 0 ? 17 : 21);
            if (d == 0 && op > 15) op = 19;
            if (op == 0) break;
            if (op <= 15) {
                int c = (op - 1) / 3, life = (op - 1) % 3;
                id++;
                MC_LOG("stub f cond %s uses %s -> %d", condName[c], life == 0 ? "1" : life == 1 ? "2" : "always", id);
                regF(m, c, life, id);
                mf.stubs.push_back({c, life == 2 ? INF : life + 1, id, 0});
            } else if (op <= 18) {
                int a = op - 15;
                compare("f", a, observe([&] { return o.f(a); }), mf.call(a));
            } else if (op == 19) {
                id++;
                MC_LOG("stub g any once -> %d", id);
                When(Method(m, g)).Return(id);
                mg.stubs.push_back({ANY, 1, id, 0});
            } else {
                compare("g", 1, observe([&] { return o.g(1); }), mg.call(1));
            }
            mc::step(mg.hash(mf.hash(1)));
        }
        // observe everything that is left
        for (int r = 0; r < 3; r++) {
            for (int a = 1; a <= 3; a++) compare("f", a, observe([&] { return o.f(a); }), mf.call(a));
            compare("g", 1, observe([&] { return o.g(1); }), mg.call(1));
            mc::step(mg.hash(mf.hash(1)));
        }
    }

    // ---------------- space 2: registration forms -----------------
    const int NFORMS = 42;
    // Registers a stub on f (and for some forms g); returns the description.
    void regForm(Mock<I> &m, int form, int id, Method_ &mf, Method_ &mg) {
        auto F = [&](int cond, int uses, int i, int kind = 0) { mf.stubs.push_back({cond, uses, i, kind}); };
        auto G = [&](int cond, int uses, int i, int kind = 0) { mg.stubs.push_back({cond, uses, i, kind}); };
        int one = 1, two = 2;
        switch (form) {
            case 0: When(Method(m, f)).Return(id); F(ANY, 1, id); break;
            case 1: When(Method(m, f)).AlwaysReturn(id); F(ANY, INF, id); break;
            case 2: When(Method(m, f)(1)).Return(id); F(EQ1, 1, id); break;
            case 3: When(Method(m, f)(two)).AlwaysReturn(id); F(EQ2, INF, id); break;
            case 4: When(Method(m, f).Using(one)).Return(id); F(EQ1, 1, id); break;
            case 5: When(Method(m, f).Using(2)).AlwaysReturn(id); F(EQ2, INF, id); break;
            case 6: When(Method(m, f).Matching([one](int a) { return a == one; })).Return(id); F(EQ1, 1, id); break;
            case 7: When(Method(m, f)([](int a) { return a >= 2; })).Return(id); F(GE2, 1, id); break;
            case 8: When(Method(m, f).Using(_)).Return(id); F(ANY, 1, id); break;
            case 9: When(Method(m, f).Using(Any<int>())).AlwaysReturn(id); F(ANY, INF, id); break;
            case 10: When(Method(m, f).Using(Any())).Return(id); F(ANY, 1, id); break;
            case 11: When(Method(m, f).Using(Eq(1))).Return(id); F(EQ1, 1, id); break;
            case 12: When(Method(m, f).Using(Lt(2))).Return(id); F(LT2, 1, id); break;
            case 13: When(Method(m, f).Using(Gt(1))).AlwaysReturn(id); F(GE2, INF, id); break;
            case 14: Method(m, f) = id; F(ANY, INF, id); break;
            case 15: Method(m, f).Using(1) = id; F(EQ1, INF, id); break;
            case 16: Method(m, f)(2) = id; F(EQ2, INF, id); break;
            case 17: Method(m, f) = [id](int a) { return id + a; }; F(ANY, INF, id, 1); break;
            case 18: Method(m, f).Using(1) = [id](int a) { return id + a; }; F(EQ1, INF, id, 1); break;
            case 19: Method(m, f).Matching([](int a) { return a < 2; }) = [id](int a) { return id + a; }; F(LT2, INF, id, 1); break;
            case 20: Fake(Method(m, f)); F(ANY, INF, 0); break;
            case 21: Fake(Method(m, f).Using(1)); F(EQ1, INF, 0); break;
            case 22: Fake(Method(m, f)(2)); F(EQ2, INF, 0); break;
            case 23: Fake(Method(m, f), Method(m, g)); F(ANY, INF, 0); G(ANY, INF, 0); break;
            case 24: Fake(Method(m, g), Method(m, f).Using(1)); G(ANY, INF, 0); F(EQ1, INF, 0); break;
            case 25: Spy(Method(m, f)); F(ANY, INF, 1000, 1); break;
            case 26: Spy(Method(m, f).Using(1)); F(EQ1, INF, 1000, 1); break;
            case 27: Spy(Method(m, f), Method(m, g)); F(ANY, INF, 1000, 1); G(ANY, INF, 2000, 1); break;
            case 28: SpyWithoutVerify(Method(m, f)); F(ANY, INF, 1000, 1); break;
            case 29: SpyWithoutVerify(Method(m, f)(2), Method(m, g)); F(EQ2, INF, 1000, 1); G(ANY, INF, 2000, 1); break;
            case 30: When(Method(m, f)).Do([id](int a) { return id + a; }); F(ANY, 1, id, 1); break;
            case 31: When(Method(m, f)(1)).AlwaysDo([id](int a) { return id + a; }); F(EQ1, INF, id, 1); break;
            case 32: When(Method(m, f)).Throw(THROWN + id); F(ANY, 1, THROWN + id); break;
            case 33: When(Method(m, f).Using(Ge(2))).AlwaysThrow(THROWN + id); F(GE2, INF, THROWN + id); break;
            case 34: When(Method(m, f)).Return(id, id); F(ANY, 2, id); break;
            case 35: { auto x = Method(m, f).Using(1); When(x).Return(id); F(EQ1, 1, id); break; }
            case 36: { auto x = Method(m, f).Using(Ge(2)); Fake(x); F(GE2, INF, 0); break; }
            case 37: When(OverloadedMethod(m, f, int(int))).Return(id); F(ANY, 1, id); break;
            case 38: When(OverloadedMethod(m, f, int(int)).Using(2)).AlwaysReturn(id); F(EQ2, INF, id); break;
            case 39: When(Method(m, g)).Return(id); G(ANY, 1, id); break;
            case 40: When(Method(m, g)(2)).AlwaysReturn(id); G(EQ2, INF, id); break;
            case 41: When(Method(m, f)).AlwaysReturn(); F(ANY, INF, 0); break;
        }
    }
    void forms(bool spied, int N) {
        Obj real;
        std::unique_ptr<Mock<I>> mp(spied ? new Mock<I>(real) : new Mock<I>());
        Mock<I> &m = *mp;
        Method_ mf, mg;
        if (spied) { mf.original = 1000; mg.original = 2000; }
        int id = 100;
        for (int n = 0; n < N; n++) {
            int form = mc::choose(NFORMS);
            if (!spied && form >= 25 && form <= 29) mc::prune();  // Spy needs an object
            id += 10;
            MC_LOG("registration form %d, id %d", form, id);
            regForm(m, form, id, mf, mg);
            mc::step(mg.hash(mf.hash(2)));
            int call = mc::choose(3);
            I &o = L(m.get());
            if (call) { compare("f", call, observe([&] { return o.f(call); }), mf.call(call)); }
        }
        I &o = L(m.get());
        for (int r = 0; r < 2; r++) {
            for (int a = 1; a <= 2; a++) compare("f", a, observe([&] { return o.f(a); }), mf.call(a));
            for (int a = 1; a <= 2; a++) compare("g", a, observe([&] { return o.g(a); }), mg.call(a));
        }
        compare("f", 3, observe([&] { return o.f(3); }), mf.call(3));
        mc::step(mg.hash(mf.hash(3)));
    }

    // ---------------- space 3: several mocks -----------------
    void spaceMocks() {
        Mock<I> ms[3];
        Method_ mod[3];
        int D = mc::bound(5, 6), id = 10;
        for (int d = 0; d < D; d++) {
            int op = mc::choose(13);
            if (op == 12) break;
            int k = op % 3, w = op / 3;
            I &o = L(ms[k].get());
            if (w < 2) {
                id++;
                MC_LOG("mock %d: stub %s -> %d", k, w ? "==1 always" : "any once", id);
                if (w == 0) { When(Method(ms[k], f)).Return(id); mod[k].stubs.push_back({ANY, 1, id, 0}); }
                else { When(Method(ms[k], f).Using(1)).AlwaysReturn(id); mod[k].stubs.push_back({EQ1, INF, id, 0}); }
            } else {
                int a = w - 1;
                compare("f", a, observe([&] { return o.f(a); }), mod[k].call(a));
            }
            mc::step(mod[2].hash(mod[1].hash(mod[0].hash(5))));
        }
        for (int r = 0; r < 2; r++)
            for (int k = 0; k < 3; k++)
                for (int a = 1; a <= 2; a++) {
                    I &o = L(ms[k].get());
                    compare("f", a, observe([&] { return o.f(a); }), mod[k].call(a));
                }
    }

    // ---------------- space 4: many stubs -----------------
    void spaceScale() {
        static const int sizes[] = {1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400};
        int n = sizes[mc::choose(sizeof sizes / sizeof *sizes)];
        int pattern = mc::choose(4);
        int order = mc::choose(2);
        Mock<I> m;
        I &o = L(m.get());
        struct S { int lo, hi, uses, id; };
        std::vector<S> model;
        for (int i = 0; i < n; i++) {
            int id = 10000 + i;
            if (pattern == 0) { When(Method(m, f).Using(i)).AlwaysReturn(id); model.push_back({i, i, INF, id}); }
            if (pattern == 1) { When(Method(m, f)).Return(id); model.push_back({-INF, INF, 1, id}); }
            if (pattern == 2) { When(Method(m, f).Using(Ge(i))).AlwaysReturn(id); model.push_back({i, INF, INF, id}); }
            if (pattern == 3) { When(Method(m, f).Using(Le(n - i))).Return(id); model.push_back({-INF, n - i, 1, id}); }
        }
        for (int k = 0; k <= n; k++) {
            int a = order ? n - k : k;
            int want = UNEXPECTED;
            for (size_t i = model.size(); i-- > 0;)
                if (model[i].lo <= a && a <= model[i].hi) {
                    if (model[i].uses) { want = model[i].id; if (model[i].uses < INF) model[i].uses--; }
                    break;
                }
            compare("f", a, observe([&] { return o.f(a); }), want);
            mc::step(mc::mix(mc::mix(n, pattern), k));
        }
    }

    // ---------------- space 5: method shapes -----------------
    // Every shape offers: stub(m, cond, always, id), call(m, a) -> id or UNEXPECTED
    struct Big {
        long a[6];
        bool operator==(const Big &o) const { return a[0] == o.a[0]; }
    };
    struct J {
        virtual ~J() {}
        virtual void v(int) = 0;
        virtual int &r(int) = 0;
        virtual std::unique_ptr<int> u(int) = 0;
        virtual int s(const std::string &) = 0;
        virtual int three(int, const std::string &, double) = 0;
        virtual int c(int) const = 0;
        virtual int none() = 0;
        virtual int mv(std::unique_ptr<int>) = 0;
        virtual double d(double) = 0;
        virtual int big(Big) = 0;
        virtual int ref(int &) = 0;
        virtual int ptr(const int *) = 0;
        virtual int rr(int &&) = 0;
    };
    int gVoid;
    int pool[64];
    bool cacc(int c, int a) { return accepts(c, a); }

#define SHAPE_COND(M, ARG1, ARG2, PRED)                                              \
    switch (c) {                                                                     \
        case ANY: SHAPE_DO(M); break;                                                \
        case EQ1: SHAPE_DO(M.Using ARG1); break;                                     \
        case EQ2: SHAPE_DO(M.Using ARG2); break;                                     \
        default: SHAPE_DO(M.Matching(PRED)); break;                                  \
    }

    const int NSHAPES = 13;
    void stubShape(Mock<J> &m, int shape, int c, bool always, int id) {
        switch (shape) {
            case 0: {
#define SHAPE_DO(X) if (always) When(X).AlwaysDo([id](int) { gVoid = id; }); else When(X).Do([id](int) { gVoid = id; })
                SHAPE_COND(Method(m, v), (1), (2), [c](int a) { return cacc(c, a); })
#undef SHAPE_DO
            } break;
            case 1: {
                pool[id] = id;
#define SHAPE_DO(X) if (always) When(X).AlwaysReturn(pool[id]); else When(X).Return(pool[id])
                SHAPE_COND(Method(m, r), (1), (2), [c](int a) { return cacc(c, a); })
#undef SHAPE_DO
            } break;
            case 2: {
#define SHAPE_DO(X) if (always) When(X).AlwaysDo([id](int) { return std::unique_ptr<int>(new int(id)); }); else When(X).Return(std::unique_ptr<int>(new int(id)))
                SHAPE_COND(Method(m, u), (1), (2), [c](int a) { return cacc(c, a); })
#undef SHAPE_DO
            } break;
#define SHAPE_DO(X) if (always) When(X).AlwaysReturn(id); else When(X).Return(id)
            case 3: SHAPE_COND(Method(m, s), (std::string("1")), (std::string("2")), [c](const std::string &a) { return cacc(c, a[0] - '0'); }) break;
            case 4: SHAPE_COND(Method(m, three), (1, std::string("1"), _), (2, std::string("2"), 2.0), [c](int a, const std::string &, double) { return cacc(c, a); }) break;
            case 5: SHAPE_COND(Method(m, c), (1), (2), [c](int a) { return cacc(c, a); }) break;
            case 6: SHAPE_DO(Method(m, none)); break;
            case 7: SHAPE_DO(Method(m, mv).Matching([c](std::unique_ptr<int> &p) { return cacc(c, *p); })); break;
            case 8: SHAPE_COND(Method(m, d), (1.0), (2.0), [c](double a) { return cacc(c, (int) a); }) break;
            case 9: SHAPE_COND(Method(m, big), (Big{{1}}), (Big{{2}}), [c](const Big &b) { return cacc(c, (int) b.a[0]); }) break;
            case 10: SHAPE_COND(Method(m, ref), (1), (2), [c](int &a) { return cacc(c, a); }) break;
            case 11: SHAPE_DO(Method(m, ptr).Matching([c](const int *p) { return cacc(c, *p); })); break;
            case 12: SHAPE_DO(Method(m, rr).Matching([c](int &a) { return cacc(c, a); })); break;
#undef SHAPE_DO
        }
    }
    int callShape(J &o, int shape, int a) {
        switch (shape) {
            case 0: gVoid = -1; o.v(a); return gVoid;
            case 1: return o.r(a);
            case 2: return *o.u(a);
            case 3: return o.s(std::to_string(a));
            case 4: return o.three(a, std::to_string(a), a);
            case 5: return static_cast<const J &>(o).c(a);
            case 6: return o.none();
            case 7: return o.mv(std::unique_ptr<int>(new int(a)));
            case 8: return (int) o.d(a);
            case 9: { Big b = {{a, 2, 3, 4, 5, 6}}; return o.big(b); }
            case 10: { int x = a; return o.ref(x); }
            case 11: return o.ptr(&a);
            case 12: return o.rr(std::move(a));
        }
        return 0;
    }
    void spaceShapes() {
        int shape = mc::choose(NSHAPES);
        Mock<J> m;
        J &o = L(m.get());
        Method_ mod;
        int D = mc::bound(3, 4), id = 10;
        for (int d = 0; d < D; d++) {
            int op = mc::choose(shape == 6 ? 4 : 12);
            if (op < 2) {
                int a = op + 1;
                if (mod.stubs.empty()) mc::prune();  // unexpected-by-absence is C03
                compare("shape", a, observe([&] { return callShape(o, shape, a); }), mod.call(a));
            } else {
                int c = (op - 2) / 2;
                bool always = (op - 2) % 2;
                id++;
                MC_LOG("shape %d: stub cond %s %s -> %d", shape, condName[c], always ? "always" : "once", id);
                stubShape(m, shape, c, always, id);
                mod.stubs.push_back({c, always ? INF : 1, id, 0});
            }
            mc::step(mod.hash(mc::mix(6, shape)));
        }
        if (mod.stubs.empty()) return;
        for (int r = 0; r < 2; r++)
            for (int a = 1; a <= 3; a++) compare("shape", a, observe([&] { return callShape(o, shape, a); }), mod.call(a));
    }

    // ---------------- space 6: stubbing from inside an action, between calls -----------------
    void spaceNested() {
        // An action of the stub being run registers a new stub (same or other method) and calls.
        Mock<I> m;
        I &o = L(m.get());
        Method_ mf, mg;
        int where = mc::choose(2), cond = mc::choose(3), life = mc::choose(2), callInside = mc::choose(3), outerCond = mc::choose(2), outerLife = mc::choose(2);
        auto reg = [&] {
            int id = 50;
            if (where == 0) {
                if (cond == 0) { if (life) When(Method(m, f)).AlwaysReturn(id); else When(Method(m, f)).Return(id); }
                if (cond == 1) { if (life) When(Method(m, f)(1)).AlwaysReturn(id); else When(Method(m, f)(1)).Return(id); }
                if (cond == 2) { if (life) When(Method(m, f)(2)).AlwaysReturn(id); else When(Method(m, f)(2)).Return(id); }
                mf.stubs.push_back({cond, life ? INF : 1, id, 0});
            } else {
                if (cond == 0) { if (life) When(Method(m, g)).AlwaysReturn(id); else When(Method(m, g)).Return(id); }
                if (cond == 1) { if (life) When(Method(m, g)(1)).AlwaysReturn(id); else When(Method(m, g)(1)).Return(id); }
                if (cond == 2) { if (life) When(Method(m, g)(2)).AlwaysReturn(id); else When(Method(m, g)(2)).Return(id); }
                mg.stubs.push_back({cond, life ? INF : 1, id, 0});
            }
        };
        bool first = true;
        int inner = 0, innerWant = 0;
        auto body = [&](int) {
            if (first) {
                first = false;
                reg();
                if (callInside == 1) { innerWant = where ? mg.call(1) : mf.call(1); inner = observe([&] { return where ? o.g(1) : o.f(1); }); }
                if (callInside == 2) { innerWant = where ? mg.call(2) : mf.call(2); inner = observe([&] { return where ? o.g(2) : o.f(2); }); }
            }
            return 20;
        };
        if (outerCond) { if (outerLife) When(Method(m, f)(1)).AlwaysDo(body); else When(Method(m, f)(1)).Do(body).Return(21); }
        else { if (outerLife) When(Method(m, f)).AlwaysDo(body); else When(Method(m, f)).Do(body).Return(21); }
        int outerUses = outerLife ? INF : 2;
        mf.stubs.push_back({outerCond ? EQ1 : ANY, outerUses, 20, 0});
        // model of the outer call: the use is taken before the action runs
        if (!outerLife) mf.stubs[0].uses--;
        auto fix = [&](int want) { return want == 20 && !outerLife ? 21 : want; };
        int got = observe([&] { return o.f(1); });
        compare("f", 1, got, 20);
        if (callInside) compare("inner", callInside, inner, fix(innerWant));
        for (int r = 0; r < 3; r++)
            for (int a = 1; a <= 2; a++) {
                compare("f", a, observe([&] { return o.f(a); }), fix(mf.call(a)));
                compare("g", a, observe([&] { return o.g(a); }), mg.call(a));
                mc::step(mg.hash(mf.hash(8)));
            }
    }

    // ---- several methods registered by one statement ----
    struct Listed {
        virtual int a0(int x) { return 1000 + x; }
        virtual int a1(int x) { return 2000 + x; }
        virtual int a2(int x) { return 3000 + x; }
        virtual int a3(int x) { return 4000 + x; }
        virtual int a4(int x) { return 5000 + x; }
        virtual int a5(int x) { return 6000 + x; }
        virtual int a6(int x) { return 7000 + x; }
        virtual int a7(int x) { return 8000 + x; }
        virtual int a8(int x) { return 9000 + x; }
        virtual int a9(int x) { return 10000 + x; }
        virtual int a10(int x) { return 11000 + x; }
        virtual int a11(int x) { return 12000 + x; }
        virtual int a12(int x) { return 13000 + x; }
        virtual int a13(int x) { return 14000 + x; }
        virtual int a14(int x) { return 15000 + x; }
        virtual int a15(int x) { return 16000 + x; }
        virtual int a16(int x) { return 17000 + x; }
        virtual int a17(int x) { return 18000 + x; }
        virtual int a18(int x) { return 19000 + x; }
        virtual int a19(int x) { return 20000 + x; }
        virtual ~Listed() {}
    };
    int callListed(Listed &o, int k, int x) {
        switch (k) {
            case 0: return o.a0(x);
            case 1: return o.a1(x);
            case 2: return o.a2(x);
            case 3: return o.a3(x);
            case 4: return o.a4(x);
            case 5: return o.a5(x);
            case 6: return o.a6(x);
            case 7: return o.a7(x);
            case 8: return o.a8(x);
            case 9: return o.a9(x);
            case 10: return o.a10(x);
            case 11: return o.a11(x);
            case 12: return o.a12(x);
            case 13: return o.a13(x);
            case 14: return o.a14(x);
            case 15: return o.a15(x);
            case 16: return o.a16(x);
            case 17: return o.a17(x);
            case 18: return o.a18(x);
            case 19: return o.a19(x);
        }
        return -1;
    }
    template<int FORM> void registerListed(Mock<Listed> &m, int n) {
#define LIST(...) if (FORM == 0) Fake(__VA_ARGS__); else if (FORM == 1) Spy(__VA_ARGS__); else SpyWithoutVerify(__VA_ARGS__); break;
        switch (n) {
            case 1: LIST(Method(m, a0))
            case 2: LIST(Method(m, a0), Method(m, a1))
            case 3: LIST(Method(m, a0), Method(m, a1), Method(m, a2))
            case 4: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3))
            case 5: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4))
            case 6: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5))
            case 7: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5), Method(m, a6))
            case 8: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5), Method(m, a6), Method(m, a7))
            case 9: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5), Method(m, a6), Method(m, a7), Method(m, a8))
            case 10: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5), Method(m, a6), Method(m, a7), Method(m, a8), Method(m, a9))
            case 12: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5), Method(m, a6), Method(m, a7), Method(m, a8), Method(m, a9), Method(m, a10), Method(m, a11))
            case 16: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5), Method(m, a6), Method(m, a7), Method(m, a8), Method(m, a9), Method(m, a10), Method(m, a11), Method(m, a12), Method(m, a13), Method(m, a14), Method(m, a15))
            case 17: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5), Method(m, a6), Method(m, a7), Method(m, a8), Method(m, a9), Method(m, a10), Method(m, a11), Method(m, a12), Method(m, a13), Method(m, a14), Method(m, a15), Method(m, a16))
            case 20: LIST(Method(m, a0), Method(m, a1), Method(m, a2), Method(m, a3), Method(m, a4), Method(m, a5), Method(m, a6), Method(m, a7), Method(m, a8), Method(m, a9), Method(m, a10), Method(m, a11), Method(m, a12), Method(m, a13), Method(m, a14), Method(m, a15), Method(m, a16), Method(m, a17), Method(m, a18), Method(m, a19))
        }
#undef LIST
    }
    // stubs added after any number of calls, verifications and clearings
    void spaceLate() {
        fk::QuietAdapter q;
        static const int ns[] = {0, 1, 2, 5, 9, 10, 16, 17, 32, 33, 50, 51, 64, 65, 100, 101, 128, 129, 256, 257, 1000};
        int n = ns[mc::choose(21)], between = mc::choose(4), kind = mc::choose(3);
        Mock<I> m;
        I &o = L(m.get());
        std::vector<int> stubbed;  // arguments, oldest first
        auto call = [&](int a) { try { return o.f(a); } catch (UnexpectedMethodCallException &) { return -99; } };
        auto all = [&](int round) {
            for (int a = 0; a < 8; a++) {
                int want = -99;
                for (int i = (int) stubbed.size() - 1; i >= 0; i--)
                    if (stubbed[i] == a || stubbed[i] == -1) { want = 100 * (i + 1); break; }
                int got = call(a);
                MC_CHECK(got == want, "%d calls before each stub, round %d: f(%d) gave %d instead of %d", n, round, a, got, want);
                mc::outcome(want == -99 ? "unexpected" : "answered");
            }
        };
        int at = 0;
        for (int a : {-1, 1, 2, 3, 2, kind == 0 ? -1 : 4, 5}) {
            if (kind == 2 && a == -1) a = 0;
            stubbed.push_back(a);
            int v = 100 * (int) stubbed.size();
            if (a == -1) When(Method(m, f)).AlwaysReturn(v); else When(Method(m, f).Using(a)).AlwaysReturn(v);
            all(at);
            for (int i = 0; i < n; i++) call(i % 9);
            if (between == 1) { bool some = Verify(Method(m, f)); MC_CHECK(some, "calls"); }
            if (between == 2) m.ClearInvocationHistory();
            if (between == 3) { VerifyNoOtherInvocations(m); q.events.clear(); }
            all(at++);
            mc::step(mc::mix(mc::mix(n, between), kind * 8 + at));
        }
        mc::outcome("answered");
    }
    void spaceLists() {
        static const int sizes[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 20};
        int n = sizes[mc::choose(14)], form = mc::choose(3);
        bool object = form || mc::flag(), before = mc::flag(), after = mc::flag();
        Listed real;
        std::unique_ptr<Mock<Listed>> pm(object ? new Mock<Listed>(real) : new Mock<Listed>());
        Mock<Listed> &m = *pm;
        fk::QuietAdapter q;
        if (before) { When(Method(m, a0).Using(1)).AlwaysReturn(-5); When(Method(m, a19).Using(1)).AlwaysReturn(-6); }
        if (form == 0) registerListed<0>(m, n);
        else if (form == 1) registerListed<1>(m, n);
        else registerListed<2>(m, n);
        if (after) { When(Method(m, a0).Using(2)).AlwaysReturn(-7); When(Method(m, a19).Using(2)).AlwaysReturn(-8); }
        for (int x = 1; x <= 3; x++) for (int k = 0; k < 20; k++) {
            int original = 1000 * (k + 1) + x, got, want;
            bool ends = k == 0 || k == 19, older = before && ends && x == 1 && k >= n;
            try { got = callListed(L(m.get()), k, x); } catch (UnexpectedMethodCallException &) { got = -99; }
            if (after && ends && x == 2) want = k ? -8 : -7;
            else if (k < n) want = form ? original : 0;
            else if (older) want = -6;
            else if (k == 19 && (before || after)) want = -99;
            else want = object ? original : -99;
            MC_CHECK(got == want, "%d methods in one statement (form %d): method %d called with %d gives %d instead of %d", n, form, k, x, got, want);
            mc::outcome(want == -99 ? "unexpected" : "answered");
            mc::step(mc::mix(mc::mix(mc::mix(n, form * 8 + object * 4 + before * 2 + after), k), x));
        }
    }

    void reg() {
        mc::Options o;
        o.mandatory = {"answered", "unexpected"};
        o.bound = "all sequences of up to 5 (thorough 6) stub registrations (5 conditions x once/twice/always on f, one on g) and calls f(1..3), g(1), then every method/argument called 3 times";
        mc::add("select", o, spaceSelect);
        o.bound = "all sequences of registrations over 42 registration forms, each optionally followed by a call, on a plain mock";
        mc::add("forms", o, [] { forms(false, mc::bound(3, 3)); });
        o.bound = "the same on a mock of an existing object, including Spy and SpyWithoutVerify";
        o.mandatory = {"answered"};
        mc::add("forms-spy", o, [] { forms(true, mc::bound(3, 3)); });
        o.mandatory = {"answered", "unexpected"};
        o.bound = "all sequences of up to 5 (6) registrations/calls over three mocks of one class";
        mc::add("mocks", o, spaceMocks);
        o.bound = "26 stub counts up to 400 x 4 condition layouts x 2 call orders";
        mc::add("scale", o, spaceScale);
        o.bound = "13 method shapes x all sequences of 3 (4) registrations (5 conditions x once/always) and calls";
        mc::add("shapes", o, spaceShapes);
        o.bound = "1 to 20 methods in one Fake, Spy or SpyWithoutVerify statement, with stubs before and after";
        mc::add("lists", o, spaceLists);
        o.bound = "7 stubs added one after another with up to 1000 calls (21 numbers), a verification or a clearing between them";
        mc::add("late", o, spaceLate);
        o.bound = "all ways to register one stub from inside a running action";
        o.mandatory = {"answered"};
        mc::add("nested", o, spaceNested);
    }
}
int main(int argc, char **argv) { return mc::main(argc, argv, reg); }
