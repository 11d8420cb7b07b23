// C11: the caller gets exactly the result, exception or default the action specifies.
#include "fk.hpp"
#include "heap.hpp"
#include <array>
#include <map>
using namespace fakeit;
using fk::L;

#ifndef PART
#define PART 0
#endif

namespace {
    struct Big {
        int v[25];
        bool operator==(const Big &o) const { return memcmp(v, o.v, sizeof v) == 0; }
    };
    struct Pair {
        float x;
        int y;
        bool operator==(const Pair &o) const { return x == o.x && y == o.y; }
    };
    struct Plain { int a; double b; char c[5]; void *p; };
    struct Preset { int a = 5; std::string s = "preset"; };
    struct NoDefault { int v; explicit NoDefault(int v_) : v(v_) {} bool operator==(const NoDefault &o) const { return v == o.v; } };
    struct Abstract { virtual int f() = 0; virtual ~Abstract() {} };
    struct Concrete : Abstract { int f() override { return 4; } };
    enum class E : short { a = -3, zero = 0, b = 7, c = 300 };
    using Fn = std::function<int()>;
    int cells[8];
    const char *texts[] = {"zero", "one", "two", "three", "four"};

    template<class T> struct Val;
    template<> struct Val<int> { static int make(int i) { static int v[] = {-1, 0x12345678, 0, 7, 9}; return v[i]; } };
    template<> struct Val<unsigned char> { static unsigned char make(int i) { return (unsigned char) (i * 100); } };
    template<> struct Val<double> { static double make(int i) { static double v[] = {-0.5, 1e300, 3.25, 1, 2}; return v[i]; } };
    template<> struct Val<float> { static float make(int i) { static float v[] = {-0.5f, 1e30f, 3.25f, 1, 2}; return v[i]; } };
    template<> struct Val<long double> { static long double make(int i) { return i / 3.0L; } };
    template<> struct Val<bool> { static bool make(int i) { return !(i & 1); } };
    template<> struct Val<long long> { static long long make(int i) { return (i - 1) * 0x123456789abcdLL; } };
    template<> struct Val<std::string> { static std::string make(int i) { return i == 1 ? "" : std::string(i * 20 + 1, 'a' + i); } };
    template<> struct Val<std::vector<int>> { static std::vector<int> make(int i) { return std::vector<int>(i, i * 3); } };
    template<> struct Val<std::map<int, std::string>> { static std::map<int, std::string> make(int i) { std::map<int, std::string> m; for (int k = 0; k < i; k++) m[k] = std::string(30, 'x'); return m; } };
    template<> struct Val<Big> { static Big make(int i) { Big b; for (int k = 0; k < 25; k++) b.v[k] = i * 100 + k; return b; } };
    template<> struct Val<Pair> { static Pair make(int i) { return {i + 0.5f, i * 1000}; } };
    template<> struct Val<NoDefault> { static NoDefault make(int i) { return NoDefault(i * 11); } };
    template<> struct Val<std::shared_ptr<int>> {
        static std::shared_ptr<int> make(int i) { static std::shared_ptr<int> v[] = {std::make_shared<int>(0), nullptr, std::make_shared<int>(2), std::make_shared<int>(3), std::make_shared<int>(4)}; return v[i]; }
    };
    template<> struct Val<int *> { static int *make(int i) { return i == 1 ? nullptr : &cells[i]; } };
    template<> struct Val<const char *> { static const char *make(int i) { return i == 1 ? nullptr : texts[i]; } };
    template<> struct Val<E> { static E make(int i) { return i == 0 ? E::a : i == 1 ? E::b : E::c; } };
    template<> struct Val<Fn> { static Fn make(int i) { return i == 1 ? Fn() : Fn([i] { return i; }); } };
    template<class T> bool is(const T &v, int i) { return v == Val<T>::make(i); }
    template<> bool is<Fn>(const Fn &v, int i) { return i == 1 ? !v : v && v() == i; }
    template<class T> bool isDefault(const T &v) { return v == T{}; }
    template<> bool isDefault<Fn>(const Fn &v) { return !v; }

    // ---- exceptions ----
    struct Boom { int v; std::string s; };
    struct Derived : std::runtime_error { int extra; Derived(int e) : std::runtime_error("a message of some length of derived"), extra(e) {} };
    enum { NEXC = 6 };
    const char *excName[] = {"int", "string", "runtime_error", "Derived", "Boom", "const char *"};
    template<class F> void withException(int k, F &&f) {
        switch (k) {
            case 0: f(4711); break;
            case 1: f(std::string("a thrown text that is too long for the small buffer")); break;
            case 2: f(std::runtime_error("a message of some length")); break;
            case 3: f(Derived(6)); break;
            case 4: f(Boom{8, "a text inside that is too long for the small buffer"}); break;
            default: f((const char *) texts[3]);
        }
    }
    // which of the exceptions is in flight; -1: none of them or damaged.  It is the caller's: changing it changes no other.
    int classify() {
        try { throw; }
        catch (int v) { return v == 4711 ? 0 : -1; }
        catch (std::string &s) { int r = s == "a thrown text that is too long for the small buffer" ? 1 : -1; s = "changed"; return r; }
        catch (Derived &d) { return typeid(d) == typeid(Derived) && d.extra == 6 && !strcmp(d.what(), "a message of some length of derived") ? (d.extra = 0, 3) : -1; }
        catch (std::runtime_error &r) { return typeid(r) == typeid(std::runtime_error) && !strcmp(r.what(), "a message of some length") ? 2 : -1; }
        catch (Boom &b) { int r = b.v == 8 && b.s == "a text inside that is too long for the small buffer" ? 4 : -1; b.v = 0; b.s.clear(); return r; }
        catch (const char *c) { return c == texts[3] ? 5 : -1; }
        catch (...) { return -1; }
    }

    struct Expect { enum What { VALUE, DEFAULT, EXCEPTION, UNEXPECTED } what; int k; };

    // ---- results by value of copyable types ----
    template<class T>
    struct Kind {
        struct I {
            virtual T f(int) = 0;
            virtual T g(int) = 0;
            virtual ~I() {}
        };
        static constexpr bool hasDefault = std::is_default_constructible<T>::value;

        template<class Call>
        static void expect(const Expect &e, const char *who, Call &&call) { fk::there([&] { expectHere(e, who, call); }); }
        template<class Call>
        static void expectHere(const Expect &e, const char *who, Call &&call) {
            int exc = -2;
            bool unexpected = false, noDefault = false;
            try {
                T r = call();
                MC_CHECK(e.what == Expect::VALUE || e.what == Expect::DEFAULT, "%s returned instead of throwing (%d)", who, e.what);
                if (e.what == Expect::VALUE) MC_CHECK(is<T>(r, e.k), "%s returned another value than #%d", who, e.k);
                if constexpr (hasDefault) if (e.what == Expect::DEFAULT) MC_CHECK(isDefault<T>(r), "%s returned another value than the default", who);
                r = Val<T>::make(4);  // results returned by value belong to the caller
                return;
            } catch (UnexpectedMethodCallException &) { unexpected = true; }
            catch (DefaultValueInstatiationException &) { noDefault = true; }
            catch (...) { exc = classify(); }
            if (e.what == Expect::UNEXPECTED) MC_CHECK(unexpected, "%s: exhausted stub", who);
            else if (e.what == Expect::DEFAULT) MC_CHECK(!hasDefault && noDefault, "%s: no default value", who);
            else MC_CHECK(e.what == Expect::EXCEPTION && exc == e.k, "%s: exception %d instead of %d (%d)", who, exc, e.k, e.what);
        }
        static void space() {
            fk::QuietAdapter q;
            Mock<I> m;
            std::vector<Expect> want;
            Expect last{Expect::UNEXPECTED, 0};
            const Expect def{Expect::DEFAULT, 0};
            int before = mc::choose(3);
            if (before == 1) When(Method(m, g)).AlwaysReturn(Val<T>::make(3));
            bool assigned = mc::flag();
            if (assigned) {
                T v = Val<T>::make(0);
                switch (mc::choose(3)) {
                    case 0: Method(m, f) = v; v = Val<T>::make(4); last = {Expect::VALUE, 0}; break;
                    case 1: Method(m, f) = [](int) { return Val<T>::make(2); }; last = {Expect::VALUE, 2}; break;
                    default: Fake(Method(m, f)); last = def;
                }
            } else {
              auto script = [&](auto &&when) {
                MethodStubbingProgress<T, int> *s = &when;
                int n = mc::choose(mc::bound(4, 5));
                for (int step = 0; step < n; step++) {
                    int i = step % 3, exc = (step * 2 + n) % NEXC;
                    T v = Val<T>::make(i), w = Val<T>::make(i + 1);
                    switch (mc::choose(9)) {
                        case 0: s = &s->Return(v); want.push_back({Expect::VALUE, i}); break;
                        case 1: s = &s->Return(Val<T>::make(i)); want.push_back({Expect::VALUE, i}); break;
                        case 2: s = &s->Return(v, w); want.push_back({Expect::VALUE, i}); want.push_back({Expect::VALUE, i + 1}); break;
                        case 3: s = &s->Return(2_Times(v)); want.push_back({Expect::VALUE, i}); want.push_back({Expect::VALUE, i}); break;
                        case 4: s = &s->Do([v](int) { return v; }); want.push_back({Expect::VALUE, i}); break;
                        case 5: {
                            int count = 0;
                            s = &s->Do(2_Times([count, v, w](int) mutable { return count++ ? w : v; }));
                            want.push_back({Expect::VALUE, i}); want.push_back({Expect::VALUE, i + 1});
                            break;
                        }
                        case 6: withException(exc, [&](auto e) { s = &s->Throw(e); e = decltype(e)(e); }); want.push_back({Expect::EXCEPTION, exc}); break;
                        case 7: withException(exc, [&](auto e) { s = &s->Do([e](int) -> T { throw e; }); }); want.push_back({Expect::EXCEPTION, exc}); break;
                        case 8: s = &s->Return(); want.push_back(def); break;
                    }
                    v = Val<T>::make(4);  // values count as they were when written
                    w = Val<T>::make(4);
                }
                T v = Val<T>::make(2);
                switch (n == 0 ? 1 + mc::choose(4) : mc::choose(5)) {
                    case 0: break;
                    case 1: s->AlwaysReturn(v); last = {Expect::VALUE, 2}; break;
                    case 2: withException(4, [&](auto e) { s->AlwaysThrow(e); }); last = {Expect::EXCEPTION, 4}; break;
                    case 3: s->AlwaysReturn(); last = def; break;
                    case 4: s->AlwaysDo([v](int) { return v; }); last = {Expect::VALUE, 2}; break;
                }
                v = Val<T>::make(4);
              };
              script(When(Method(m, f)));
            }
            if (before == 2) When(Method(m, g)).AlwaysReturn(Val<T>::make(3));
            fk::Place place(before ? 0 : mc::choose(3));
            for (size_t i = 0; i < want.size() + 3; i++) {
                Expect e = i < want.size() ? want[i] : last;
                expect(e, "f", [&] { return L(m.get()).f((int) i); });
                if (before) expect({Expect::VALUE, 3}, "g", [&] { return L(m.get()).g((int) i); });
                mc::outcome(e.what == Expect::VALUE ? "value" : e.what == Expect::DEFAULT ? "default" : e.what == Expect::EXCEPTION ? "exception" : "exhausted");
                mc::step(mc::mix(mc::mix(before, e.what * 8 + e.k), i));
            }
        }
        static void add(const char *name) {
            mc::Options o;
            o.shardDepth = 3;
            o.mandatory = {"value", "default", "exception", "exhausted"};
            o.bound = "scripts of up to 3 (4) of 9 actions and 5 endings, or an assigned body, with another stub before, after or not at all; called to the end and 3 times more; without another stub also while an exception propagates and in a catch block";
            mc::add(name, o, [] { space(); });
        }
    };

    // ---- exceptions from every throwing form, every kind of result ----
    struct IE {
        virtual int number(int) = 0;
        virtual std::string text(int) = 0;
        virtual void nothing(int) = 0;
        virtual int &ref(int) = 0;
        virtual std::unique_ptr<int> own(int) = 0;
        virtual Big big(int) = 0;
        virtual ~IE() {}
    };
    void spaceExceptions() {
        fk::QuietAdapter q;
        Mock<IE> m;
        int method = mc::choose(6), form = mc::choose(7), a = mc::choose(NEXC), b = mc::choose(NEXC);
        std::vector<int> want;
        int last = -9;
        auto stub = [&](auto &&when, auto dummy) {
            using R = decltype(dummy);
            withException(a, [&](auto x) { withException(b, [&](auto y) {
                switch (form) {
                    case 0: when.Throw(x); want = {a}; break;
                    case 1: when.Throw(x).Throw(y); want = {a, b}; break;
                    case 2: when.Throw(x, y, x); want = {a, b, a}; break;
                    case 3: when.Throw(2_Times(x), y); want = {a, a, b}; break;
                    case 4: when.AlwaysThrow(x); want = {}; last = a; break;
                    case 5: when.Throw(x).AlwaysThrow(y); want = {a}; last = b; break;
                    case 6: when.AlwaysDo([x, y](int i) -> typename R::type { if (i % 2) throw x; throw y; }); want = {b, a, b, a}; break;
                }
            }); });
        };
        struct RI { using type = int; };
        struct RS { using type = std::string; };
        struct RV { using type = void; };
        struct RR { using type = int &; };
        struct RO { using type = std::unique_ptr<int>; };
        struct RB { using type = Big; };
        switch (method) {
            case 0: stub(When(Method(m, number)), RI()); break;
            case 1: stub(When(Method(m, text)), RS()); break;
            case 2: stub(When(Method(m, nothing)), RV()); break;
            case 3: stub(When(Method(m, ref)), RR()); break;
            case 4: stub(When(Method(m, own)), RO()); break;
            case 5: stub(When(Method(m, big)), RB()); break;
        }
        size_t total = want.size() + (last >= 0 ? 3 : form == 6 ? 0 : 1);
        for (size_t i = 0; i < total; i++) {
            int got = -2;
            bool unexpected = false;
            try {
                switch (method) {
                    case 0: L(m.get()).number((int) i); break;
                    case 1: L(m.get()).text((int) i); break;
                    case 2: L(m.get()).nothing((int) i); break;
                    case 3: L(m.get()).ref((int) i); break;
                    case 4: L(m.get()).own((int) i); break;
                    case 5: L(m.get()).big((int) i); break;
                }
            } catch (UnexpectedMethodCallException &) { unexpected = true; }
            catch (...) { got = classify(); }
            int e = i < want.size() ? want[i] : last;
            if (e == -9) MC_CHECK(unexpected, "exhausted: exception %d", got);
            else MC_CHECK(got == e, "call %zu of method %d, form %d: exception %d instead of %s", i, method, form, got, excName[e]);
            mc::outcome(e == -9 ? "exhausted" : "thrown");
            mc::step(mc::mix(method * 8 + form, e * 8 + i));
        }
    }

    // ---- references, move-only results ----
    struct IR {
        virtual int &num() = 0;
        virtual const std::string &text() = 0;
        virtual std::string &wtext() = 0;
        virtual Abstract &abstract() = 0;
        virtual const NoDefault &nodef() = 0;
        virtual std::unique_ptr<int> own() = 0;
        virtual ~IR() {}
    };
    template<class T> T *addressOf(T &r) {
        T *p = &r;
        asm volatile("" : "+r"(p));
        return p;
    }
    template<class R, class When_, class Call>
    void refs(R *objs, size_t n, When_ &&when, Call &&call) {
        (void) n;
        int form = mc::choose(6), a = mc::choose(2), b = mc::choose(2);
        std::vector<R *> want;
        R *last = nullptr;
        switch (form) {
            case 0: when([&](auto &&w) { w.Return(objs[a]); }); want = {&objs[a]}; break;
            case 1: when([&](auto &&w) { w.Return(objs[a]).Return(objs[b]); }); want = {&objs[a], &objs[b]}; break;
            case 2: when([&](auto &&w) { w.AlwaysReturn(objs[a]); }); last = &objs[a]; break;
            case 3: when([&](auto &&w) { w.Return(objs[a]).AlwaysReturn(objs[b]); }); want = {&objs[a]}; last = &objs[b]; break;
            case 4: when([&](auto &&w) { w.Do([&]() -> R & { return objs[a]; }).AlwaysDo([&]() -> R & { return objs[b]; }); }); want = {&objs[a]}; last = &objs[b]; break;
            case 5: when([&](auto &&w) { w.Return(objs[a]).Do([&]() -> R & { return objs[b]; }); }); want = {&objs[a], &objs[b]}; break;
        }
        for (size_t i = 0; i < want.size() + (last ? 2 : 1); i++) {
            R *e = i < want.size() ? want[i] : last, *got = nullptr;
            try { got = addressOf<R>(call()); } catch (UnexpectedMethodCallException &) {}
            MC_CHECK(got == e, "form %d, call %zu: not the very object", form, i);
            mc::step(mc::mix(form, i));
        }
        mc::outcome("reference");
    }
    void spaceReferences() {
        fk::QuietAdapter q;
        Mock<IR> m;
        static int nums[2] = {1, 2};
        static std::string strs[2] = {"one text that is too long for the small buffer", "two"};
        static Concrete cons[2];
        static Abstract *abs_[2] = {&cons[0], &cons[1]};
        static NoDefault nds[2] = {NoDefault(1), NoDefault(2)};
        switch (mc::choose(7)) {
            case 0:
                refs<int>(nums, 2, [&](auto &&f) { f(When(Method(m, num))); }, [&]() -> int & { return L(m.get()).num(); });
                break;
            case 1: refs<const std::string>(strs, 2, [&](auto &&f) { f(When(Method(m, text))); }, [&]() -> const std::string & { return L(m.get()).text(); }); break;
            case 2: refs<std::string>(strs, 2, [&](auto &&f) { f(When(Method(m, wtext))); }, [&]() -> std::string & { return L(m.get()).wtext(); }); break;
            case 3: refs<const NoDefault>(nds, 2, [&](auto &&f) { f(When(Method(m, nodef))); }, [&]() -> const NoDefault & { return L(m.get()).nodef(); }); break;
            case 4: {
                int a = mc::choose(2);
                When(Method(m, abstract)).Return(*abs_[a]).AlwaysReturn(*abs_[1 - a]);
                MC_CHECK(addressOf(L(m.get()).abstract()) == abs_[a] && addressOf(L(m.get()).abstract()) == abs_[1 - a] && L(m.get()).abstract().f() == 4, "abstract reference");
                mc::outcome("reference");
                break;
            }
            case 5: {
                // assignment; writes through the result reach the object
                int v = 5;
                Method(m, num) = v;
                L(m.get()).num() = 6;
                MC_CHECK(v == 6 && addressOf(L(m.get()).num()) == &v, "assigned reference");
                v = 7;
                MC_CHECK(L(m.get()).num() == 7, "assigned reference");
                mc::outcome("reference");
                break;
            }
            case 6: {
                // move-only: the moved object, once
                int n = 1 + mc::choose(3), form = mc::choose(3);
                std::vector<int *> want;
                auto stub = [&](MethodStubbingProgress<std::unique_ptr<int>> *s) { for (int i = 0; i < n; i++) {
                    std::unique_ptr<int> p(new int(i));
                    want.push_back(p.get());
                    if (form == 0) s = &s->Return(std::move(p));
                    else if (form == 1) s = &s->Return(std::unique_ptr<int>(p.release()));
                    else { int *raw = p.release(); s = &s->Do([raw] { return std::unique_ptr<int>(raw); }); }
                } };
                auto script = [&](auto &&when) { stub(&when); };
                script(When(Method(m, own)));
                for (int i = 0; i < n; i++) {
                    std::unique_ptr<int> r = L(m.get()).own();
                    MC_CHECK(r.get() == want[i] && *r == i, "move-only result %d", i);
                    mc::step(mc::mix(n, i));
                }
                mc::outcome("move-only");
                break;
            }
        }
    }

    // ---- defaults ----
    struct ID {
        virtual char16_t f0() = 0; virtual char32_t f1() = 0; virtual wchar_t f2() = 0; virtual short f3() = 0; virtual unsigned f4() = 0;
        virtual long f5() = 0; virtual unsigned long long f6() = 0; virtual unsigned short f7() = 0; virtual signed char f8() = 0; virtual unsigned char f9() = 0;
        virtual Plain f10() = 0; virtual Preset f11() = 0; virtual std::pair<int, std::string> f12() = 0; virtual std::array<int, 40> f13() = 0;
        virtual Abstract *f14() = 0; virtual int NoDefault::*f15() = 0; virtual int (*f16())(int) = 0; virtual std::shared_ptr<Abstract> f17() = 0;
        virtual int &f18() = 0; virtual const std::string &f19() = 0; virtual Plain &f20() = 0; virtual const double &f21() = 0;
        virtual Abstract &f22() = 0; virtual NoDefault &f23() = 0; virtual const Abstract &f24() = 0; virtual const NoDefault &f25() = 0;
        virtual NoDefault f26() = 0; virtual void f27() = 0; virtual const int f28() = 0; virtual const std::string f29() = 0; virtual char f30() = 0; virtual bool f31() = 0;
        virtual long double f32() = 0; virtual E f33() = 0; virtual std::vector<std::string> f34() = 0; virtual const char *f35() = 0; virtual unsigned long f36() = 0; virtual float f37() = 0;
        virtual ~ID() {}
    };
    bool zero(const Plain &p) { return p.a == 0 && p.b == 0 && !memcmp(p.c, "\0\0\0\0\0", 5) && !p.p; }
    bool zero(const Preset &p) { return p.a == 5 && p.s == "preset"; }
    bool zero(const NoDefault &) { return false; }
    template<class T> bool zero(const T &v) { return v == T{}; }
    template<class T> void scribble(T &v) { v = T{}; memset((void *) &v, 0x5a, std::is_trivially_copyable<T>::value ? sizeof v : 0); }
    void scribble(Preset &v) { v.a = 9; v.s = "scribbled over with some longer text"; }
    void scribble(std::string &v) { v = "scribbled over with some longer text"; }
    void scribble(NoDefault &) {}
    void spaceDefaults() {
        fk::QuietAdapter q;
        Mock<ID> m;
        int type = mc::choose(38), form = mc::choose(4);
        switch (type) {
#define STUB(N) \
            switch (form) { \
                case 0: Fake(Method(m, f##N)); break; \
                case 1: When(Method(m, f##N)).Return().Return().Return(); break; \
                case 2: When(Method(m, f##N)).AlwaysReturn(); break; \
                default: Fake(Method(m, f##N)); Fake(Method(m, f##N)); \
            }
#define VALUE(N) case N: STUB(N) for (int i = 0; i < 3; i++) { auto r = L(m.get()).f##N(); MC_CHECK(zero(r), "default value of type %d, form %d, call %d", type, form, i); scribble(r); mc::step(type * 4 + form); } mc::outcome("value"); break;
#define REFERENCE(N) case N: STUB(N) for (int i = 0; i < 3; i++) { auto &r = L(m.get()).f##N(); MC_CHECK(addressOf(r) && zero(r), "default reference of type %d, form %d", type, form); mc::step(type * 4 + form); } mc::outcome("reference"); break;
#define NOTHING(N) case N: STUB(N) for (int i = 0; i < 3; i++) { auto &r = L(m.get()).f##N(); MC_CHECK(!addressOf(r), "the default reference of type %d is not null", type); mc::step(type * 4 + form); } mc::outcome("null reference"); break;
            VALUE(0) VALUE(1) VALUE(2) VALUE(3) VALUE(4) VALUE(5) VALUE(6) VALUE(7) VALUE(8) VALUE(9)
            VALUE(10) VALUE(11) VALUE(12) VALUE(13) VALUE(14) VALUE(15) VALUE(16) VALUE(17)
            REFERENCE(18) REFERENCE(19) REFERENCE(20) REFERENCE(21)
            NOTHING(22) NOTHING(23) NOTHING(24) NOTHING(25)
            case 26: {
                STUB(26)
                for (int i = 0; i < 3; i++) {
                    bool thrown = false;
                    try { L(m.get()).f26(); } catch (DefaultValueInstatiationException &e) { thrown = !e.what().empty(); }
                    MC_CHECK(thrown, "no exception for the missing default value");
                    mc::step(type * 4 + form);
                }
                mc::outcome("impossible");
                break;
            }
            case 27: STUB(27) for (int i = 0; i < 3; i++) L(m.get()).f27(); mc::outcome("value"); break;
            VALUE(28) VALUE(29) VALUE(30) VALUE(31) VALUE(32) VALUE(33) VALUE(34) VALUE(35) VALUE(36) VALUE(37)
        }
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
#if PART == 0
        o.mandatory = {"thrown", "exhausted"};
        o.bound = "6 result types x 7 throwing forms x 6 x 6 exceptions";
        mc::add("exceptions", o, spaceExceptions);
        o.mandatory = {"reference", "move-only"};
        o.bound = "5 reference types x 6 forms x 2 x 2 objects, move-only results up to 3";
        mc::add("references", o, spaceReferences);
#elif PART == 1
        o.mandatory = {"value", "reference", "null reference", "impossible"};
        o.bound = "38 result types x 4 forms x 3 calls";
        mc::add("defaults", o, spaceDefaults);
#elif PART == 2
        Kind<int>::add("int");
        Kind<double>::add("double");
        Kind<bool>::add("bool");
        Kind<long long>::add("long long");
#elif PART == 3
        Kind<std::string>::add("string");
        Kind<std::vector<int>>::add("vector");
        Kind<Big>::add("large class");
        Kind<Pair>::add("small class");
#elif PART == 4
        Kind<std::shared_ptr<int>>::add("shared_ptr");
        Kind<int *>::add("pointer");
        Kind<const char *>::add("C string");
        Kind<E>::add("enum");
#elif PART == 5
        Kind<Fn>::add("function");
        Kind<NoDefault>::add("class without default constructor");
        Kind<std::map<int, std::string>>::add("map");
        Kind<float>::add("float");
        Kind<unsigned char>::add("byte");
#endif
    });
}
