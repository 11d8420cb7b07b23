// C10: arguments reach actions, predicates and originals unchanged and in position.
#include "fk.hpp"
#include "heap.hpp"
#include <array>
#include <deque>
using namespace fakeit;
using fk::L;

#ifndef PART
#define PART 0
#endif

namespace {
    int liveRes = 0;
    struct Res {
        int v;
        explicit Res(int v_) : v(v_) { liveRes++; }
        ~Res() { liveRes--; v = -77; }
        Res(const Res &) = delete;
    };
    using Own = std::unique_ptr<Res>;
    struct Big {
        int v[25];
        bool operator==(const Big &o) const { return memcmp(v, o.v, sizeof v) == 0; }
    };
    struct Pair {
        float x;
        int y;
        bool operator==(const Pair &o) const { return x == o.x && y == o.y; }
    };
    enum class E : short { a = -3, b = 7, c = 300 };
    using Fn = std::function<int()>;
    int cells[8];
    const char *texts[] = {"zero", "one", "two", "three", "four"};

    template<class T> struct Val;
    template<> struct Val<int> { static int make(int i) { static int v[] = {-1, 0x12345678, 0, 7, 9}; return v[i]; } };
    template<> struct Val<double> { static double make(int i) { static double v[] = {-0.5, 1e300, 3.25, 1, 2}; return v[i]; } };
    template<> struct Val<float> { static float make(int i) { static float v[] = {-0.5f, 1e30f, 3.25f, 1, 2}; return v[i]; } };
    template<> struct Val<bool> { static bool make(int i) { return i & 1; } };
    template<> struct Val<char> { static char make(int i) { return "a\xff\0xy"[i]; } };
    template<> struct Val<long long> { static long long make(int i) { return (i - 1) * 0x123456789abcdLL; } };
    template<> struct Val<std::string> { static std::string make(int i) { return i == 1 ? "" : std::string(i * 20 + 1, 'a' + i); } };
    template<> struct Val<std::vector<int>> { static std::vector<int> make(int i) { return std::vector<int>(i, i * 3); } };
    template<> struct Val<Big> { static Big make(int i) { Big b; for (int k = 0; k < 25; k++) b.v[k] = i * 100 + k; return b; } };
    template<> struct Val<Pair> { static Pair make(int i) { return {i + 0.5f, i * 1000}; } };
    template<> struct Val<std::shared_ptr<int>> {
        static std::shared_ptr<int> make(int i) { static std::shared_ptr<int> v[] = {std::make_shared<int>(0), nullptr, std::make_shared<int>(2), std::make_shared<int>(3), std::make_shared<int>(4)}; return v[i]; }
    };
    template<> struct Val<int *> { static int *make(int i) { return i == 1 ? nullptr : &cells[i]; } };
    template<> struct Val<const char *> { static const char *make(int i) { return i == 1 ? nullptr : texts[i]; } };
    template<> struct Val<E> { static E make(int i) { return i == 0 ? E::a : i == 1 ? E::b : E::c; } };
    template<> struct Val<Fn> { static Fn make(int i) { return i == 1 ? Fn() : Fn([i] { return i; }); } };
    template<> struct Val<Own> { static Own make(int i) { return i == 1 ? nullptr : Own(new Res(i)); } };
    template<> struct Val<std::array<std::string, 2>> { static std::array<std::string, 2> make(int i) { return {{std::string(i * 20, 'p'), std::string(30 - i, 'q')}}; } };

    template<class T> bool is(const T &v, int i) { return v == Val<T>::make(i); }
    template<> bool is<Fn>(const Fn &v, int i) { return i == 1 ? !v : v && v() == i; }
    template<> bool is<Own>(const Own &v, int i) { return i == 1 ? !v : v && v->v == i; }

    // P is the declared parameter type, T the type without qualifiers
    template<class P>
    struct I {
        virtual int f(int, P, int) = 0;
        virtual ~I() {}
    };
    struct Call {
        int value;
        bool taken;  // a move-only argument was taken by the action
    };

    template<class P>
    struct Kind {
        using T = typename std::remove_cv<typename std::remove_reference<P>::type>::type;
        static constexpr bool lref = std::is_lvalue_reference<P>::value;
        static constexpr bool rref = std::is_rvalue_reference<P>::value;
        static constexpr bool byValue = !lref && !rref;
        static constexpr bool writable = !std::is_const<typename std::remove_reference<P>::type>::value;
        static constexpr bool copyable = std::is_copy_constructible<T>::value;
        using A = typename std::add_lvalue_reference<P>::type;  // what consumers get

        struct Run;
        struct Real : I<P> {
            Run *run = nullptr;
            int f(int a, P p, int b) override { return run->original(a, p, b); }
        };
        struct Run {
            std::vector<Call> calls;
            std::deque<T> storage;  // what the caller passes, one per call
            int consumed = 0, asked = 0;
            bool write = false, take = false, direct = false;
            std::function<void()> disturb;  // what the consumer does to the mock before it looks again
            std::vector<Own> taken;
            Run() {}
            // every consumer sees the arguments of some recorded call
            size_t see(const char *who, int a, const T &p, int b, bool mustBeLast) {
                size_t n = a - 100;
                MC_CHECK(n < calls.size() && b == 200 + (int) n, "%s got (%d, ..., %d)", who, a, b);
                if (mustBeLast) MC_CHECK(n + 1 == calls.size(), "%s got the arguments of call %zu in call %zu", who, n, calls.size() - 1);
                if (!calls[n].taken) MC_CHECK(is<T>(p, calls[n].value), "%s got another value in call %zu", who, n);
                if (!byValue) MC_CHECK(&p == &storage[n], "%s does not get the caller's object in call %zu", who, n);
                return n;
            }
            void consume(const char *who, int a, A p, int b) {
                size_t n = see(who, a, p, b, true);
                if (disturb) {
                    disturb();
                    see(who, a, p, b, true);
                }
                consumed++;
                if constexpr (lref && writable) {
                    if (write) { p = Val<T>::make(3); calls[n].value = 3; }
                }
                if constexpr (rref && copyable) {
                    if (write) { p = Val<T>::make(3); calls[n].value = 3; }
                }
                if constexpr (std::is_same<T, Own>::value && writable) {
                    if (take) { taken.push_back(std::move(p)); calls[n].taken = true; }
                }
            }
            int original(int a, A p, int b) {
                // an original gets its own by-value parameter and may do with it what it likes
                consume("original", a, p, b);
                if constexpr (byValue && copyable) { if (write) p = Val<T>::make(4); }
                return 1000 + a;
            }
        };
        enum { DO_REF, ALWAYS_DO_VALUE, ASSIGNED, PREDICATES, FAKED, SPIED, SPIED_FORWARD, SPIED_PREDICATES, NHOW };
        static void space() {
            fk::QuietAdapter q;
            int live0 = liveRes;
            {
                Run r;
                int how = mc::choose(NHOW), n = 1 + mc::choose(mc::bound(4, 5));
                r.write = mc::flag();
                if (std::is_same<T, Own>::value) r.take = mc::flag();
                int disturbance = mc::choose(3);
                Real real;
                real.run = &r;
                if (!copyable && byValue && (how == SPIED || how == SPIED_PREDICATES)) how = SPIED_FORWARD;
                if (rref && (how == SPIED || how == SPIED_PREDICATES)) how = SPIED_FORWARD;
                bool spied = how == SPIED || how == SPIED_FORWARD || how == SPIED_PREDICATES;
                auto predicate = [&](bool answer) {
                    return [&r, answer](int &a, A p, int &b) {
                        r.see("predicate", a, p, b, true);
                        r.asked++;
                        return answer;
                    };
                };
                Mock<I<P>> pure;
                Mock<Real> spy(real);
                auto call = [&](int a, P p, int b) -> int {
                    if (spied) return L(spy.get()).f(a, std::forward<P>(p), b);
                    return L(pure.get()).f(a, std::forward<P>(p), b);
                };
                switch (how) {
                    case DO_REF:
                        When(Method(pure, f)).Do([&](int &a, A p, int &b) { r.consume("action", a, p, b); return 1000 + a; },
                                                 [&](int &a, A p, int &b) { r.consume("second action", a, p, b); return 1000 + a; },
                                                 [&](int &a, A p, int &b) { r.consume("third action", a, p, b); return 1000 + a; })
                                .AlwaysDo([&](int &a, A p, int &b) { r.consume("last action", a, p, b); return 1000 + a; });
                        break;
                    case ALWAYS_DO_VALUE:
                        if constexpr (copyable && byValue)
                            When(Method(pure, f)).AlwaysDo([&](int a, T p, int b) { r.consume("action", a, p, b); p = Val<T>::make(4); return 1000 + a; });
                        else
                            When(Method(pure, f)).AlwaysDo([&](int a, A p, int b) { r.consume("action", a, p, b); return 1000 + a; });
                        break;
                    case ASSIGNED:
                        Method(pure, f) = [&](int a, A p, int b) { r.consume("action", a, p, b); return 1000 + a; };
                        break;
                    case PREDICATES:
                        When(Method(pure, f).Matching(predicate(true))).AlwaysDo([&](int &a, A p, int &b) { r.consume("action", a, p, b); return 1000 + a; });
                        When(Method(pure, f).Matching(predicate(false))).AlwaysReturn(1);
                        When(Method(pure, f).Using(Lt(0), _, _)).AlwaysReturn(2);
                        When(Method(pure, f).Matching(predicate(false))).AlwaysReturn(3);
                        break;
                    case FAKED: Fake(Method(pure, f)); break;
                    case SPIED: if constexpr ((copyable || lref) && !rref) Spy(Method(spy, f)); break;
                    case SPIED_FORWARD: SpyWithoutVerify(Method(spy, f)); break;
                    case SPIED_PREDICATES:
                        if constexpr ((copyable || lref) && !rref) Spy(Method(spy, f).Matching(predicate(true)));
                        When(Method(spy, f).Matching(predicate(false))).AlwaysReturn(1);
                        break;
                }
                if (disturbance == 1) r.disturb = [&] { pure.ClearInvocationHistory(); spy.ClearInvocationHistory(); };
                if (disturbance == 2) r.disturb = [&] {
                    auto reject = [](int &, A, int &) { return false; };
                    if (spied) When(Method(spy, f).Matching(reject)).AlwaysReturn(4);
                    else When(Method(pure, f).Matching(reject)).AlwaysReturn(4);
                };
                for (int i = 0; i < n; i++) {
                    int v = mc::choose(3);
                    r.calls.push_back({v, false});
                    r.storage.push_back(Val<T>::make(v));
                    int got;
                    if constexpr (byValue && copyable) got = call(100 + i, r.storage.back(), 200 + i);
                    else if constexpr (lref) got = call(100 + i, static_cast<P>(r.storage.back()), 200 + i);
                    else got = call(100 + i, std::move(r.storage.back()), 200 + i);
                    MC_CHECK(got == (how == FAKED ? 0 : 1100 + i), "result %d of call %d", got, i);
                    MC_CHECK(r.consumed == (how == FAKED ? 0 : i + 1), "%d calls consumed after call %d", r.consumed, i);
                    if (byValue && copyable) MC_CHECK(is<T>(r.storage[i], v), "the variable of the caller changed");
                    if (!byValue && !r.calls[i].taken) MC_CHECK(is<T>(r.storage[i], r.calls[i].value), "the object of the caller has not the value written last");
                    if constexpr (std::is_same<T, Own>::value) {
                        if (byValue) MC_CHECK(!r.storage[i], "a move-only argument was not handed over");
                    }
                    mc::step(mc::mix(how * 4 + v, r.write * 8 + i));
                    // by-value arguments keep their value whatever the caller does next
                    if constexpr (byValue && copyable) r.storage[i] = Val<T>::make(4);
                }
                if (how != SPIED_FORWARD && (disturbance != 1 || how == FAKED)) {
                    int seen = 0;
                    for (int again = 0; again < 2; again++) {
                        bool ok = false;
                        auto look = [&](int &a, A p, int &b) { r.see("verification", a, p, b, false); seen++; return true; };
                        if (spied) ok = Verify(Method(spy, f).Matching(look)).Exactly(n);
                        else ok = Verify(Method(pure, f).Matching(look)).Exactly(n);
                        MC_CHECK(ok && seen >= n, "recorded calls are missing");
                    }
                }
                if constexpr (std::is_same<T, Own>::value) {
                    for (size_t i = 0, k = 0; i < r.calls.size(); i++)
                        if (r.calls[i].taken) { MC_CHECK(is<Own>(r.taken[k], r.calls[i].value), "the object taken by the action is damaged"); k++; }
                }
                mc::outcome(how == FAKED ? "recorded" : spied ? "original" : "action");
            }
            MC_CHECK(liveRes == live0, "%d move-only arguments are still alive", liveRes - live0);
        }
        static void add(const char *name) {
            mc::Options o;
            o.shardDepth = 3;
            o.mandatory = {"recorded", "original", "action"};
            o.bound = "8 consumers that leave the mock alone, clear its history or stub it, x 1..4 (5) calls x 3 values, writing or not";
            mc::add(name, o, [] { space(); });
        }
    };

    // ---- many parameters of mixed types, results in registers and in memory ----
    struct IM {
        virtual int mixed(int, double, char, long long, float, short, std::string, int, double, Big, const std::string &, unsigned char) = 0;
        virtual std::string text(const std::string &, int, double, std::string, Pair) = 0;
        virtual Big big(int, Big, int, Big, std::string &) = 0;
        virtual double doubles(double, double, double, double, double, double, double, double, double, double) = 0;
        virtual long long ints(int, int, int, int, int, int, int, int, int, int) = 0;
        virtual void nothing() = 0;
        virtual void alternating(int, float, int, float, int, float, int, float, int, float, int, float, int, float, int, float, int, float) = 0;
        virtual ~IM() {}
    };
    std::vector<std::string> seen;
    template<class... A> void note(const A &...a) {
        seen.clear();
        auto one = [](const auto &x) {
            std::ostringstream s;
            using X = typename std::decay<decltype(x)>::type;
            if constexpr (std::is_same<X, Big>::value) { for (int v : x.v) s << v << ','; }
            else if constexpr (std::is_same<X, Pair>::value) s << x.x << '/' << x.y;
            else s << x;
            seen.push_back(s.str());
        };
        (one(a), ...);
    }
    struct RealIM : IM {
        int mixed(int a, double b, char c, long long d, float e, short f, std::string g, int h, double i, Big j, const std::string &k, unsigned char l) override { note(a, b, c, d, e, f, g, h, i, j, k, l); return 1; }
        std::string text(const std::string &a, int b, double c, std::string d, Pair e) override { note(a, b, c, d, e); return "the text " + a; }
        Big big(int a, Big b, int c, Big d, std::string &e) override { note(a, b, c, d, e); e += "!"; return Val<Big>::make(a); }
        double doubles(double a, double b, double c, double d, double e, double f, double g, double h, double i, double j) override { note(a, b, c, d, e, f, g, h, i, j); return 0.5; }
        long long ints(int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) override { note(a, b, c, d, e, f, g, h, i, j); return 1LL << 40; }
        void nothing() override { note(); }
        void alternating(int a, float b, int c, float d, int e, float f, int g, float h, int i, float j, int k, float l, int m, float n, int o, float p, int q, float r) override { note(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q, r); }
    };
    void spaceMany() {
        fk::QuietAdapter q;
        RealIM real, direct;
        Mock<RealIM> spy(real);
        Mock<IM> pure;
        int how = mc::choose(4), method = mc::choose(7), base = mc::choose(3) * 50;
        bool spied = how >= 2;
        IM &mocked = spied ? (IM &) L(spy.get()) : L(pure.get());
        int asked = 0;
        if (how == 0) {
            When(Method(pure, mixed)).AlwaysDo([&](int a, double b, char c, long long d, float e, short f, std::string g, int h, double i, Big j, const std::string &k, unsigned char l) { return direct.mixed(a, b, c, d, e, f, g, h, i, j, k, l); });
            When(Method(pure, text)).AlwaysDo([&](const std::string &a, int b, double c, std::string d, Pair e) { return direct.text(a, b, c, d, e); });
            When(Method(pure, big)).AlwaysDo([&](int a, Big b, int c, Big d, std::string &e) { return direct.big(a, b, c, d, e); });
            When(Method(pure, doubles)).AlwaysDo([&](double a, double b, double c, double d, double e, double f, double g, double h, double i, double j) { return direct.doubles(a, b, c, d, e, f, g, h, i, j); });
            When(Method(pure, ints)).AlwaysDo([&](int a, int b, int c, int d, int e, int f, int g, int h, int i, int j) { return direct.ints(a, b, c, d, e, f, g, h, i, j); });
            When(Method(pure, nothing)).AlwaysDo([&]() { direct.nothing(); });
            When(Method(pure, alternating)).AlwaysDo([&](int a, float b, int c, float d, int e, float f, int g, float h, int i, float j, int k, float l, int m, float n, int o, float p, int q_, float r) { direct.alternating(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p, q_, r); });
        } else if (how == 1) {
            // the predicates see the arguments, nothing else does
#define LOOK Matching([&](auto &...a) { note(a...); asked++; return true; })
            When(Method(pure, mixed).LOOK).AlwaysReturn(1);
            When(Method(pure, text).LOOK).AlwaysDo([&](const std::string &a, int, double, std::string, Pair) { return "the text " + a; });
            When(Method(pure, big).LOOK).AlwaysDo([&](int a, Big, int, Big, std::string &e) { e += "!"; return Val<Big>::make(a); });
            When(Method(pure, doubles).LOOK).AlwaysReturn(0.5);
            When(Method(pure, ints).LOOK).AlwaysReturn(1LL << 40);
            When(Method(pure, nothing).LOOK).AlwaysReturn();
            When(Method(pure, alternating).LOOK).AlwaysReturn();
        } else if (how == 2) {
            Spy(Method(spy, mixed), Method(spy, text), Method(spy, big), Method(spy, doubles), Method(spy, ints), Method(spy, nothing), Method(spy, alternating));
        } else {
            SpyWithoutVerify(Method(spy, mixed), Method(spy, text), Method(spy, big), Method(spy, doubles), Method(spy, ints), Method(spy, nothing), Method(spy, alternating));
        }
        static std::string out;
        auto invoke = [&](IM &x) -> std::string {
            int b = base;
            static std::string one;
            one = std::string(b + 1, 'x');
            seen = {"nobody"};
            switch (method) {
                case 0: return std::to_string(x.mixed(b - 1, b + 0.25, 'c', 1LL << (33 + b % 7), b + 1.5f, -b - 2, std::string(b + 3, 's'), -5, -b - 0.125, Val<Big>::make(b), one, 200));
                case 1: return x.text(one, b, b + 0.75, std::string(b + 20, 't'), Pair{b + 0.5f, b - 9});
                case 2: { out = one; Big r = x.big(b + 1, Val<Big>::make(2), b + 3, Val<Big>::make(4), out); return std::to_string(r == Val<Big>::make(b + 1)) + out; }
                case 3: return std::to_string(x.doubles(b + 0.0, b + 1.0, b + 2.0, b + 3.0, b + 4.0, b + 5.0, b + 6.0, b + 7.0, b + 8.0, b + 9.5));
                case 4: return std::to_string(x.ints(b + 0, b + 1, b + 2, b + 3, b + 4, b + 5, b + 6, b + 7, b + 8, b + 9));
                case 5: x.nothing(); return "";
                default: x.alternating(b, 1.5f, b + 2, 3.5f, b + 4, 5.5f, b + 6, 7.5f, b + 8, 9.5f, b + 10, 11.5f, b + 12, 13.5f, b + 14, 15.5f, b + 16, 17.5f); return "";
            }
        };
        std::string want = invoke(direct);
        auto wantSeen = seen;
        for (int rep = 0; rep < 2; rep++) {
            std::string got = invoke(mocked);
            MC_CHECK(got == want, "method %d returns '%s' instead of '%s'", method, got.c_str(), want.c_str());
            std::string diff;
            for (size_t i = 0; i < std::max(seen.size(), wantSeen.size()); i++)
                if (i >= seen.size() || i >= wantSeen.size() || seen[i] != wantSeen[i]) diff += " position " + std::to_string(i) + ": " + (i < seen.size() ? seen[i] : "missing");
            MC_CHECK(diff.empty(), "method %d:%s", method, diff.c_str());
            mc::step(mc::mix(how * 8 + method, base + rep));
        }
        if (how == 1) MC_CHECK(asked == 2, "predicate asked %d times", asked);
        mc::outcome("called");
    }
#if PART == 6
    // ---- every number of parameters up to 21, then 24 and 32 ----
    template<size_t i> struct Ty { using T = typename std::conditional<i % 4 == 0, int, typename std::conditional<i % 4 == 1, double, typename std::conditional<i % 4 == 2, std::string, long long>::type>::type>::type;
        static T make(int b) { if constexpr (i % 4 == 2) return std::string(i + 1, 'a' + b % 20); else return T(b * 100 + (int) i); } };
    template<class S> struct IA;
    template<size_t... i> struct IA<std::index_sequence<i...>> {
        virtual long long g(typename Ty<i>::T...) = 0;
        virtual void h(typename Ty<i>::T...) = 0;
        virtual ~IA() {}
        long long callG(int b) { return g(Ty<i>::make(b)...); }
        void callH(int b) { h(Ty<i>::make(b)...); }
        static std::vector<std::string> expected(int b) { note(Ty<i>::make(b)...); return seen; }
    };
    template<class S> struct RA;
    template<size_t... i> struct RA<std::index_sequence<i...>> : IA<std::index_sequence<i...>> {
        long long g(typename Ty<i>::T... a) override { note(a...); return 7000000000LL; }
        void h(typename Ty<i>::T... a) override { note(a...); }
    };
    template<class T>
    void compareArity(T &o, int n, int how) {
        for (int b = 0; b < 3; b++)
            for (int method = 0; method < 2; method++) {
                auto want = T::expected(b);
                seen = {"nobody"};
                long long got = 7000000000LL;
                if (method) o.callH(b); else got = o.callG(b);
                MC_CHECK(got == 7000000000LL, "%d parameters, way %d: returned %lld", n, how, got);
                MC_CHECK(seen.size() == want.size(), "%d parameters, way %d: %zu arguments arrived", n, how, seen.size());
                for (size_t i = 0; i < want.size(); i++)
                    MC_CHECK(seen[i] == want[i], "%d parameters, way %d: position %zu got '%s' instead of '%s'", n, how, i, seen[i].c_str(), want[i].c_str());
                mc::step(mc::mix(n * 8 + how, b * 2 + method));
            }
        mc::outcome("called");
    }
#define ARITY(N) \
    void arity##N() { \
        typedef std::make_index_sequence<N> S; \
        int how = mc::choose(6); \
        RA<S> real; \
        Mock<RA<S>> spy(real); \
        Mock<IA<S>> pure; \
        switch (how) { \
            case 0: When(Method(pure, g)).AlwaysDo([](auto &...a) { note(a...); return 7000000000LL; }); When(Method(pure, h)).AlwaysDo([](auto &...a) { note(a...); }); break; \
            case 1: When(Method(pure, g)).AlwaysDo([](auto... a) { note(a...); return 7000000000LL; }); When(Method(pure, h)).AlwaysDo([](auto... a) { note(a...); }); break; \
            case 2: When(Method(pure, g).Matching([](auto &...a) { note(a...); return true; })).AlwaysReturn(7000000000LL); When(Method(pure, h).Matching([](auto &...a) { note(a...); return true; })).AlwaysReturn(); break; \
            case 3: Method(pure, g) = [](auto &...a) { note(a...); return 7000000000LL; }; Method(pure, h) = [](auto &...a) { note(a...); }; break; \
            case 4: Spy(Method(spy, g), Method(spy, h)); break; \
            case 5: SpyWithoutVerify(Method(spy, g), Method(spy, h)); break; \
        } \
        compareArity<IA<S>>(how < 4 ? L(pure.get()) : (IA<S> &) L(spy.get()), N, how); \
    }
#ifdef MC_SMALL
    ARITY(4) ARITY(12) ARITY(20)
    void (*const arities[])() = {arity4, arity12, arity20};
#else
    ARITY(1) ARITY(2) ARITY(3) ARITY(4) ARITY(5) ARITY(6) ARITY(7) ARITY(8) ARITY(9) ARITY(10) ARITY(11) ARITY(12)
    ARITY(13) ARITY(14) ARITY(15) ARITY(16) ARITY(17) ARITY(18) ARITY(19) ARITY(20) ARITY(21) ARITY(24) ARITY(32)
    void (*const arities[])() = {arity1, arity2, arity3, arity4, arity5, arity6, arity7, arity8, arity9, arity10, arity11, arity12,
        arity13, arity14, arity15, arity16, arity17, arity18, arity19, arity20, arity21, arity24, arity32};
#endif
    void spaceArity() {
        fk::QuietAdapter q;
        arities[mc::choose(sizeof arities / sizeof *arities)]();
    }
#endif
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
#if PART == 0
        mc::Options o;
        o.mandatory = {"called"};
        o.bound = "7 signatures with up to 18 parameters x action, predicate, spy, forwarding spy x 3 value sets";
        mc::add("many", o, spaceMany);
        Kind<int>::add("int");
        Kind<double>::add("double");
        Kind<float>::add("float");
#elif PART == 1
        Kind<bool>::add("bool");
        Kind<char>::add("char");
        Kind<long long>::add("long long");
        Kind<E>::add("enum");
        Kind<Pair>::add("small class");
#elif PART == 2
        Kind<std::string>::add("string");
        Kind<std::vector<int>>::add("vector");
        Kind<Big>::add("large class");
        Kind<std::shared_ptr<int>>::add("shared_ptr");
        Kind<std::array<std::string, 2>>::add("array of strings");
#elif PART == 3
        Kind<int *>::add("pointer");
        Kind<const char *>::add("C string");
        Kind<Fn>::add("function");
        Kind<Own>::add("unique_ptr");
        Kind<Own &&>::add("unique_ptr &&");
#elif PART == 4
        Kind<int &>::add("int &");
        Kind<const int &>::add("const int &");
        Kind<int &&>::add("int &&");
        Kind<Own &>::add("unique_ptr &");
        Kind<const Own &>::add("const unique_ptr &");
#elif PART == 5
        Kind<std::string &>::add("string &");
        Kind<const std::string &>::add("const string &");
        Kind<std::string &&>::add("string &&");
        Kind<Big &>::add("large class &");
        Kind<const Big &>::add("const large class &");
        Kind<int *&>::add("pointer &");
#elif PART == 6
        mc::Options o;
        o.mandatory = {"called"};
        o.bound = "1..21, 24 and 32 parameters of four types x 6 ways to see them x 3 value sets x with and without a result";
        mc::add("arity", o, spaceArity);
#endif
    });
}
