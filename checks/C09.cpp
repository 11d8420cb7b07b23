// C09: argument conditions accept exactly the values their definition says.
#include "fk.hpp"
#include "heap.hpp"
#include <climits>
#include <cstdint>
#include <deque>
#include <cstring>
using namespace fakeit;
using fk::L;

namespace {
    enum class Colour { red, green, blue };
    // subsets ordered by inclusion: the six comparisons are independent of each other
    struct Set {
        unsigned b;
        friend bool operator==(const Set &x, const Set &y) { return x.b == y.b; }
        friend bool operator!=(const Set &x, const Set &y) { return x.b != y.b; }
        friend bool operator<(const Set &x, const Set &y) { return (x.b & ~y.b) == 0 && x.b != y.b; }
        friend bool operator<=(const Set &x, const Set &y) { return (x.b & ~y.b) == 0; }
        friend bool operator>(const Set &x, const Set &y) { return y < x; }
        friend bool operator>=(const Set &x, const Set &y) { return y <= x; }
    };
    // each operator answers from its own bit: nothing can be derived from another operator
    struct Odd {
        unsigned b;
        friend bool operator==(const Odd &x, const Odd &y) { return (x.b ^ y.b) & 1; }
        friend bool operator!=(const Odd &x, const Odd &y) { return (x.b ^ y.b) & 2; }
        friend bool operator<(const Odd &x, const Odd &y) { return x.b & ~y.b & 4; }
        friend bool operator<=(const Odd &x, const Odd &y) { return x.b & ~y.b & 8; }
        friend bool operator>(const Odd &x, const Odd &y) { return ~x.b & y.b & 16; }
        friend bool operator>=(const Odd &x, const Odd &y) { return ~x.b & y.b & 32; }
    };

    template<class P>
    struct I1 {
        virtual int f(P, int) = 0;
        virtual ~I1() {}
    };

    enum Kind { EQ, NE, GT, GE, LT, LE, PLAIN, PRED, ANY, NKIND };
    const char *kindName[] = {"Eq", "Ne", "Gt", "Ge", "Lt", "Le", "plain", "predicate", "Any"};
    template<class A, class G>
    bool oracle(int kind, const A &a, const G &g) {
        switch (kind) {
            case EQ: case PLAIN: case PRED: return a == g;
            case NE: return a != g;
            case GT: return a > g;
            case GE: return a >= g;
            case LT: return a < g;
            case LE: return a <= g;
            default: return true;
        }
    }

    // P parameter type, A values passed, G values given to the condition
    template<class P, class A, class G>
    void relate(int kind, const std::vector<A> &args, const std::vector<G> &givens, const G &other) {
        using N = typename std::remove_cv<typename std::remove_reference<P>::type>::type;
        fk::QuietAdapter q;
        size_t gi = mc::choose((int) givens.size());
        int style = mc::choose(3);  // temporary, variable changed afterwards, const variable
        const G given = givens[gi];
        Mock<I1<P>> m;
        Fake(Method(m, f));
        auto use = [&](auto &&stub) {
            G var = given;
            const G cvar = given;
            switch (kind) {
#define PER_STYLE(C) style == 0 ? (void) stub(C(G(given))) : style == 1 ? (void) stub(C(var)) : (void) stub(C(cvar))
                case EQ: PER_STYLE(Eq); break;
                case NE: PER_STYLE(Ne); break;
                case GT: PER_STYLE(Gt); break;
                case GE: PER_STYLE(Ge); break;
                case LT: PER_STYLE(Lt); break;
                case LE: PER_STYLE(Le); break;
                case PLAIN: PER_STYLE(); break;
                case ANY: style == 0 ? (void) stub(Any()) : style == 1 ? (void) stub(_) : (void) stub(Any<N>()); break;
            }
            if (style == 1) {
                // the condition took its value; the variable is still ours
                if constexpr (std::is_same<G, std::string>::value) MC_CHECK(var == given, "the variable given to the condition changed");
                var = other;
            }
        };
        auto predicate = [given](typename std::add_lvalue_reference<P>::type a, int &) -> bool { return a == given; };
        if (kind == PRED) When(Method(m, f).Matching(predicate)).AlwaysReturn(1);
        else use([&](auto &&c) { When(Method(m, f).Using(std::forward<decltype(c)>(c), _)).AlwaysReturn(1); });
        int accepted = 0;
        std::vector<int> rejected;
        static std::deque<N> keep;  // recorded reference arguments stay alive
        keep.clear();
        for (int pass = 0; pass < 2; pass++)
            for (size_t j = 0; j < args.size(); j++) {
                size_t i = pass ? args.size() - 1 - j : j;
                bool want = oracle(kind, args[i], given);
                keep.push_back(args[i]);
                int got = L(m.get()).f(static_cast<P>(keep.back()), (int) i);
                MC_CHECK(got == want, "%s, given value #%zu, style %d: argument #%zu is %s in pass %d", kindName[kind], gi, style, i, got ? "accepted" : "rejected", pass);
                if (want) accepted++; else rejected.push_back((int) i);
                mc::step(mc::mix(mc::mix(kind, gi), i * 2 + want));
            }
        for (int again = 0; again < 2; again++) {
            bool ok = false;
            if (kind == PRED) ok = Verify(Method(m, f).Matching(predicate)).Exactly(accepted);
            else use([&](auto &&c) { ok = Verify(Method(m, f).Using(std::forward<decltype(c)>(c), _)).Exactly(accepted); });
            MC_CHECK(ok, "%s, given value #%zu, style %d: verification does not find the %d accepted calls", kindName[kind], gi, style, accepted);
        }
        VerifyNoOtherInvocations(m);
        if (rejected.empty()) { MC_CHECK(q.events.empty(), "calls left although all are accepted"); }
        else {
            MC_CHECK(q.events.size() == 1 && q.events[0].unverified.size() == rejected.size(), "%zu calls rejected", rejected.size());
            for (size_t i = 0; i < rejected.size(); i++) {
                std::string tail = ", " + std::to_string(rejected[i]) + ")", &t = q.events[0].unverified[i];
                MC_CHECK(t.size() > tail.size() && t.compare(t.size() - tail.size(), tail.size(), tail) == 0, "call %s is not the rejected one with index %d", t.c_str(), rejected[i]);
            }
        }
        mc::outcome(accepted ? "accepted" : "none accepted");
        if (!rejected.empty()) mc::outcome("rejected");
    }

    template<class T> std::vector<T> all8() {
        std::vector<T> v;
        for (int i = std::numeric_limits<T>::min(); i <= (int) std::numeric_limits<T>::max(); i++) v.push_back((T) i);
        return v;
    }
    const std::vector<int> INTS = {INT_MIN, INT_MIN + 1, -65536, -257, -256, -255, -129, -128, -127, -2, -1, 0, 1, 2, 126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65535, 65536, INT_MAX - 1, INT_MAX};
    const std::vector<unsigned> UINTS = {0, 1, 2, 127, 128, 255, 256, 65535, 65536, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
    const std::vector<long long> LONGS = {LLONG_MIN, LLONG_MIN + 1, -(1LL << 53) - 1, -(1LL << 32), -1, 0, 1, 255, 256, (1LL << 31) - 1, 1LL << 31, 1LL << 32, (1LL << 32) + 1, (1LL << 53) - 1, 1LL << 53, (1LL << 53) + 1, LLONG_MAX - 1, LLONG_MAX};
    const std::vector<unsigned long long> ULONGS = {0, 1, 255, 256, 1ULL << 32, (1ULL << 32) + 1, (1ULL << 53) + 1, 1ULL << 63, ULLONG_MAX - 1, ULLONG_MAX};
    const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();
    const std::vector<double> DOUBLES = {nan_, -inf, -1.7e308, -256.0, -2.0, -1.5, -1.0, -5e-324, -0.0, 0.0, 5e-324, 0.1 + 0.2, 0.3, 0.5, 1.0, 1.0 + 2.2204460492503131e-16, 1.5, 2.0, 2.5, 255.0, 256.0, 9007199254740992.0, 1e15, 1e15 + 0.125, 1.7e308, inf};
    const std::vector<float> FLOATS = {std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::infinity(), -1.5f, -0.0f, 0.0f, 0.1f, 0.3f, 1.0f, 1.0f + 1.1920929e-7f, 16777216.0f, 3e38f, std::numeric_limits<float>::infinity()};
    const std::vector<std::string> STRINGS = {"", "a", "A", "ab", "b", std::string("a\0b", 3), std::string("a\0c", 3), std::string("\0", 1), "\xff", "a text that is too long for the small buffer", "a text that is too long for the small buffes", " "};
    int cells[3];

    void spaceTypes() {
        enum { TYPES = 24 };
        int type = mc::choose(TYPES);
        bool orderless = type == 10;
        int kind = mc::choose(NKIND);
        if (orderless && kind >= GT && kind <= LE) kind = EQ;
        switch (type) {
            case 0: relate<int, int, int>(kind, INTS, INTS, 77); break;
            case 1: relate<unsigned, unsigned, unsigned>(kind, UINTS, UINTS, 77); break;
            case 2: relate<long long, long long, long long>(kind, LONGS, LONGS, 77); break;
            case 3: relate<unsigned long long, unsigned long long, unsigned long long>(kind, ULONGS, ULONGS, 77); break;
            case 4: relate<double, double, double>(kind, DOUBLES, DOUBLES, 77); break;
            case 5: relate<float, float, float>(kind, FLOATS, FLOATS, 77); break;
            case 6: relate<std::string, std::string, std::string>(kind, STRINGS, STRINGS, "another text that is too long for the small buffer"); break;
            case 7: relate<const std::string &, std::string, std::string>(kind, STRINGS, STRINGS, "another text that is too long for the small buffer"); break;
            case 8: relate<Colour, Colour, Colour>(kind, {Colour::red, Colour::green, Colour::blue}, {Colour::red, Colour::green, Colour::blue}, Colour::red); break;
            case 9: {
                std::vector<Set> s;
                for (unsigned b = 0; b < 8; b++) s.push_back({b});
                relate<Set, Set, Set>(kind, s, s, Set{5});
                break;
            }
            case 10: relate<void *, void *, void *>(kind, {nullptr, &cells[0], &cells[1]}, {nullptr, &cells[0], &cells[1]}, &cells[2]); break;
            case 11: relate<int *, int *, int *>(kind, {&cells[0], &cells[1], &cells[2]}, {&cells[0], &cells[1], &cells[2]}, &cells[2]); break;
            case 12: relate<long, long, int>(kind, {-(1L << 32), -1, 0, 1, 1L << 31, 1L << 32, (1L << 32) + 1}, INTS, 77); break;
            case 13: relate<double, double, int>(kind, DOUBLES, {-256, -2, -1, 0, 1, 2, 256}, 77); break;
            case 14: relate<int, int, double>(kind, INTS, DOUBLES, 77); break;
            case 15: relate<int, int, long long>(kind, INTS, LONGS, 77); break;
            case 16: relate<const int &, int, int>(kind, INTS, INTS, 77); break;
            case 17: relate<int &, int, int>(kind, INTS, INTS, 77); break;
            case 18: relate<int &&, int, int>(kind, INTS, INTS, 77); break;
            case 19: relate<bool, bool, bool>(kind, {false, true}, {false, true}, false); break;
            case 20: {
                std::vector<Odd> s;
                for (unsigned b = 0; b < 64; b++) s.push_back({b});
                relate<Odd, Odd, Odd>(kind, s, s, Odd{5});
                break;
            }
            case 21: relate<const Set &, Set, Set>(kind, {Set{0}, Set{1}, Set{2}, Set{3}}, {Set{0}, Set{1}, Set{2}, Set{3}}, Set{5}); break;
            case 22: relate<std::string, std::string, const char *>(kind, STRINGS, {"", "a", "ab", "b", "\xff"}, "zz"); break;
            case 23: relate<short, short, short>(kind, {-32768, -129, -1, 0, 1, 128, 255, 256, 32767}, {-32768, -129, -1, 0, 1, 128, 255, 256, 32767}, 77); break;
        }
    }
    void spaceBytes() {
        int kind = mc::choose(NKIND - 1);
        switch (mc::choose(3)) {
            case 0: relate<signed char, signed char, signed char>(kind, all8<signed char>(), all8<signed char>(), 77); break;
            case 1: relate<unsigned char, unsigned char, unsigned char>(kind, all8<unsigned char>(), all8<unsigned char>(), 77); break;
            case 2: relate<char, char, char>(kind, all8<char>(), all8<char>(), 77); break;
        }
    }

    // margins; only exactly representable numbers
    template<class P, class A, class G, class M>
    void approx(const std::vector<A> &args, const std::vector<G> &givens, const std::vector<M> &margins) {
        fk::QuietAdapter q;
        G given = givens[mc::choose((int) givens.size())];
        M margin = margins[mc::choose((int) margins.size())];
        bool variable = mc::flag();
        Mock<I1<P>> m;
        Fake(Method(m, f));
        auto stub = [&](auto &&c) { When(Method(m, f).Using(std::forward<decltype(c)>(c), _)).AlwaysReturn(1); };
        auto check = [&](auto &&c, int n) { return (bool) Verify(Method(m, f).Using(std::forward<decltype(c)>(c), _)).Exactly(n); };
        if (variable) {
            G g = given;
            M e = margin;
            stub(ApproxEq(g, e));
            g = 77; e = 1;
        } else stub(ApproxEq(G(given), M(margin)));
        int accepted = 0;
        for (size_t i = 0; i < args.size(); i++) {
            long double d = (long double) args[i] - (long double) given;
            bool want = (d < 0 ? -d : d) <= (long double) margin;
            if (args[i] != args[i]) want = false;
            int got = L(m.get()).f(args[i], (int) i);
            MC_CHECK(got == want, "ApproxEq(%Lg, %Lg) %s %Lg", (long double) given, (long double) margin, got ? "accepts" : "rejects", (long double) args[i]);
            accepted += want;
            mc::step(mc::mix(i, want));
        }
        MC_CHECK(check(ApproxEq(given, margin), accepted), "verification of ApproxEq(%Lg, %Lg) does not find %d calls", (long double) given, (long double) margin, accepted);
        mc::outcome(accepted ? "accepted" : "none accepted");
    }
    void spaceApprox() {
        const std::vector<double> quarters = {nan_, -inf, -1e9, -2.25, -2, -1.75, -0.5, -0.25, 0, 0.25, 0.5, 1, 1.25, 1.5, 1.75, 2, 2.25, 1e9, inf};
        const std::vector<double> given = {-2.25, -0.25, 0, 0.25, 1.25, 2, 1e9};
        const std::vector<double> margins = {-1, 0, 0.25, 0.5, 1, 2.25, 1e9, nan_};
        switch (mc::choose(8)) {
            case 0: approx<double>(quarters, given, margins); break;
            case 1: approx<float>(std::vector<float>(quarters.begin(), quarters.end()), std::vector<float>(given.begin(), given.end()), std::vector<float>{0, 0.25f, 0.5f, 1, 2.25f}); break;
            case 2: approx<double>(quarters, std::vector<int>{-2, 0, 1, 1000}, margins); break;
            case 3: approx<int>(std::vector<int>{-70000, -300, -256, -3, -2, -1, 0, 1, 2, 3, 255, 256, 70000}, std::vector<int>{-300, -2, 0, 1, 256}, std::vector<int>{-1, 0, 1, 2, 255, 256, 300, 70000}); break;
            case 4: approx<int>(std::vector<int>{-3, -2, -1, 0, 1, 2, 3, 256}, given, margins); break;
            case 5: approx<signed char>(all8<signed char>(), all8<signed char>(), std::vector<int>{0, 1, 5, 127, 255}); break;
            case 6: approx<unsigned char>(all8<unsigned char>(), all8<unsigned char>(), std::vector<int>{0, 1, 5, 127, 255}); break;
            case 7: approx<long long>(std::vector<long long>{-(1LL << 40), -1, 0, 1, 1LL << 32, (1LL << 32) + 1, 1LL << 40}, std::vector<long long>{0, 1LL << 32}, std::vector<long long>{0, 1, 1LL << 32, 1LL << 41}); break;
        }
    }

    // C strings
    template<class P>
    void text() {
        fk::QuietAdapter q;
        static char store[][32] = {"", "a", "A", "ab", "abc", "b", "\xff", "~", "a text of twenty eight bytes", "a text of twenty eight bytez"};
        static char copy[32];
        const int n = 10;
        int kind = mc::choose(6), gi = mc::choose(n), style = mc::choose(3);
        Mock<I1<P>> m;
        Fake(Method(m, f));
        std::string given = store[gi];
        auto use = [&](auto &&stub) {
            std::string var = given;
            switch (kind) {
#define STR_STYLE(C) if (style == 0) stub(C(std::string(given))); else if (style == 1) stub(C(var)); else stub(C(store[gi]))
                case EQ: STR_STYLE(StrEq); break;
                case NE: STR_STYLE(StrNe); break;
                case GT: STR_STYLE(StrGt); break;
                case GE: STR_STYLE(StrGe); break;
                case LT: STR_STYLE(StrLt); break;
                case LE: STR_STYLE(StrLe); break;
            }
            MC_CHECK(var == given, "the variable given to the condition changed");
            var = "something else";
        };
        use([&](auto &&c) { When(Method(m, f).Using(std::forward<decltype(c)>(c), _)).AlwaysReturn(1); });
        int accepted = 0;
        for (int pass = 0; pass < 2; pass++)
            for (int i = 0; i <= n; i++) {
                int c = i == n ? 2 : strcmp(store[i], given.c_str());
                bool want = i == n ? kind == NE : kind == EQ ? c == 0 : kind == NE ? c != 0 : kind == GT ? c > 0 : kind == GE ? c >= 0 : kind == LT ? c < 0 : c <= 0;
                int got = L(m.get()).f(i == n ? nullptr : store[i], i);
                MC_CHECK(got == want, "Str%s(\"%s\") %s %s", kindName[kind], given.c_str(), got ? "accepts" : "rejects", i == n ? "a null pointer" : store[i]);
                accepted += want;
                mc::step(mc::mix(kind * 16 + gi, i));
            }
        // the same text somewhere else is the same text
        strcpy(copy, store[gi]);
        int got = L(m.get()).f(copy, n + 1);
        bool want = kind == EQ || kind == GE || kind == LE;
        MC_CHECK(got == want, "Str%s(\"%s\") %s a copy of the text", kindName[kind], given.c_str(), got ? "accepts" : "rejects");
        accepted += want;
        bool ok = false;
        use([&](auto &&c) { ok = Verify(Method(m, f).Using(std::forward<decltype(c)>(c), _)).Exactly(accepted); });
        MC_CHECK(ok, "verification of Str%s does not find %d calls", kindName[kind], accepted);
        mc::outcome("accepted");
    }
    void spaceText() {
        if (mc::flag()) text<const char *>(); else text<char *>();
    }

    // long texts that differ late
    template<class P>
    void longText() {
        static const int ns[] = {7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 4096, 5000};
        fk::QuietAdapter q;
        int n = ns[mc::choose(26)], kind = mc::choose(6), style = mc::choose(2);
        // the given text, then texts that are less, less, greater, greater
        static std::string texts[5];
        texts[0] = std::string(n - 1, 'x') + "m";
        texts[1] = std::string(n - 1, 'x') + "l";
        texts[2] = std::string(n - 1, 'x');
        texts[3] = std::string(n - 1, 'x') + "n";
        texts[4] = std::string(n - 1, 'x') + "m!";
        static const int sign[] = {0, -1, -1, 1, 1};
        Mock<I1<P>> m;
        Fake(Method(m, f));
        auto use = [&](auto &&stub) {
            std::string given = texts[0];
            switch (kind) {
#define LONG_STYLE(C) if (style == 0) stub(C(std::string(given))); else stub(C(given))
                case EQ: LONG_STYLE(StrEq); break;
                case NE: LONG_STYLE(StrNe); break;
                case GT: LONG_STYLE(StrGt); break;
                case GE: LONG_STYLE(StrGe); break;
                case LT: LONG_STYLE(StrLt); break;
                case LE: LONG_STYLE(StrLe); break;
            }
        };
        auto accepts = [&](int c) { return kind == EQ ? c == 0 : kind == NE ? c != 0 : kind == GT ? c > 0 : kind == GE ? c >= 0 : kind == LT ? c < 0 : c <= 0; };
        use([&](auto &&c) { When(Method(m, f).Using(std::forward<decltype(c)>(c), _)).AlwaysReturn(1); });
        int accepted = 0;
        for (int i = 0; i < 5; i++) {
            bool want = accepts(sign[i]);
            int got = L(m.get()).f((P) texts[i].c_str(), i);
            MC_CHECK(got == want, "Str%s with a text of %d characters %s text %d", kindName[kind], n, got ? "accepts" : "rejects", i);
            accepted += want;
            mc::step(mc::mix(kind * 16 + i, n));
        }
        bool ok = false;
        use([&](auto &&c) { ok = Verify(Method(m, f).Using(std::forward<decltype(c)>(c), _)).Exactly(accepted); });
        MC_CHECK(ok, "verification of Str%s does not find %d calls", kindName[kind], accepted);
        // the same with std::string parameters
        Mock<I1<const std::string &>> s;
        Fake(Method(s, f));
        switch (kind) {
            case EQ: When(Method(s, f).Using(Eq(texts[0]), _)).AlwaysReturn(1); break;
            case NE: When(Method(s, f).Using(Ne(texts[0]), _)).AlwaysReturn(1); break;
            case GT: When(Method(s, f).Using(Gt(texts[0]), _)).AlwaysReturn(1); break;
            case GE: When(Method(s, f).Using(Ge(texts[0]), _)).AlwaysReturn(1); break;
            case LT: When(Method(s, f).Using(Lt(texts[0]), _)).AlwaysReturn(1); break;
            case LE: When(Method(s, f).Using(Le(texts[0]), _)).AlwaysReturn(1); break;
        }
        for (int i = 0; i < 5; i++) {
            int got = L(s.get()).f(texts[i], i);
            MC_CHECK(got == accepts(sign[i]), "%s with a std::string of %d characters %s text %d", kindName[kind], n, got ? "accepts" : "rejects", i);
        }
        mc::outcome("accepted");
    }
    void spaceLongText() {
        if (mc::flag()) longText<const char *>(); else longText<char *>();
    }

    // positions
    struct I3 { virtual int f(int, int, int) = 0; virtual ~I3() {} };
    template<class F> void with(int kind, F &&f) {
        switch (kind) {
            case 0: f(Any()); break;
            case 1: f(1); break;
            case 2: f(Gt(0)); break;
            case 3: f(Ne(1)); break;
            case 4: f(Le(1)); break;
        }
    }
    bool accepts(int kind, int a) { return kind == 0 || (kind == 1 && a == 1) || (kind == 2 && a > 0) || (kind == 3 && a != 1) || (kind == 4 && a <= 1); }
    void spacePositions() {
        fk::QuietAdapter q;
        int k[3], accepted = 0;
        for (int &x : k) x = mc::choose(5);
        Mock<I3> m;
        Fake(Method(m, f));
        with(k[0], [&](auto &&a) { with(k[1], [&](auto &&b) { with(k[2], [&](auto &&c) {
            When(Method(m, f).Using(a, b, c)).AlwaysReturn(1);
        }); }); });
        for (int i = 0; i < 27; i++) {
            int a = i / 9, b = i / 3 % 3, c = i % 3;
            bool want = accepts(k[0], a) && accepts(k[1], b) && accepts(k[2], c);
            MC_CHECK(L(m.get()).f(a, b, c) == want, "conditions %d %d %d on (%d, %d, %d): expected %d", k[0], k[1], k[2], a, b, c, want);
            accepted += want;
            mc::step(mc::mix(k[0] * 25 + k[1] * 5 + k[2], i * 2 + want));
        }
        with(k[0], [&](auto &&a) { with(k[1], [&](auto &&b) { with(k[2], [&](auto &&c) {
            Verify(Method(m, f).Using(a, b, c)).Exactly(accepted);
        }); }); });
        MC_CHECK(q.events.empty(), "verification finds other calls than stubbing");
        mc::outcome("accepted");
    }
    struct I10 { virtual int f(int, int, int, int, int, int, int, int, int, int) = 0; virtual ~I10() {} };
    void spaceManyArguments() {
        fk::QuietAdapter q;
        Mock<I10> m;
        Fake(Method(m, f));
        int p = mc::choose(11);  // 10: all positions
        bool plain = mc::flag();
        auto cond = [&](auto &&use) {
            switch (p) {
                case 0: plain ? use(5, _, _, _, _, _, _, _, _, _) : use(Ge(5), _, _, _, _, _, _, _, _, _); break;
                case 1: plain ? use(_, 5, _, _, _, _, _, _, _, _) : use(_, Ge(5), _, _, _, _, _, _, _, _); break;
                case 2: plain ? use(_, _, 5, _, _, _, _, _, _, _) : use(_, _, Ge(5), _, _, _, _, _, _, _); break;
                case 3: plain ? use(_, _, _, 5, _, _, _, _, _, _) : use(_, _, _, Ge(5), _, _, _, _, _, _); break;
                case 4: plain ? use(_, _, _, _, 5, _, _, _, _, _) : use(_, _, _, _, Ge(5), _, _, _, _, _); break;
                case 5: plain ? use(_, _, _, _, _, 5, _, _, _, _) : use(_, _, _, _, _, Ge(5), _, _, _, _); break;
                case 6: plain ? use(_, _, _, _, _, _, 5, _, _, _) : use(_, _, _, _, _, _, Ge(5), _, _, _); break;
                case 7: plain ? use(_, _, _, _, _, _, _, 5, _, _) : use(_, _, _, _, _, _, _, Ge(5), _, _); break;
                case 8: plain ? use(_, _, _, _, _, _, _, _, 5, _) : use(_, _, _, _, _, _, _, _, Ge(5), _); break;
                case 9: plain ? use(_, _, _, _, _, _, _, _, _, 5) : use(_, _, _, _, _, _, _, _, _, Ge(5)); break;
                default: plain ? use(5, 5, 5, 5, 5, 5, 5, 5, 5, 5) : use(Ge(5), Ge(5), Ge(5), Ge(5), Ge(5), Ge(5), Ge(5), Ge(5), Ge(5), Ge(5));
            }
        };
        cond([&](auto &&...c) { When(Method(m, f).Using(std::forward<decltype(c)>(c)...)).AlwaysReturn(1); });
        int accepted = 0;
        for (int bits = 0; bits < 1024; bits++) {
            int a[10];
            bool want = true;
            for (int i = 0; i < 10; i++) {
                a[i] = bits >> i & 1 ? 5 : 4;
                if (i == p || p == 10) want = want && a[i] == 5;
            }
            int got = L(m.get()).f(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9]);
            MC_CHECK(got == want, "condition at position %d, pattern of arguments %x", p, bits);
            accepted += want;
            mc::step(mc::mix(p, bits));
        }
        cond([&](auto &&...c) { Verify(Method(m, f).Using(std::forward<decltype(c)>(c)...)).Exactly(accepted); });
        MC_CHECK(q.events.empty(), "verification finds other calls than stubbing");
        mc::outcome("accepted");
    }
    // twenty parameters: conditions that accept everything except at one position, or values at all
    struct I20 {
        virtual int f(int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int, int) = 0;
        virtual ~I20() {}
    };
    template<size_t... N>
    void twenty(std::index_sequence<N...>) {
        fk::QuietAdapter q;
        Mock<I20> m;
        Fake(Method(m, f));
        int p = mc::choose(21), accepted = 0, form = p == 20 ? mc::choose(3) : 0;
        auto cond = [&](auto &&use) {
            if (form == 0) use(Ge(p == 20 || p == (int) N ? 5 : -1000)...);
            else if (form == 1) use((int) (5 + 0 * N)...);
            else use(Eq((int) (5 + 0 * N))...);
        };
        cond([&](auto &&...c) { When(Method(m, f).Using(std::forward<decltype(c)>(c)...)).AlwaysReturn(1); });
        for (int i = 0; i <= 20; i++)
            for (int j = i; j <= 20; j++) {
                int a[20];
                for (int k = 0; k < 20; k++) a[k] = k == i || k == j ? 4 : 5;
                bool want = p == 20 ? i == 20 : i != p && j != p;
                int got = L(m.get()).f(a[N]...);
                MC_CHECK(got == want, "condition at position %d of 20, arguments %d and %d too small", p, i, j);
                accepted += want;
                mc::step(mc::mix(p * 4 + form, i * 21 + j));
            }
        cond([&](auto &&...c) { Verify(Method(m, f).Using(std::forward<decltype(c)>(c)...)).Exactly(accepted); });
        MC_CHECK(q.events.empty(), "verification finds other calls than stubbing");
        mc::outcome("accepted");
    }
    // mixed types, several forms at once, move-only arguments
    struct IX {
        virtual int f(int, std::string, double, const char *, std::unique_ptr<int>) = 0;
        virtual int g(const std::string &, int) = 0;
        virtual ~IX() {}
    };
    void spaceMixed() {
        fk::QuietAdapter q;
        Mock<IX> m;
        Fake(Method(m, f), Method(m, g));
        int accepted = 0, n = 0;
        int form = mc::choose(3);
        auto cond = [&](auto &&use) {
            std::string b = "bbb";
            if (form == 0) use(Gt(1), "bbb", Lt(2.5), StrEq("x"), Ne(nullptr));
            else if (form == 1) use(2, b, ApproxEq(2, 0.25), StrNe("y"), Ne(nullptr));
            else use(Any(), Eq(b), Ne(7.0), _, Eq(nullptr));
            b = "aaa";
        };
        cond([&](auto &&...c) { When(Method(m, f).Using(std::forward<decltype(c)>(c)...)).AlwaysReturn(1); });
        static char x[] = "x", y[] = "y";
        for (int bits = 0; bits < 32; bits++) {
            int i = bits & 1 ? 2 : 1;
            std::string s = bits & 2 ? "bbb" : "bb";
            double d = bits & 4 ? 2.0 : 7.0;
            const char *t = bits & 8 ? x : y;
            std::unique_ptr<int> p(bits & 16 ? new int(3) : nullptr);
            bool want = form == 2 ? (bits & 2) && (bits & 4) && !(bits & 16) : bits == 31;
            MC_CHECK(L(m.get()).f(i, s, d, t, std::move(p)) == want, "form %d, pattern of arguments %x", form, bits);
            accepted += want;
            n++;
            mc::step(mc::mix(form, bits));
        }
        cond([&](auto &&...c) { Verify(Method(m, f).Using(std::forward<decltype(c)>(c)...)).Exactly(accepted); });
        Verify(Method(m, f)).Exactly(n);
        MC_CHECK(q.events.empty(), "verification finds other calls than stubbing");
        // Method(...)(values) and Method(...)(predicate)
        std::string v = "one text that is too long for the small buffer", w = v + "!";
        static std::string keep[2];
        keep[0] = v; keep[1] = w;
        When(Method(m, g)(v, 3)).AlwaysReturn(5);
        v = "changed";
        MC_CHECK(L(m.get()).g(keep[0], 3) == 5, "value form rejects its values");
        MC_CHECK(L(m.get()).g(keep[1], 3) == 0 && L(m.get()).g(keep[0], 4) == 0, "value form accepts other values");
        When(Method(m, g)([&](const std::string &s, int i) { return s.size() == (size_t) i; })).AlwaysReturn(6);
        MC_CHECK(L(m.get()).g(keep[0], (int) keep[0].size()) == 6 && L(m.get()).g(keep[0], 3) == 5 && L(m.get()).g(keep[1], 3) == 0, "predicate form");
        MC_CHECK(!!Verify(Method(m, g)(keep[0], 3)).Exactly(2), "value form when verifying");
        MC_CHECK(!!Verify(Method(m, g)([](const std::string &s, int i) { return s.size() == (size_t) i; })).Exactly(1), "predicate form when verifying");
        mc::outcome("accepted");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 3;
        o.mandatory = {"accepted", "rejected", "none accepted"};
        o.bound = "24 parameter/value type pairs x 9 conditions x all boundary values given x all passed x 3 ways to give the value; asked 2 times each for stubbing and verifying";
        mc::add("types", o, spaceTypes);
        o.bound = "all 256 x 256 values of signed char, unsigned char and char x 8 conditions";
        mc::add("bytes", o, spaceBytes);
        o.mandatory = {"accepted"};
        o.bound = "ApproxEq on 8 type combinations x exactly representable values and margins, all 256 x 256 bytes";
        mc::add("approx", o, spaceApprox);
        o.bound = "6 string conditions x 10 texts x 12 arguments including null";
        mc::add("text", o, spaceText);
        o.shardDepth = 1;
        o.bound = "5 conditions at each of 3 positions x 27 argument lists";
        mc::add("positions", o, spacePositions);
        o.bound = "one condition at each of 10 positions or at all, 1024 argument lists";
        mc::add("many", o, spaceManyArguments);
        o.bound = "five parameters of different types x 32 argument lists x 3 forms";
        mc::add("mixed", o, spaceMixed);
        o.bound = "twenty parameters, one condition at each position or at all x 3 forms x all argument lists with up to two other values";
        mc::add("twenty", o, [] { twenty(std::make_index_sequence<20>()); });
        o.bound = "6 conditions x texts of 26 lengths up to 5000 that differ at the end x 5 arguments";
        mc::add("long text", o, spaceLongText);
    });
}
