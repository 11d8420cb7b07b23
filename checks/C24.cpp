// C24: the single header behaves like the headers it was made from. This program is built twice per configuration, once
// with each; the one built with the single header asks the other one (a process of its own) for the trace of every scenario.
#define C23_LIB
#include "C23.cpp"
#include "fk.hpp"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <signal.h>

namespace t24 {
    using namespace fakeit;
    using fk::L;
    typedef std::vector<int> Choices;
    std::string out;
    void say(const std::string &s) { out += s; out += '\n'; }
    std::string num(double d) { std::ostringstream s; s << d; return s.str(); }

    struct Base { virtual int base(int) = 0; int data; virtual ~Base() {} };
    struct Obj { int v; Obj(int v_ = 0) : v(v_) {} bool operator==(const Obj &o) const { return v == o.v; } };
    struct Printable { int v; bool operator==(const Printable &o) const { return v == o.v; } };
    std::ostream &operator<<(std::ostream &o, const Printable &p) { return o << "P" << p.v; }
    enum Colour { RED, GREEN };
    enum class Kind { A, B };
    struct X : Base {
        std::string member;
        int number;
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual std::string s(std::string) = 0;
        virtual void v() = 0;
        virtual int &ref(int) = 0;
        virtual std::unique_ptr<int> own(int) = 0;
        virtual int out2(int &, std::string *) = 0;
        virtual int d(double, float) = 0;
        virtual int cs(const char *) = 0;
        virtual int ptr(const int *) = 0;
        virtual int many(bool, char, unsigned char, long, unsigned long long, Colour, Kind) = 0;
        virtual int objects(Obj, const Printable &, Printable *, std::string, std::nullptr_t) = 0;
        virtual int over(int) = 0;
        virtual int over(int) const = 0;
        virtual int over(std::string) = 0;
        virtual int lref(int) & = 0;
        virtual int lref(int) && = 0;
        virtual int lref(int) const & = 0;
        virtual int rv(std::string &&) = 0;
        virtual Obj obj() = 0;
        virtual bool yes() const noexcept = 0;
    };
    struct Real : Base {
        int state = 5;
        int base(int x) override { return x + 1; }
        virtual int f(int x) { return 10 * x + state; }
        virtual std::string name(const std::string &s) { return "real " + s; }
        virtual int calls(int x) { return f(x) + 1; }
        virtual void set(int x) { state = x; }
        ~Real() override {}
    };
    struct Quiet {
        struct Log : EventHandler {
            template<class E> void add(const E &e) { DefaultEventFormatter f; say("event " + fk::toEvent(e).str() + "\n" + f.format(e)); throw fk::AdapterThrow{}; }
            void handle(const UnexpectedMethodCallEvent &e) override { add(e); }
            void handle(const SequenceVerificationEvent &e) override { add(e); }
            void handle(const NoMoreInvocationsVerificationEvent &e) override { add(e); }
        } log;
        Quiet() { Fakeit.setTestingFrameworkAdapter(log); }
        ~Quiet() { Fakeit.resetTestingFrameworkAdapter(); }
    };
    template<class F> void guarded(const char *what, F f) {
        try { f(); }
        catch (fk::AdapterThrow &) { say(std::string(what) + ": reported"); }
        catch (UnexpectedMethodCallException &e) { say(std::string(what) + ": unexpected " + e.what()); }
        catch (int i) { say(std::string(what) + ": threw " + std::to_string(i)); }
        catch (std::string &s) { say(std::string(what) + ": threw " + s); }
        catch (std::exception &e) { say(std::string(what) + ": " + e.what()); }
    }
    template<class T> void value(const char *what, T f) { guarded(what, [&] { say(std::string(what) + " = " + std::to_string(f())); }); }

    // 1: histories of one mock
    enum { OPS = 24 };
    void histories(const Choices &c) {
        Quiet q;
        Mock<X> m;
        X &o = L(m.get());
        int fell = 7;
        When(Method(m, s)).AlwaysReturn("text");
        for (int op : c) {
            switch (op) {
                case 0: When(Method(m, f)).Return(1, 2).Return(3); break;
                case 1: When(Method(m, f).Using(2)).AlwaysReturn(20); break;
                case 2: When(Method(m, f).Matching([](int x) { return x > 2; })).Do([](int x) { return x * 2; }); break;
                case 3: When(Method(m, f)).Return(2_Times(8)).Throw(9); break;
                case 4: Fake(Method(m, f), Method(m, g)); break;
                case 5: Method(m, g) = 77; break;
                case 6: When(Method(m, g)).AlwaysDo([&](int x) { return o.f(x) + 1; }); break;
                case 7: value("f(1)", [&] { return o.f(1); }); break;
                case 8: value("f(2)", [&] { return o.f(2); }); break;
                case 9: value("f(3)", [&] { return o.f(3); }); break;
                case 10: value("g(1)", [&] { return o.g(1); }); break;
                case 11: guarded("s", [&] { say(o.s("x")); }); break;
                case 12: guarded("verify", [&] { Verify(Method(m, f)); }); break;
                case 13: guarded("verify", [&] { Verify(Method(m, f).Using(1), Method(m, f).Using(Gt(1))).Once(); }); break;
                case 14: guarded("verify", [&] { Verify(Method(m, f) + Method(m, s)).AtLeastOnce(); }); break;
                case 15: guarded("verify", [&] { Using(m).Verify(Method(m, s) * 2).Exactly(1_Time); }); break;
                case 16: guarded("verify", [&] { Unverified.Verify(Method(m, f)).Exactly(1); }); break;
                case 17: guarded("no other", [&] { VerifyNoOtherInvocations(m); }); break;
                case 18: guarded("no other", [&] { VerifyNoOtherInvocations(Method(m, f)); }); break;
                case 19: m.ClearInvocationHistory(); break;
                case 20: m.Reset(); When(Method(m, s)).AlwaysReturn("again"); break;
                case 21: When(Method(m, ref)).AlwaysReturn(fell); guarded("ref", [&] { int &r = o.ref(1); say(&r == &fell ? "same" : "other"); }); break;
                case 22: When(Method(m, v)).Throw(5).AlwaysReturn(); guarded("v", [&] { o.v(); }); guarded("v", [&] { o.v(); }); break;
                default: say(bool(Verify(Method(m, s)).Twice()) ? "twice" : "not twice"); break;
            }
        }
        value("f(1)", [&] { return o.f(1); });
        value("f(2)", [&] { return o.f(2); });
        value("f(5)", [&] { return o.f(5); });
        value("g(1)", [&] { return o.g(1); });
        guarded("no other", [&] { VerifyNoOtherInvocations(m); });
    }
    // 2: conditions
    const double numbers[] = {-3, -1, 0, 0.5, 1, 2, 3, 1e9};
    const char *const texts[] = {"", "a", "ab", "A", "b", "abc"};
    template<class Ctx, class Call> void condition(Quiet &, const char *name, Ctx stub, Call call) {
        guarded(name, [&] { stub(); });
        value(name, call);
    }
    enum { CONDITIONS = 24 };
    void conditions(const Choices &c) {
        Quiet q;
        Mock<X> m;
        X &o = L(m.get());
        int a = (int) numbers[c[1]], b = (int) numbers[c[2]];
        double x = numbers[c[1]], y = numbers[c[2]];
        const char *t = texts[c[1] % 6], *u = texts[c[2] % 6];
        switch (c[0]) {
#define INT(n, e) case n: When(Method(m, f).Using(e)).AlwaysReturn(1); value("int", [&] { return o.f(b); }); guarded("v", [&] { Verify(Method(m, f).Using(e)).Exactly(3); }); break;
            INT(0, a) INT(1, Eq(a)) INT(2, Ne(a)) INT(3, Gt(a)) INT(4, Ge(a)) INT(5, Lt(a)) INT(6, Le(a)) INT(7, Any<int>()) INT(8, _) INT(9, Any())
#define DBL(n, e) case n: When(Method(m, d).Using(e, _)).AlwaysReturn(1); value("double", [&] { return o.d(y, 1.5f); }); guarded("v", [&] { Verify(Method(m, d).Using(e, 1.5f)).Exactly(3); }); break;
            DBL(10, x) DBL(11, ApproxEq(x, 1)) DBL(12, ApproxEq(x, 0.25)) DBL(13, Ge(x)) DBL(14, Lt(x))
#define STR(n, e) case n: When(Method(m, cs).Using(e)).AlwaysReturn(1); value("text", [&] { return o.cs(u); }); guarded("v", [&] { Verify(Method(m, cs).Using(e)).Exactly(3); }); break;
            STR(15, StrEq(t)) STR(16, StrNe(t)) STR(17, StrGt(t)) STR(18, StrGe(t)) STR(19, StrLt(t)) STR(20, StrLe(t))
            case 21: When(Method(m, s).Using(std::string(t))).AlwaysReturn("yes"); guarded("string", [&] { say(o.s(u)); }); guarded("v", [&] { Verify(Method(m, s).Using(Ne(std::string(t)))).Exactly(3); }); break;
            case 22: { const int *p[] = {nullptr, (const int *) 16, (const int *) 4096}; When(Method(m, ptr).Using(p[c[1] % 3])).AlwaysReturn(1); value("pointer", [&] { return o.ptr(p[c[2] % 3]); }); break; }
            default: When(Method(m, d)(x, 1.5f)).AlwaysReturn(1); value("call form", [&] { return o.d(y, c[2] % 2 ? 1.5f : 2.5f); }); break;
        }
    }
    // 3: numbers of uses
    void uses(const Choices &c) {
        Quiet q;
        Mock<X> m;
        X &o = L(m.get());
        int n = c[1];
        switch (c[0]) {
            case 0: { Quantifier<int> k(n, 5); When(Method(m, f)).Return(k); break; }
            case 1: { Quantifier<int> k(n, 5); When(Method(m, f)).Throw(k); break; }
            case 2: { auto l = [](int x) { return x; }; Quantifier<decltype(l)> k(n, l); When(Method(m, f)).Do(k); break; }
            case 3: { Quantifier<int> k(n, 5); When(Method(m, f)).Return(1).Return(k).Return(2); break; }
            case 4: When(Method(m, f)).Return(1, 2, 3, 4, 5, 6).Throw(7, 8); break;
            default: When(Method(m, f)).Do([](int) { return 1; }, [](int) { return 2; }).AlwaysThrow(n); break;
        }
        for (int i = 0; i < n + 3 && i < 70; i++) value("f", [&] { return o.f(i); });
        guarded("v", [&] { Verify(Method(m, f)).Exactly(n); });
        guarded("v", [&] { Verify(Method(m, f)).AtLeast(n + 1); });
        guarded("v", [&] { Verify(Method(m, f).Using(Ge(2))).Once(); });
        guarded("n", [&] { VerifyNoOtherInvocations(m); });
        guarded("v", [&] { Verify(Method(m, f) * std::max(1, n)).AtLeastOnce(); });
        guarded("n", [&] { VerifyNoOtherInvocations(Method(m, f)); });
    }
    // 4: sequences
    void sequences(const Choices &c) {
        Quiet q;
        Mock<X> a, b;
        Fake(Method(a, f), Method(a, g), Method(b, f));
        for (int i = 0; i < 5; i++) {
            if (c[2 + i] == 1) L(a.get()).f(1);
            if (c[2 + i] == 2) L(a.get()).g(2);
            if (c[2 + i] == 3) L(b.get()).f(3);
        }
        guarded("verify", [&] {
#define TERMS(e) switch (c[1]) { case 0: e; break; case 1: e.Once(); break; case 2: e.Twice(); break; case 3: e.Never(); break; case 4: e.AtLeastOnce(); break; case 5: e.Exactly(3); break; case 6: e.AtLeast(2); break; default: e.AtLeast(0); break; }
            switch (c[0]) {
                case 0: TERMS(Verify(Method(a, f))) break;
                case 1: TERMS(Verify(Method(a, f) + Method(a, g))) break;
                case 2: TERMS(Verify(Method(a, f), Method(b, f))) break;
                case 3: TERMS(Verify(Method(a, f) * 2)) break;
                case 4: TERMS(Verify((Method(a, f) + Method(b, f)) * 2)) break;
                case 5: TERMS(Using(a).Verify(Method(a, f) + Method(a, g))) break;
                case 6: TERMS(Using(a, b).Verify(Method(a, g), Method(a, f) * 2)) break;
                default: TERMS(Unverified.Verify(Method(a, f), Method(a, g))) break;
            }
        });
        guarded("n", [&] { VerifyNoOtherInvocations(a, b); });
        guarded("n", [&] { VerifyNoOtherInvocations(Method(a, f), Method(b, f)); });
    }
    // 5: arguments in messages
    void messages(const Choices &c) {
        Quiet q;
        Mock<X> m;
        X &o = L(m.get());
        Printable p{4};
        switch (c[0]) {
            case 0: When(Method(m, many)).AlwaysReturn(1); o.many(c[1] & 1, (char) ('a' + c[1]), (unsigned char) c[1], -c[1], c[1] * 1000ull, c[1] & 1 ? RED : GREEN, Kind::B); guarded("v", [&] { Verify(Method(m, many)).Never(); }); break;
            case 1: When(Method(m, objects)).AlwaysReturn(1); o.objects(Obj(c[1]), p, nullptr, std::string(c[1], 'z'), nullptr); guarded("v", [&] { Verify(Method(m, objects)).Never(); }); break;
            case 2: When(Method(m, d)).AlwaysReturn(1); o.d(numbers[c[1] % 8], 0.25f * c[1]); guarded("v", [&] { VerifyNoOtherInvocations(m); }); break;
            case 3: Fake(Method(m, f)); for (int i = 0; i < 45 + c[1]; i++) o.f(i); guarded("v", [&] { VerifyNoOtherInvocations(m); }); guarded("v", [&] { Verify(Method(m, f).Using(0)).Exactly(2); }); break;
            case 4: Fake(Method(m, cs)); o.cs(c[1] % 7 ? texts[c[1] % 6] : nullptr); guarded("v", [&] { VerifyNoOtherInvocations(m); }); break;
            default: Fake(Method(m, s), Method(m, f)); o.s("q\"" + std::to_string(c[1])); guarded("v", [&] { Verify(Method(m, s) * 2 + Method(m, f).Using(Gt(c[1])), Method(m, s).Matching([](const std::string &) { return true; })).Exactly(c[1]); }); break;
        }
    }
    // 6: everything else
    enum { OTHERS = 26 };
    int destroyed;
    struct Counted { int v; explicit Counted(int x) : v(x) {} Counted(const Counted &) = default; ~Counted() { destroyed++; } };
    struct WithCounted { virtual int f() = 0; Counted c; int a; char area[300]; WithCounted() : c(0) {} virtual ~WithCounted() {} };
    void others(const Choices &c) {
        Quiet q;
        int n = c[1];
        Mock<X> m;
        X &o = L(m.get());
        Real real;
        switch (c[0]) {
            case 0: { When(Method(m, out2)).AlwaysReturnAndSet(+n, 5, "set"); int i = 0; std::string s; value("set", [&] { return o.out2(i, &s); }); say(std::to_string(i) + s); break; }
            case 1: { using namespace fakeit::placeholders; When(Method(m, out2)).ReturnAndSet(+n, _2 <= "second").ReturnAndSet(+n, _2 <= "x", _1 <= 3); int i = 0; std::string s; for (int k = 0; k < 2; k++) { value("set", [&] { return o.out2(i, &s); }); say(std::to_string(i) + s); } break; }
            case 2: When(Method(m, own)).AlwaysDo([](int p) { return std::unique_ptr<int>(new int(p + 1)); }); guarded("own", [&] { say(std::to_string(*o.own(n))); }); break;
            case 3: Fake(Method(m, obj), Method(m, s)); guarded("faked", [&] { say(std::to_string(o.obj().v) + "'" + o.s("x") + "'"); }); break;
            case 4: m.Stub(&X::member, "data"); m.Stub(&X::number, n); say(o.member + std::to_string(o.number)); o.member += "more"; m.ClearInvocationHistory(); say(o.member + std::to_string(o.number)); m.Reset(); say(std::to_string(o.number)); break;
            case 5: { destroyed = 0; { Mock<WithCounted> w; w.Stub(&WithCounted::c, n); say(std::to_string(L(w.get()).c.v)); int sum = 0; for (char ch : L(w.get()).area) sum += ch; say(std::to_string(sum)); if (n & 1) w.Reset(); say(std::to_string(destroyed)); } say(std::to_string(destroyed)); break; }
            case 6: { Fake(Dtor(m)); for (int i = 0; i < n; i++) delete &o; guarded("v", [&] { Verify(Dtor(m)).Exactly(2); }); break; }
            case 7: When(OverloadedMethod(m, over, int(int))).AlwaysReturn(1); When(ConstOverloadedMethod(m, over, int(int))).AlwaysReturn(2); When(OverloadedMethod(m, over, int(std::string))).AlwaysReturn(3); say(std::to_string(o.over(n)) + std::to_string(const_cast<const X &>(o).over(n)) + std::to_string(o.over("x"))); guarded("v", [&] { Verify(ConstOverloadedMethod(m, over, int(int))).Exactly(n); }); break;
            case 8: When(RefOverloadedMethod(m, lref, int(int))).AlwaysReturn(1); When(RValRefOverloadedMethod(m, lref, int(int))).AlwaysReturn(2); When(ConstRefOverloadedMethod(m, lref, int(int))).AlwaysReturn(3); say(std::to_string(o.lref(n)) + std::to_string(std::move(o).lref(n)) + std::to_string(const_cast<const X &>(o).lref(n))); break;
            case 9: { When(Method(m, rv)).AlwaysDo([](std::string &s) { return (int) s.size(); }); std::string kept(n, 'x'); value("rv", [&] { return o.rv(std::move(kept)); }); guarded("v", [&] { Verify(Method(m, rv)).Never(); }); break; }
            case 10: { Base *b = &o; say(dynamic_cast<X *>(b) == &o ? "cast" : "no cast"); say(typeid(*b) == typeid(X) ? "X" : "other"); say(dynamic_cast<Real *>(b) ? "real" : "not real"); break; }
            case 11: { Mock<Real> spy(real); Spy(Method(spy, f)); value("f", [&] { return L(real).f(n); }); value("calls", [&] { return L(real).calls(n); }); guarded("v", [&] { Verify(Method(spy, f)).Exactly(n); }); break; }
            case 12: { { Mock<Real> spy(real); When(Method(spy, f)).Return(1).AlwaysDo([](int x) { return x; }); When(Method(spy, set)).AlwaysDo([](int) {}); for (int i = 0; i < 3; i++) value("f", [&] { return L(real).f(n); }); L(real).set(9); say(std::to_string(real.state)); if (n & 1) spy.Reset(); value("f", [&] { return L(real).f(n); }); } value("f", [&] { return L(real).f(n); }); break; }
            case 13: { Mock<Real> spy(real); SpyWithoutVerify(Method(spy, name)); guarded("name", [&] { say(L(real).name("x")); }); break; }
            case 14: { struct Fm : EventFormatter { std::string format(const UnexpectedMethodCallEvent &) override { return "U"; } std::string format(const SequenceVerificationEvent &) override { return "S"; } std::string format(const NoMoreInvocationsVerificationEvent &) override { return "N"; } } fm; Fakeit.setCustomEventFormatter(fm); value("f", [&] { return o.f(n); }); Fakeit.resetCustomEventFormatter(); value("f", [&] { return o.f(n); }); break; }
            case 15: { Quiet::Log extra; struct H : EventHandler { void handle(const UnexpectedMethodCallEvent &) override { say("heard U"); } void handle(const SequenceVerificationEvent &e) override { say("heard S " + std::to_string(e.actualCount())); } void handle(const NoMoreInvocationsVerificationEvent &e) override { say("heard N " + std::to_string(e.allIvocations().size())); } } h1, h2; Fakeit.addEventHandler(h1); Fakeit.addEventHandler(h2); Fake(Method(m, f)); for (int i = 0; i < n; i++) o.f(i); value("g", [&] { return o.g(1); }); guarded("v", [&] { Verify(Method(m, f)).Exactly(2); }); guarded("n", [&] { VerifyNoOtherInvocations(m); }); Fakeit.clearEventHandlers(); guarded("n", [&] { VerifyNoOtherInvocations(m); }); break; }
            case 16: { When(Method(m, yes)).Return(n & 1).AlwaysReturn(true); say(o.yes() ? "yes" : "no"); say(o.yes() ? "yes" : "no"); guarded("v", [&] { Verify(Method(m, yes)).Exactly(n); }); break; }
            case 17: { Mock<X> m2; When(Method(m, f)).AlwaysReturn(n); When(Method(m2, f)).AlwaysReturn(n + 1); value("f", [&] { return o.f(1); }); value("f", [&] { return L(m2.get()).f(1); }); guarded("v", [&] { Verify(Method(m, f) + Method(m2, f)).Exactly(n); }); break; }
            case 18: { try { When(Method(m, f)).Return(1); throw 1; } catch (int) {} value("f", [&] { return o.f(1); }); value("f", [&] { return o.f(1); }); break; }
            case 19: { Fake(Method(m, f)); for (int i = 0; i < n; i++) o.f(i); try { Verify(Method(m, f)).Exactly(n); throw std::string("inside"); } catch (std::string &s) { say(s); } guarded("v", [&] { Verify(Method(m, f)).AtLeast(n + 1); }); break; }
            case 20: { Mock<Real> spy(real); guarded("unstubbed", [&] { say(std::to_string(L(real).f(n))); }); guarded("n", [&] { VerifyNoOtherInvocations(spy); }); break; }
            case 21: { Fake(Method(m, f)); o.f(n); if (Verify(Method(m, f).Using(n))) say("verified"); if (!Verify(Method(m, f).Using(n + 1))) say("not verified"); guarded("n", [&] { VerifyNoOtherInvocations(m); }); break; }
            case 22: { Method(m, s) = [](const std::string &x) { return x + x; }; guarded("s", [&] { say(o.s(std::string(n, 'y'))); }); break; }
            case 23: { auto *pm = new Mock<X>(); When(Method((*pm), f)).AlwaysReturn(n); value("f", [&] { return L(pm->get()).f(1); }); X &inst = (*pm)(); value("f", [&] { return L(inst).f(2); }); guarded("v", [&] { Verify(Method((*pm), f)).Exactly(n); }); delete pm; break; }
            case 24: { Real r2; { Mock<Real> s1(real), s2(r2); Method(s1, f) = 1; Method(s2, f) = 2; say(std::to_string(L(real).f(0)) + std::to_string(L(r2).f(0)) + std::to_string(L(real).calls(0))); } say(std::to_string(L(real).f(n)) + std::to_string(L(r2).f(n))); break; }
            default: { When(Method(m, base)).AlwaysReturn(n); value("base", [&] { return static_cast<Base &>(o).base(1); }); o.data = 4; guarded("v", [&] { Verify(Method(m, base).Using(1)).Exactly(n); }); break; }
        }
    }
    // 7: the adapter: what the framework recorded for a test case
    void adapters(const Choices &c) {
        prepare(3);
        size_t i = 0;
        for (int op : c) i = i * NOPS + op;
        const Case &k = cases[i];
        say(std::string(k.ran ? "ran" : "not run") + (k.finished ? " to the end" : "") + (k.failed ? ", failed" : ", passed") + ", begun " + std::to_string(k.begun));
        for (auto &g : k.got) say("failure " + (g.file == here || g.file == PLACE_FILE ? "at line " + std::to_string(g.line) : std::string("elsewhere")) + ": " + g.text);
    }
    std::string scenario(int family, const Choices &c) {
        out.clear();
        switch (family) {
            case 1: histories(c); break;
            case 2: conditions(c); break;
            case 3: uses(c); break;
            case 4: sequences(c); break;
            case 5: messages(c); break;
            case 6: others(c); break;
            default: adapters(c); break;
        }
        return out;
    }

    // the other program
    struct Companion {
        pid_t pid = 0, owner = 0;
        int to = -1, from = -1;
        std::string path;
        void start() {
            int a[2], b[2];
            if (pipe(a) || pipe(b)) abort();
            owner = getpid();
            pid = fork();
            if (!pid) {
                dup2(a[0], 0);
                dup2(b[1], 1);
                for (int i = 3; i < 256; i++) close(i);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                execl(path.c_str(), path.c_str(), "--serve", (char *) nullptr);
                _exit(127);
            }
            close(a[0]);
            close(b[1]);
            to = a[1];
            from = b[0];
        }
        bool all(int fd, char *p, size_t n, bool writing) {
            while (n) {
                ssize_t r = writing ? write(fd, p, n) : read(fd, p, n);
                if (r <= 0) return false;
                p += r;
                n -= r;
            }
            return true;
        }
        std::string ask(int family, const Choices &c) {
            signal(SIGPIPE, SIG_IGN);
            if (!pid || owner != getpid()) {
                if (pid) { close(to); close(from); }
                start();
            }
            std::vector<int> msg = {family, (int) c.size()};
            msg.insert(msg.end(), c.begin(), c.end());
            int len = 0;
            std::string r;
            bool ok = all(to, (char *) msg.data(), msg.size() * sizeof(int), true) && all(from, (char *) &len, sizeof len, false);
            if (ok) { r.resize(len); ok = all(from, &r[0], len, false); }
            if (!ok) {
                close(to);
                close(from);
                int st = 0;
                waitpid(pid, &st, 0);
                pid = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 127) { fprintf(stderr, "cannot start %s\n", path.c_str()); _exit(3); }
                return "crash";
            }
            return r;
        }
    } companion;
    int serve() {
        int in = dup(0), to = dup(1);
        dup2(2, 1);
        for (;;) {
            int head[2];
            if (!companion.all(in, (char *) head, sizeof head, false)) return 0;
            Choices c(head[1]);
            if (!companion.all(in, (char *) c.data(), c.size() * sizeof(int), false)) return 0;
            std::string r = scenario(head[0], c);
            int len = (int) r.size();
            companion.all(to, (char *) &len, sizeof len, true);
            companion.all(to, &r[0], len, true);
        }
    }
    void compare(int family, const Choices &c) {
        uint64_t h = family;
        for (int x : c) { h = mc::mix(h, x); mc::step(h); }
        std::string other = companion.ask(family, c), mine = scenario(family, c);
        MC_LOG("multi-file headers:\n%ssingle header:\n%s", other.c_str(), mine.c_str());
        if (mine != other) {
            size_t i = 0;
            while (i < mine.size() && i < other.size() && mine[i] == other[i]) i++;
            size_t from = mine.rfind('\n', i ? i - 1 : 0);
            from = from == std::string::npos ? 0 : from + 1;
            MC_CHECK(false, "the single header gives '%s', the multi-file headers '%s'", mine.substr(from, 120).c_str(), other.substr(from, 120).c_str());
        }
        mc::outcome("compared");
    }
    Choices draw(std::initializer_list<int> n) {
        Choices c;
        for (int k : n) c.push_back(mc::choose(k));
        return c;
    }
}

int main(int argc, char **argv) {
    if (argc > 1 && std::string(argv[1]) == "--serve") return t24::serve();
    char self[4096];
    ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1);
    self[n > 0 ? n : 0] = 0;
    std::string dir(self);
    dir.resize(dir.rfind('/'));
    t24::companion.path = dir + "-multi/prog";
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 2;
        o.mandatory = {"compared"};
        o.bound = "all sequences of 3 (4) of 24 operations on one mock, then everything used";
        mc::add("histories", o, [] {
            t24::Choices c;
            for (int i = 0; i < mc::bound(3, 4); i++) c.push_back(mc::choose(24));
            t24::compare(1, c);
        });
        o.bound = "24 conditions x 8 expected values x 8 arguments";
        mc::add("conditions", o, [] { t24::compare(2, t24::draw({24, 8, 8})); });
        o.bound = "6 kinds of actions, 0 to 60 uses";
        mc::add("uses", o, [] { t24::compare(3, t24::draw({6, 61})); });
        o.bound = "8 patterns x 8 terminators x all histories of up to 4 (5) calls of 3 methods";
        mc::add("sequences", o, [] {
            t24::Choices c = t24::draw({8, 8});
            int n = mc::bound(4, 5);
            for (int i = 0; i < 5; i++) c.push_back(i < n ? mc::choose(4) : 0);
            t24::compare(4, c);
        });
        o.bound = "6 kinds of messages x 12 values";
        mc::add("messages", o, [] { t24::compare(5, t24::draw({6, 12})); });
        o.bound = "26 other scenarios x 4 values";
        mc::add("others", o, [] { t24::compare(6, t24::draw({26, 4})); });
        o.bound = "all sequences of 3 of 16 operations, each one test case of one run of the framework's runner";
        mc::add("test cases", o, [] { t24::compare(7, t24::draw({16, 16, 16})); });
    });
}
