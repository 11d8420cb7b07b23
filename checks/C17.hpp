// What every translation unit of the check of C17 can do.
#pragma once
#include "fk.hpp"
#include <memory>

// Produces events.  Every operation returns what a user sees: "" or "threw <what>".
struct Producer {
    virtual ~Producer() {}
    virtual std::string unmocked() = 0;
    virtual std::string unmatched() = 0;
    virtual std::string exhausted() = 0;
    virtual std::string nested() = 0;
    virtual std::string verify() = 0;
    virtual std::string verifyAtLeast() = 0;
    virtual std::string noOther() = 0;
    virtual std::string quiet() = 0;
    virtual std::string verifyNever() = 0;
    virtual std::string verifyOnce() = 0;
    virtual std::string verifyLess() = 0;
    virtual std::string verifySeveral() = 0;
    virtual std::string noOtherPart() = 0;
};
struct Unit {
    std::unique_ptr<Producer> (*make)();
    void (*addListener)(fakeit::EventHandler &);
    void (*clearListeners)();
    void (*setAdapter)(fakeit::EventHandler &);
    void (*resetAdapter)();
    void (*setFormatter)(fakeit::EventFormatter &);
    void (*resetFormatter)();
};
extern const Unit unitA, unitB;

#ifdef UNIT
namespace {
    using namespace fakeit;
    struct P { virtual int f(int) = 0; virtual int g(int) = 0; virtual int h(int) = 0; virtual ~P() {} };
    struct Impl : Producer {
        Mock<P> m;
        Impl() {
            When(Method(m, f).Using(1)).AlwaysReturn(1);
            When(Method(m, h)).Return(1);
            P &p = fk::L(m.get());
            p.f(1);
            p.h(1);
        }
        template<class F>
        std::string seen(F &&f) {
            try { f(); return ""; }
            catch (fk::AdapterThrow &t) { return "adapter threw"; }
            catch (NoMoreInvocationsVerificationException &e) { return std::string("nomore: ") + e.what(); }
            catch (SequenceVerificationException &e) { return std::string("sequence: ") + e.what(); }
            catch (UnexpectedMethodCallException &e) { return std::string("unexpected: ") + e.what(); }
        }
        std::string unmocked() override { return seen([&] { fk::L(m.get()).g(2); }); }
        std::string unmatched() override { return seen([&] { fk::L(m.get()).f(2); }); }
        std::string exhausted() override { m.ClearInvocationHistory(); fk::L(m.get()).f(1); return seen([&] { fk::L(m.get()).h(2); }); }
        std::string nested() override { return seen([&] { Mock<P> n; When(Method(n, f)).AlwaysDo([&](int x) { return fk::L(m.get()).f(x); }); fk::L(n.get()).f(3); }); }
        std::string verify() override { return seen([&] { Verify(Method(m, f).Using(7)).Exactly(2); }); }
        std::string verifyAtLeast() override { return seen([&] { Using(m).Verify(Method(m, f).Using(7)).AtLeast(3); }); }
        std::string noOther() override { return seen([&] { VerifyNoOtherInvocations(m); }); }
        std::string verifyNever() override { return seen([&] { Verify(Method(m, f)).Never(); }); }
        std::string verifyOnce() override { return seen([&] { Verify(Method(m, f).Using(7)).Once(); }); }
        std::string verifyLess() override { fk::L(m.get()).f(1); return seen([&] { Verify(Method(m, f)).Exactly(Once); }); }
        std::string verifySeveral() override { return seen([&] { Verify(Method(m, h), Method(m, f) + Method(m, h)); }); }
        std::string noOtherPart() override { Verify(Method(m, h)); return seen([&] { VerifyNoOtherInvocations(Method(m, f), Method(m, h)); }); }
        std::string quiet() override {
            return seen([&] {
                fk::L(m.get()).f(1);
                m.ClearInvocationHistory();
                fk::L(m.get()).f(1);
                bool no = Verify(Method(m, f).Using(7));
                Verify(Method(m, f).Using(7)).Never();
                VerifyNoOtherInvocations(Method(m, f).Using(7));
                if (no) throw fk::AdapterThrow{9};
            });
        }
    };
}
const Unit UNIT = {
    []() -> std::unique_ptr<Producer> { return std::unique_ptr<Producer>(new Impl()); },
    [](fakeit::EventHandler &h) { Fakeit.addEventHandler(h); },
    [] { Fakeit.clearEventHandlers(); },
    [](fakeit::EventHandler &h) { Fakeit.setTestingFrameworkAdapter(h); },
    [] { Fakeit.resetTestingFrameworkAdapter(); },
    [](fakeit::EventFormatter &f) { Fakeit.setCustomEventFormatter(f); },
    [] { Fakeit.resetCustomEventFormatter(); },
};
#endif
