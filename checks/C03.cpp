// C03: every unsupported call is reported once, raises, and leaves the state as it was.
#include "fk.hpp"
#include "heap.hpp"
#include <deque>
using namespace fakeit;
using fk::L;

namespace {
    struct Wide { long a, b, c, d; };
    struct Base {
        virtual int inherited(int) = 0;
        virtual ~Base() {}
    };
    struct I : Base {
        virtual int f(int) = 0;
        virtual void v(const std::string &) = 0;
        virtual int g(int, int) const = 0;
        virtual double d(double) = 0;
        virtual int &r(int) = 0;
        virtual void none() = 0;
        virtual bool b(bool, char, const char *) = 0;
        virtual int o(int) = 0;
        virtual int o(const std::string &) = 0;
        virtual int o(int) const = 0;
        virtual std::string str(int) = 0;
        virtual std::unique_ptr<int> u(int) = 0;
        virtual Wide w(Wide) = 0;
        virtual int up(std::unique_ptr<int>) = 0;
        virtual int rr(int &&) = 0;
        virtual int ref(int &) = 0;
        virtual int ptr(int *) = 0;
        virtual int vol(int) volatile = 0;
        virtual int lref(int) & = 0;
        virtual int rref(int) && = 0;
        virtual long many(int, long, char, double, float, unsigned, short, int, int, const std::string &) = 0;
        virtual const std::string &cs(int) = 0;
        virtual void *vp(void *) = 0;
    };

    struct CustomFormatter : EventFormatter {
        int calls = 0;
        std::string format(const UnexpectedMethodCallEvent &e) override { calls++; return "F!" + e.getInvocation().format() + (e.getUnexpectedType() == UnexpectedType::Unmocked ? "/0" : "/1"); }
        std::string format(const SequenceVerificationEvent &) override { return "S!"; }
        std::string format(const NoMoreInvocationsVerificationEvent &) override { return "N!"; }
    };

    // The event environment: listeners, adapter, formatter.
    struct Env {
        int nl, adapterKind, fmtKind;
        std::vector<int> order;
        std::deque<fk::Recorder> listeners;
        fk::Recorder adapter;
        CustomFormatter formatter;
        size_t expectedEvents = 0;
        Env(int l, int a, int f) : nl(l), adapterKind(a), fmtKind(f) {
            for (int i = 0; i < nl; i++) {
                listeners.emplace_back();
                listeners.back().order = &order;
                listeners.back().id = i;
                Fakeit.addEventHandler(listeners.back());
            }
            adapter.order = &order;
            adapter.id = 9;
            adapter.throwing = a == 2;
            if (a) Fakeit.setTestingFrameworkAdapter(adapter);
            if (f) Fakeit.setCustomEventFormatter(formatter);
        }
        ~Env() {
            Fakeit.clearEventHandlers();
            Fakeit.resetTestingFrameworkAdapter();
            Fakeit.resetCustomEventFormatter();
        }
        // after a call: type -1 supported, 0 unmocked, 1 unmatched
        template<class F>
        void call(const char *name, F f, int type, const std::string &what, int wantValue) {
            int thrown = 0, value = 0;
            std::string msg;
            try { fk::there([&] { value = f(); }); }
            catch (UnexpectedMethodCallException &e) { thrown = 1; msg = e.what(); }
            catch (fk::AdapterThrow &t) { thrown = 2; MC_CHECK(t.kind == fk::Event::Unexpected, "wrong event kind given to the adapter"); }
            catch (int e) { thrown = 3; value = e; }
            MC_LOG("%s -> thrown %d value %d (%s); expected type %d what %s", name, thrown, value, msg.c_str(), type, what.c_str());
            std::vector<int> wantOrder;
            if (type >= 0) {
                for (int i = 0; i < nl; i++) wantOrder.push_back(i);
                if (adapterKind) wantOrder.push_back(9);
            }
            MC_CHECK(order == wantOrder, "%s: %zu deliveries to listeners and adapter, expected %zu (in registration order, adapter last)", name, order.size(), wantOrder.size());
            order.clear();
            if (type < 0) {
                mc::outcome("supported");
                MC_CHECK(thrown == 0 || thrown == 3, "%s: a supported call raised", name);
                MC_CHECK(value == wantValue, "%s: gave %d instead of %d", name, value, wantValue);
                return;
            }
            mc::outcome(type ? "unmatched" : "unmocked");
            for (auto &l : listeners) { checkEvent(name, l.events, type, what); l.events.clear(); }
            if (adapterKind) { checkEvent(name, adapter.events, type, what); adapter.events.clear(); }
            if (adapterKind == 2) { MC_CHECK(thrown == 2, "%s: the exception of the adapter did not reach the caller (%d)", name, thrown); return; }
            MC_CHECK(thrown == 1, "%s: no unexpected-method-call exception (%d)", name, thrown);
            if (fmtKind) MC_CHECK(msg == "F!" + what + (type ? "/1" : "/0"), "%s: the exception does not carry the formatted message: %s", name, msg.c_str());
            else MC_CHECK(msg.find(what) != std::string::npos, "%s: the message does not name the call: %s", name, msg.c_str());
        }
        void checkEvent(const char *name, std::vector<fk::Event> &ev, int type, const std::string &what) {
            MC_CHECK(ev.size() == 1, "%s: %zu events", name, ev.size());
            MC_CHECK(ev[0].kind == fk::Event::Unexpected && ev[0].type == type, "%s: wrong kind of event %s", name, ev[0].str().c_str());
            MC_CHECK(ev[0].what == what, "%s: event says %s, expected %s", name, ev[0].what.c_str(), what.c_str());
        }
    };

    // ---------------- model ----------------
    const int INF = 1 << 20;
    struct St { int cond, uses, id; };  // cond 0 any, else equal to
    struct M {
        std::vector<St> stubs;
        // returns -1 supported, 0 unmocked, 1 unmatched; recorded says whether it enters the history
        int call(int key, int &value, bool &recorded) {
            recorded = false;
            if (stubs.empty()) return 0;
            for (size_t i = stubs.size(); i-- > 0;) {
                St &s = stubs[i];
                if (s.cond && s.cond != key) continue;
                recorded = true;
                if (!s.uses) return 1;
                if (s.uses < INF) s.uses--;
                value = s.id;
                return -1;
            }
            return 1;
        }
        uint64_t hash(uint64_t h) const { for (auto &s : stubs) h = mc::mix(mc::mix(h, s.cond), s.uses > 3 ? 9 : s.uses); return mc::mix(h, 5); }
    };

    void checkHistory(Mock<I> &m, std::vector<std::string> &hist) {
        fk::QuietAdapter q;
        Fakeit.clearEventHandlers();
        VerifyNoOtherInvocations(m);
        if (hist.empty()) { MC_CHECK(q.events.empty(), "the history should be empty but holds %s", q.events[0].str().c_str()); return; }
        MC_CHECK(q.events.size() == 1, "the history of %zu calls is not reported", hist.size());
        MC_CHECK(q.events[0].unverified == hist, "history is %s, %zu calls expected", q.events[0].str().c_str(), hist.size());
    }

    void spaceHistories(bool wideEnv, int D) {
        int nl = wideEnv ? mc::choose(3) : 1;
        int ak = wideEnv ? mc::choose(3) : mc::choose(2);
        int fm = wideEnv ? mc::choose(2) : 0;
        Env env(nl, ak, fm);
        Mock<I> m;
        I &o = L(m.get());
        M f, v, g;
        std::vector<std::string> hist;
        int id = 10;
        int gv = 0;
        for (int d = 0; d <= D; d++) {
            int op = d == D ? 0 : mc::choose(16);
            if (op == 0) break;
            id++;
            bool rec = false;
            int val = 0, type;
            std::string what;
            switch (op) {
                case 1: MC_LOG("stub f any once"); When(Method(m, f)).Return(id); f.stubs.push_back({0, 1, id}); break;
                case 2: MC_LOG("stub f(1) once"); When(Method(m, f)(1)).Return(id); f.stubs.push_back({1, 1, id}); break;
                case 3: MC_LOG("stub f(1) always"); When(Method(m, f).Using(1)).AlwaysReturn(id); f.stubs.push_back({1, INF, id}); break;
                case 4: MC_LOG("stub f(2) throw once"); When(Method(m, f).Using(2)).Throw(id); f.stubs.push_back({2, 1, id}); break;
                case 5: case 6: {
                    int a = op - 4;
                    type = f.call(a, val, rec);
                    what = "m.f(" + std::to_string(a) + ")";
                    if (rec) hist.push_back(what);
                    env.call(what.c_str(), [&] { return o.f(a); }, type, type == 0 ? "unknown()" : what, val);
                    break;
                }
                case 7: MC_LOG("stub v(a) once"); When(Method(m, v)(std::string("a"))).Do([&gv, id](const std::string &) { gv = id; }); v.stubs.push_back({1, 1, id}); break;
                case 8: MC_LOG("stub v any always"); When(Method(m, v)).AlwaysDo([&gv, id](const std::string &) { gv = id; }); v.stubs.push_back({0, INF, id}); break;
                case 9: case 10: {
                    int a = op - 8;
                    static const std::string SA("a"), SB("b");
            const std::string &s = a == 1 ? SA : SB;
                    type = v.call(a, val, rec);
                    what = "m.v(" + s + ")";
                    if (rec) hist.push_back(what);
                    env.call(what.c_str(), [&] { gv = 0; o.v(s); return gv; }, type, type == 0 ? "unknown()" : what, val);
                    break;
                }
                case 11: MC_LOG("stub g(1,2) once"); When(Method(m, g).Using(1, 2)).Return(id); g.stubs.push_back({12, 1, id}); break;
                case 12: MC_LOG("stub g always fake"); Fake(Method(m, g)); g.stubs.push_back({0, INF, 0}); break;
                case 13: case 14: {
                    int b = op - 12;
                    type = g.call(10 + b, val, rec);
                    what = "m.g(1, " + std::to_string(b) + ")";
                    if (rec) hist.push_back(what);
                    env.call(what.c_str(), [&] { return static_cast<const I &>(o).g(1, b); }, type, type == 0 ? "unknown()" : what, val);
                    break;
                }
                case 15: env.call("d (never stubbed)", [&] { return (int) o.d(1); }, 0, "unknown()", 0); break;
            }
            mc::step(g.hash(v.hash(f.hash(hist.size()))));
        }
        // what is left behaves as the model says
        for (int a = 1; a <= 2; a++) {
            bool rec;
            int val = 0;
            int type = f.call(a, val, rec);
            std::string what = "m.f(" + std::to_string(a) + ")";
            if (rec) hist.push_back(what);
            env.call(what.c_str(), [&] { return o.f(a); }, type, type == 0 ? "unknown()" : what, val);
            type = v.call(a, val, rec);
            static const std::string SA("a"), SB("b");
            const std::string &s = a == 1 ? SA : SB;
            what = "m.v(" + s + ")";
            if (rec) hist.push_back(what);
            env.call(what.c_str(), [&] { gv = 0; o.v(s); return gv; }, type, type == 0 ? "unknown()" : what, val);
        }
        checkHistory(m, hist);
    }

    // ---------------- every method shape: absent, rejected, used up, then supported ----------------
    struct Shape {
        std::string what;                 // text of the call
        std::function<void()> stub;       // accepts the call once and yields 77
        std::function<void()> stubOther;  // does not accept the call
        std::function<int()> call;
        bool sret;
    };
    int gi;
    std::string gs("77");
    Shape shape(Mock<I> &m, int k) {
        static int x, y, out;
        static const std::string sx("x"), ss("s"), ten("ten");
        x = 5; y = 6; out = 0;
        gi = 77;
        I &o = L(m.get());
        switch (k) {
            case 0: return {"m.f(5)", [&] { When(Method(m, f)(5)).Return(77); }, [&] { When(Method(m, f)(6)).AlwaysReturn(1); }, [&o] { return o.f(5); }, false};
            case 1: return {"m.v(x)", [&] { When(Method(m, v)(std::string("x"))).Do([](const std::string &) { out = 77; }); }, [&] { Fake(Method(m, v)(std::string("y"))); }, [&o] { out = 0; o.v(sx); return out; }, false};
            case 2: return {"m.g(1, 2)", [&] { When(Method(m, g)(1, 2)).Return(77); }, [&] { When(Method(m, g)(2, 1)).AlwaysReturn(1); }, [&o] { return static_cast<const I &>(o).g(1, 2); }, false};
            case 3: return {"m.d(2.5)", [&] { When(Method(m, d)(2.5)).Return(77.0); }, [&] { When(Method(m, d).Using(Gt(3.0))).AlwaysReturn(1.0); }, [&o] { return (int) o.d(2.5); }, false};
            case 4: return {"m.r(5)", [&] { When(Method(m, r)(5)).Return(gi); }, [&] { When(Method(m, r)(6)).AlwaysReturn(x); }, [&o] { return o.r(5); }, false};
            case 5: return {"m.none()", [&] { When(Method(m, none)).Do([] { out = 77; }); }, [&] { When(Method(m, none).Matching([] { return false; })).AlwaysDo([] { out = 1; }); }, [&o] { out = 0; o.none(); return out; }, false};
            case 6: return {"m.b(true, 'c', \"t\")", [&] { When(Method(m, b).Matching([](bool, char c, const char *) { return c == 'c'; })).Do([](bool, char, const char *) { out = 77; return true; }); },
                            [&] { When(Method(m, b).Matching([](bool b, char, const char *) { return !b; })).AlwaysReturn(false); }, [&o] { out = 0; bool r = o.b(true, 'c', "t"); return r ? out : 0; }, false};
            case 7: return {"m.o(5)", [&] { When(OverloadedMethod(m, o, int(int))(5)).Return(77); }, [&] { When(OverloadedMethod(m, o, int(int))(6)).AlwaysReturn(1); }, [&o] { return o.o(5); }, false};
            case 8: return {"m.o(s)", [&] { When(OverloadedMethod(m, o, int(const std::string &))(std::string("s"))).Return(77); }, [&] { When(OverloadedMethod(m, o, int(const std::string &))(std::string("q"))).AlwaysReturn(1); }, [&o] { return o.o(ss); }, false};
            case 9: return {"m.o(5)", [&] { When(ConstOverloadedMethod(m, o, int(int))(5)).Return(77); }, [&] { When(ConstOverloadedMethod(m, o, int(int))(6)).AlwaysReturn(1); }, [&o] { return static_cast<const I &>(o).o(5); }, false};
            case 10: return {"m.str(5)", [&] { When(Method(m, str)(5)).Return("77"); }, [&] { When(Method(m, str)(6)).AlwaysReturn("1"); }, [&o] { return atoi(o.str(5).c_str()); }, true};
            case 11: return {"m.u(5)", [&] { When(Method(m, u)(5)).Return(std::unique_ptr<int>(new int(77))); }, [&] { When(Method(m, u)(6)).AlwaysDo([](int) { return std::unique_ptr<int>(); }); }, [&o] { auto p = o.u(5); return p ? *p : 0; }, true};
            case 12: return {"m.w(?)", [&] { When(Method(m, w).Matching([](const Wide &w) { return w.a == 5; })).Do([](const Wide &w) { return Wide{77, w.b, w.c, w.d}; }); },
                             [&] { When(Method(m, w).Matching([](const Wide &w) { return w.d == 5; })).AlwaysReturn(Wide{1, 1, 1, 1}); }, [&o] { Wide r = o.w(Wide{5, 6, 7, 8}); return r.b == 6 && r.d == 8 ? (int) r.a : 0; }, true};
            case 13: return {"m.up(?)", [&] { When(Method(m, up).Matching([](std::unique_ptr<int> &p) { return *p == 5; })).Return(77); }, [&] { When(Method(m, up).Matching([](std::unique_ptr<int> &p) { return *p == 6; })).AlwaysReturn(1); },
                             [&o] { return o.up(std::unique_ptr<int>(new int(5))); }, false};
            case 14: return {"m.rr(5)", [&] { When(Method(m, rr).Matching([](int &a) { return a == 5; })).Return(77); }, [&] { When(Method(m, rr).Matching([](int &a) { return a == 6; })).AlwaysReturn(1); }, [&o] { return o.rr(std::move(x)); }, false};
            case 15: return {"m.ref(5)", [&] { When(Method(m, ref).Using(5)).Return(77); }, [&] { When(Method(m, ref).Using(6)).AlwaysReturn(1); }, [&o] { return o.ref(x); }, false};
            case 16: return {"", [&] { When(Method(m, ptr)(&x)).Return(77); }, [&] { When(Method(m, ptr)(&y)).AlwaysReturn(1); }, [&o] { return o.ptr(&x); }, false};
            case 17: return {"m.vol(5)", [&] { When(Method(m, vol)(5)).Return(77); }, [&] { When(Method(m, vol)(6)).AlwaysReturn(1); }, [&o] { return o.vol(5); }, false};
            case 18: return {"m.lref(5)", [&] { When(Method(m, lref)(5)).Return(77); }, [&] { When(Method(m, lref)(6)).AlwaysReturn(1); }, [&o] { return o.lref(5); }, false};
            case 19: return {"m.rref(5)", [&] { When(Method(m, rref)(5)).Return(77); }, [&] { When(Method(m, rref)(6)).AlwaysReturn(1); }, [&o] { return std::move(o).rref(5); }, false};
            case 20: return {"m.many(1, 2, '3', 4, 5, 6, 7, 8, 9, ten)", [&] { When(Method(m, many)).Return(77L); },
                             [&] { When(Method(m, many).Matching([](int, long, char, double, float, unsigned, short, int, int, const std::string &s) { return s == "x"; })).AlwaysReturn(1L); },
                             [&o] { return (int) o.many(1, 2, '3', 4, 5, 6, 7, 8, 9, ten); }, false};
            case 21: return {"m.cs(5)", [&] { When(Method(m, cs)(5)).Return(gs); }, [&] { When(Method(m, cs)(6)).AlwaysReturn(gs); }, [&o] { return atoi(o.cs(5).c_str()); }, false};
            case 22: return {"", [&] { When(Method(m, vp)(&x)).Return(&gi); }, [&] { When(Method(m, vp)(&y)).AlwaysReturn(&x); }, [&o] { return *(int *) o.vp(&x); }, false};
            case 23: return {"m.inherited(5)", [&] { When(Method(m, inherited)(5)).Return(77); }, [&] { When(Method(m, inherited)(6)).AlwaysReturn(1); }, [&o] { return o.inherited(5); }, false};
        }
        return {};
    }
    const int NSH = 24;
    void spaceShapes() {
        int k = mc::choose(NSH), nl = mc::choose(2), ak = mc::choose(3), fm = mc::choose(2);
        Env env(nl, ak, fm);
        Mock<I> m;
        Shape s = shape(m, k);
        if (s.what.empty()) s.what = k == 16 ? "m.ptr(" : "m.vp(";  // addresses are not compared
        bool addr = s.what.back() == '(';
        int uses = 0;
        bool stubbed = false, otherNewest = false;
        int D = mc::bound(5, 6), recorded = 0;
        for (int d = 0; d < D; d++) {
            int op = mc::choose(4);
            if (op == 0) break;
            if (op == 1) { MC_LOG("stub accepting once"); s.stub(); uses = 1; stubbed = true; otherNewest = false; }
            if (op == 2) { MC_LOG("stub rejecting"); s.stubOther(); if (!stubbed) uses = -1; stubbed = true; otherNewest = true; }
            if (op == 3) {
                if (!stubbed && s.sret) mc::prune();  // a stubless method returning a class in memory: see the probe
                int type = !stubbed ? 0 : uses > 0 ? -1 : 1;
                bool rec = stubbed && uses >= 0;
                recorded += rec;
                if (uses > 0) uses--;
                if (addr && type == 1) {
                    size_t before = env.listeners.size() ? env.listeners[0].events.size() : 0;
                    (void) before;
                    int thrown = 0;
                    try { s.call(); } catch (UnexpectedMethodCallException &) { thrown = 1; } catch (fk::AdapterThrow &) { thrown = 2; }
                    MC_CHECK(thrown == (ak == 2 ? 2 : 1), "%s wrong exception %d", s.what.c_str(), thrown);
                    for (auto &l : env.listeners) {
                        MC_CHECK(l.events.size() == 1 && l.events[0].what.find(s.what) == 0, "%s event missing or wrong", s.what.c_str());
                        l.events.clear();
                    }
                    env.adapter.events.clear();
                    env.order.clear();
                } else {
                    env.call(s.what.c_str(), s.call, type, type == 0 ? "unknown()" : s.what, 77);
                }
            }
            mc::step(mc::mix(mc::mix(k, uses + 2), stubbed * 2 + otherNewest));
        }
        fk::QuietAdapter q;
        Fakeit.clearEventHandlers();
        VerifyNoOtherInvocations(m);
        int seen = q.events.empty() ? 0 : (int) q.events[0].unverified.size();
        MC_CHECK(seen == recorded, "%s: %d calls in the history, expected %d", s.what.c_str(), seen, recorded);
    }

    // ---------------- unsupported calls from inside actions and originals ----------------
    struct Real : I {
        int inherited(int a) override { return o(a); }
        int f(int a) override { return g(a, a); }
        void v(const std::string &) override {}
        int g(int, int) const override { return 3; }
        double d(double x) override { return x; }
        int &r(int) override { return gi; }
        void none() override {}
        bool b(bool, char, const char *) override { return true; }
        int o(int) override { return 4; }
        int o(const std::string &) override { return 5; }
        int o(int) const override { return 6; }
        std::string str(int) override { return ""; }
        std::unique_ptr<int> u(int) override { return nullptr; }
        Wide w(Wide x) override { return x; }
        int up(std::unique_ptr<int>) override { return 0; }
        int rr(int &&) override { return 0; }
        int ref(int &) override { return 0; }
        int ptr(int *) override { return 0; }
        int vol(int) volatile override { return 0; }
        int lref(int) & override { return 0; }
        int rref(int) && override { return 0; }
        long many(int, long, char, double, float, unsigned, short, int, int, const std::string &) override { return 0; }
        const std::string &cs(int) override { return gs; }
        void *vp(void *) override { return nullptr; }
    };
    void spaceNested() {
        int inner = mc::choose(4);   // 0 absent, 1 rejected, 2 used up, 3 supported
        int outer = mc::choose(4);   // 0 action, 1 action on another mock, 2 spied original, 3 action that swallows
        int ak = mc::choose(2), nl = mc::choose(2), repeat = 1 + mc::choose(3);
        Env env(nl, ak, 0);
        Real real;
        Mock<I> m1, m2;
        Mock<I> sp(real);
        if (outer == 2 && inner == 0) return;  // an unstubbed method of a spied object runs the original
        Mock<I> &im = outer == 2 ? sp : outer == 1 ? m2 : m1;
        if (inner == 1) When(Method(im, g)(9, 9)).AlwaysReturn(1);
        if (inner == 2) { When(Method(im, g)).Return(1); static_cast<const I &>(L(im.get())).g(5, 5); }
        if (inner == 3) When(Method(im, g)).AlwaysReturn(88);
        I &io = L(im.get());
        bool swallowed = false;
        auto body = [&](int a) -> int {
            if (outer != 3) return static_cast<const I &>(io).g(a, a);
            try { return static_cast<const I &>(io).g(a, a); }
            catch (UnexpectedMethodCallException &) { swallowed = true; return 55; }
        };
        if (outer == 2) Spy(Method(sp, f)); else When(Method(m1, f)).AlwaysDo(body);
        I &oo = L(outer == 2 ? sp.get() : m1.get());
        for (int i = 0; i < repeat; i++) {
            int type = inner == 3 ? -1 : inner == 0 ? 0 : 1;
            std::string what = inner == 0 ? "unknown()" : outer == 2 ? "sp.g(5, 5)" : "im.g(5, 5)";
            if (type >= 0) what = inner == 0 ? "unknown()" : "im.g(5, 5)";
            if (outer == 3 && type >= 0) {
                swallowed = false;
                int v = 0;
                fk::there([&] { v = oo.f(5); });
                MC_CHECK(v == 55 && swallowed, "the action saw no exception, returned %d", v);
                size_t n = 0;
                for (auto &l : env.listeners) { env.checkEvent("nested", l.events, type, what); l.events.clear(); n++; }
                if (ak) { env.checkEvent("nested", env.adapter.events, type, what); env.adapter.events.clear(); n++; }
                MC_CHECK(env.order.size() == n, "%zu deliveries, expected %zu", env.order.size(), n);
                env.order.clear();
                mc::outcome("swallowed");
            } else {
                env.call("nested", [&] { return oo.f(5); }, type, what, 88);
            }
            mc::step(mc::mix(mc::mix(inner, outer), i));
        }
        fk::QuietAdapter q;
        Fakeit.clearEventHandlers();
        VerifyNoOtherInvocations(im);
        int want = (outer != 1 ? repeat : 0) + (inner == 2 ? 1 + repeat : inner == 3 ? repeat : 0);
        int seen = q.events.empty() ? 0 : (int) q.events[0].unverified.size();
        MC_CHECK(seen == want, "the history holds %d calls, expected %d", seen, want);
    }

    // ---------------- many unsupported calls ----------------
    void spaceMany() {
        static const int ns[] = {1, 2, 10, 49, 50, 51, 100, 255, 256, 257, 600};
        int n = ns[mc::choose(11)], kind = mc::choose(3), ak = mc::choose(2);
        Env env(1, ak, 0);
        Mock<I> m;
        I &o = L(m.get());
        std::vector<std::string> hist;
        When(Method(m, g)(1, 1)).Return(1, 2, 3);
        if (kind == 1) When(Method(m, f)(1)).AlwaysReturn(4);
        if (kind == 2) When(Method(m, f)).Return(4);
        if (kind == 2) { env.call("f", [&] { return o.f(2); }, -1, "", 4); hist.push_back("m.f(2)"); }
        for (int i = 0; i < n; i++) {
            env.call("f", [&] { return o.f(2); }, kind ? 1 : 0, kind ? "m.f(2)" : "unknown()", 0);
            if (kind == 2) hist.push_back("m.f(2)");
        }
        for (int i = 1; i <= 3; i++) { env.call("g", [&] { return static_cast<const I &>(o).g(1, 1); }, -1, "", i); hist.push_back("m.g(1, 1)"); }
        checkHistory(m, hist);
        mc::step(mc::mix(n, kind));
    }

    // many stubs that do not take the call, or took one too many before
    void spaceStubs() {
        static const int ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 64, 65, 100, 129, 257};
        int n = ns[mc::choose(23)], exhausted = mc::choose(3), ak = mc::choose(2);
        Env env(1, ak, 0);
        Mock<I> m;
        I &o = L(m.get());
        for (int i = 0; i < n; i++) When(Method(m, f)(i)).Return(i + 1000);
        std::vector<std::string> hist;
        auto name = [](int i) { return "m.f(" + std::to_string(i) + ")"; };
        auto use = [&](int i) {
            env.call("f", [&] { return o.f(i); }, -1, "", i + 1000); hist.push_back(name(i));
            env.call("f", [&] { return o.f(i); }, 1, name(i), 0); hist.push_back(name(i));
        };
        if (exhausted == 1) use(0);
        if (exhausted == 2) for (int i = 0; i < n; i++) use(n - 1 - i);
        for (int k = 0; k < 3; k++) env.call("f", [&] { return o.f(n + k); }, 1, name(n + k), 0);
        env.call("g", [&] { return static_cast<const I &>(o).g(1, 1); }, 0, "unknown()", 0);
        checkHistory(m, hist);
        mc::step(mc::mix(n, exhausted * 2 + ak));
    }

    void probeSret() {
        Mock<I> m;
        I &o = L(m.get());
        bool raised = false;
        try { o.str(1); } catch (UnexpectedMethodCallException &) { raised = true; }
        MC_CHECK(raised, "no unexpected-method-call exception");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 4;
        o.mandatory = {"supported", "unmatched", "unmocked"};
        o.bound = "0..2 listeners x 3 adapters x 2 formatters, all histories of 4 (5) of 15 operations on 4 methods";
        mc::add("environments", o, [] { spaceHistories(true, mc::bound(4, 5)); });
        o.bound = "one listener, 2 adapters, all histories of 5 (6) operations";
        o.shardDepth = 3;
        mc::add("histories", o, [] { spaceHistories(false, mc::bound(5, 6)); });
        o.bound = "24 method shapes x environments, all orders of stub / reject / call up to 5 (6)";
        mc::add("shapes", o, spaceShapes);
        o.bound = "all environments, all histories of 3 (4) of 15 operations, every call made while an exception propagates or in a catch block";
        mc::add("places", o, [] { fk::Place p(1 + mc::choose(2)); spaceHistories(true, mc::bound(3, 4)); });
        o.mandatory = {"supported", "unmatched", "swallowed"};
        o.bound = "unsupported calls inside actions, on other mocks, inside spied originals";
        mc::add("nested", o, spaceNested);
        o.bound = "the same while an exception propagates or in a catch block";
        mc::add("nested, places", o, [] { fk::Place p(1 + mc::choose(2)); spaceNested(); });
        o.mandatory = {"supported", "unmatched", "unmocked"};
        o.shardDepth = 2;
        o.bound = "1..600 unsupported calls between supported ones";
        mc::add("many", o, spaceMany);
        o.bound = "1..257 stubs (23 numbers) of one method, none, one or all of them used up";
        mc::add("stubs", o, spaceStubs);
        mc::probe("stubless-class-result", "call of a method without stub that returns a class in memory (std::string str(int))", probeSret);
    });
}
