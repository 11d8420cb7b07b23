// C02: the actions of a stub run in the written order, each the stated number of times.
#include "fk.hpp"
#include "heap.hpp"
#include <list>
using namespace fakeit;
using fk::L;

namespace {
    struct I {
        virtual int f(int) = 0;
        virtual void v(int) = 0;
        virtual std::string s(const std::string &) = 0;
        virtual std::unique_ptr<int> u(int) = 0;
        virtual int &r(int) = 0;
        virtual int out(int &, int) = 0;
        virtual void vout(int *, int) = 0;
        virtual int none() = 0;
        virtual int c(int) const = 0;
        virtual double big(int, int, int, int, int, int, int, int, double, const std::string &) = 0;
        virtual ~I() {}
    };

    // ------------- reference model: the flat list of uses ----------------
    const int UNEXPECTED = -99;
    enum Kind { RET, THR, DO, NEST, NESTCATCH, DOTHROW };
    struct Use { Kind kind; int id; };
    struct Script {
        std::vector<Use> uses;
        size_t at = 0;
        bool always = false;
        Use forever{RET, 0};
        // result value, or throws int / Unexpected_
        struct Unexp {};
        int call(int a) {
            Use u;
            if (at < uses.size()) u = uses[at++];
            else if (always) u = forever;
            else throw Unexp();
            switch (u.kind) {
                case RET: return u.id;
                case THR: throw u.id;
                case DO: return u.id + a;
                case DOTHROW: throw u.id + a;
                case NEST: return a > 0 ? u.id + 100000 * (1 + call(a - 1) % 1000) : u.id;
                case NESTCATCH: {
                    if (a <= 0) return u.id;
                    int r;
                    try { r = call(a - 1); } catch (int e) { r = e; } catch (Unexp) { r = 7; }
                    return u.id + 100000 * (1 + r % 1000);
                }
            }
            return 0;
        }
        uint64_t hash() const {
            uint64_t h = always ? 3 + forever.kind : 1;
            for (size_t i = at; i < uses.size(); i++) h = mc::mix(h, uses[i].kind);
            return h;
        }
        int observe(int a) {
            try { return call(a); } catch (int e) { return -1000000 - e; } catch (Unexp) { return UNEXPECTED; }
        }
    };
    template<class F>
    int observe(F f) {
        try { int r = 0; fk::there([&] { r = f(); }); return r; } catch (int e) { return -1000000 - e; } catch (UnexpectedMethodCallException &) { return UNEXPECTED; }
    }

    // ------------- space 1: scripts on int f(int) ----------------
    const int NITEMS = 24, NTERM = 6;
    I *gObj;  // target of nested calls
    struct Nest {
        int id;
        int operator()(int a) const { return a > 0 ? id + 100000 * (1 + gObj->f(a - 1) % 1000) : id; }
    };
    struct NestCatch {
        int id;
        int operator()(int a) const {
            if (a <= 0) return id;
            int r;
            try { r = gObj->f(a - 1); } catch (int e) { r = e; } catch (UnexpectedMethodCallException &) { r = 7; }
            return id + 100000 * (1 + r % 1000);
        }
    };
    struct Plain {
        int id;
        int operator()(int a) const { return id + a; }
    };
    struct PlainThrow {
        int id;
        int operator()(int a) const { throw id + a; }
    };
    template<class P>
    void apply(P &&p, const std::vector<int> &items, size_t at, int id, Script &m) {
        auto U = [&](Kind k, int i, int n = 1) { while (n--) m.uses.push_back({k, i}); };
        int a = id, b = id + 1, c = id + 2;
        if (at + 1 == items.size()) {  // terminal
            switch (items[at]) {
                case 0: return;
                case 1: m.always = true; m.forever = {RET, a}; p.AlwaysReturn(a); return;
                case 2: m.always = true; m.forever = {RET, 0}; p.AlwaysReturn(); return;
                case 3: m.always = true; m.forever = {DO, a}; p.AlwaysDo(Plain{a}); return;
                case 4: m.always = true; m.forever = {THR, a}; p.AlwaysThrow(a); return;
                case 5: m.always = true; m.forever = {NESTCATCH, a}; p.AlwaysDo(NestCatch{a}); return;
            }
        }
#define NEXT(X) return apply(X, items, at + 1, id + 10, m)
        switch (items[at]) {
            case 0: U(RET, a); NEXT(p.Return(a));
            case 1: U(RET, a, 2); NEXT(p.Return(2_Times(a)));
            case 2: NEXT(p.Return(0_Times(a)));
            case 3: U(RET, a); NEXT(p.Return(1_Time(a)));
            case 4: U(RET, a, 3); NEXT(p.Return(3_Times(a)));
            case 5: U(RET, a); U(RET, b); NEXT(p.Return(a, b));
            case 6: U(RET, a); U(RET, b); U(RET, c); NEXT(p.Return(a, b, c));
            case 7: U(RET, a); U(RET, b, 2); U(RET, c); NEXT(p.Return(a, 2_Times(b), c));
            case 8: U(RET, a, 2); NEXT(p.Return(2_Times(a), 0_Times(b)));
            case 9: U(RET, b, 2); NEXT(p.Return(0_Times(a), 2_Times(b)));
            case 10: U(RET, 0); NEXT(p.Return());
            case 11: U(THR, a); NEXT(p.Throw(a));
            case 12: U(THR, a, 2); NEXT(p.Throw(2_Times(a)));
            case 13: NEXT(p.Throw(0_Times(a)));
            case 14: U(THR, a); U(THR, b); NEXT(p.Throw(a, b));
            case 15: U(THR, a); U(THR, b, 2); NEXT(p.Throw(a, Times<2>::of(b)));
            case 16: U(DO, a); NEXT(p.Do(Plain{a}));
            case 17: U(DO, a, 2); NEXT(p.Do(2_Times(Plain{a})));
            case 18: NEXT(p.Do(0_Times(Plain{a})));
            case 19: U(DO, a); U(DO, b); NEXT(p.Do(Plain{a}, Plain{b}));
            case 20: U(NEST, a); NEXT(p.Do(Nest{a}));
            case 21: U(NESTCATCH, a, 2); NEXT(p.Do(2_Times(NestCatch{a})));
            case 22: U(DOTHROW, a); NEXT(p.Do(PlainThrow{a}));
            case 23: U(NEST, a); U(NESTCATCH, b); NEXT(p.Do(Nest{a}, NestCatch{b}));
        }
    }
    void spaceScripts(bool nestedCalls, int most) {
        int len = 1 + mc::choose(most);
        std::vector<int> items;
        for (int i = 0; i + 1 < len; i++) items.push_back(mc::choose(NITEMS));
        items.push_back(mc::choose(NTERM));
        int arg = 0;
        if (nestedCalls) {
            bool has = items.back() == 5;
            for (size_t i = 0; i + 1 < items.size(); i++) has = has || items[i] == 20 || items[i] == 21 || items[i] == 23;
            if (!has) mc::prune();  // same execution as in the plain space
            arg = 1 + mc::choose(2);
        }
        if (len == 1 && items[0] == 0) return;  // an empty script is not a stubbing
        Mock<I> m;
        I &o = L(m.get());
        gObj = &o;
        Script model;
        apply(When(Method(m, f)), items, 0, 10, model);
        if (mc::verbose()) {
            std::string t;
            for (int i : items) t += std::to_string(i) + " ";
            MC_LOG("script items %s(last: terminal), %zu uses", t.c_str(), model.uses.size());
        }
        int n = (int) model.uses.size() + 3;
        for (int i = 0; i < n; i++) {
            size_t before = model.at;
            int got = observe([&] { return o.f(arg); });
            int want = model.observe(arg);
            MC_LOG("call %d: f(%d) = %d (model %d)", i, arg, got, want);
            mc::outcome(want == UNEXPECTED ? "past the end" : want < -1000000 ? "threw" : "returned");
            if (model.at > before + 1) mc::outcome("nested use");
            MC_CHECK(got == want, "call %d f(%d) gave %d, the script says %d (-99: unexpected, below -1000000: thrown)", i, arg, got, want);
            mc::step(model.hash());
        }
    }

    // ------------- space 2: other signatures ----------------
    int gV;
    int pool[100];
    // every signature: item kinds 0 once, 1 twice by quantifier, 2 none by quantifier, 3 list of two, 4 throw, 5 throw twice, 6 Do twice, 7 default result
    template<class P, class MK>
    void sigApply(P &&p, const std::vector<int> &it, size_t at, int id, Script &m, MK mk) {
        auto U = [&](Kind k, int i, int n = 1) { while (n--) m.uses.push_back({k, i}); };
        if (at + 1 == it.size()) {
            switch (it[at]) {
                case 0: return;
                case 1: m.always = true; m.forever = {RET, id}; p.AlwaysDo(mk.fn(id)); return;
                case 2: m.always = true; m.forever = {THR, id}; p.AlwaysThrow(id); return;
                case 3: m.always = true; m.forever = {RET, mk.dflt()}; mk.dfltAlways(p); return;
            }
        }
#define NEXTS(X) return sigApply(X, it, at + 1, id + 10, m, mk)
        switch (it[at]) {
            case 0: U(RET, mk.value(id)); NEXTS(mk.once(p, id));
            case 1: U(RET, mk.value(id), 2); NEXTS(mk.twice(p, id));
            case 2: NEXTS(mk.zero(p, id));
            case 3: U(RET, mk.value(id)); U(RET, mk.value(id + 1)); NEXTS(mk.list(p, id));
            case 4: U(THR, id); NEXTS(p.Throw(id));
            case 5: U(THR, id, 2); NEXTS(p.Throw(2_Times(id)));
            case 6: U(RET, id, 2); NEXTS(p.Do(2_Times(mk.fn(id))));
            case 7: U(RET, mk.dflt()); NEXTS(mk.dfltOnce(p));
        }
    }
    struct Base {
        int value(int id) { return id; }
        int dflt() { return 0; }
        template<class P> auto dfltOnce(P &&p) -> decltype(p.Return()) { return p.Return(); }
        template<class P> void dfltAlways(P &&p) { p.AlwaysReturn(); }
    };
    struct MkV : Base {
        int value(int) { return -1; }
        int dflt() { return -1; }
        std::function<void(int)> fn(int id) { return [id](int) { gV = id; }; }
        template<class P> auto once(P &&p, int) -> decltype(p.Return()) { return p.Return(); }
        template<class P> auto twice(P &&p, int) -> decltype(p.Return()) { return p.Return(2_Times); }
        template<class P> auto zero(P &&p, int) -> decltype(p.Return()) { return p.Return(Times<0>::Void()); }
        template<class P> auto list(P &&p, int) -> decltype(p.Return()) { return p.Return().Return(); }
    };
    struct MkS : Base {
        std::function<std::string(const std::string &)> fn(int id) { return [id](const std::string &) { return std::to_string(id); }; }
        std::string st(int id) { return std::to_string(id); }
        template<class P> auto once(P &&p, int id) -> decltype(p.Return()) { return p.Return(st(id)); }
        template<class P> auto twice(P &&p, int id) -> decltype(p.Return()) { return p.Return(2_Times(st(id))); }
        template<class P> auto zero(P &&p, int id) -> decltype(p.Return()) { return p.Return(0_Times(st(id))); }
        template<class P> auto list(P &&p, int id) -> decltype(p.Return()) { return p.Return(st(id), st(id + 1)); }
    };
    struct MkU : Base {
        // a default result needs a copyable type
        template<class P> auto dfltOnce(P &&p) -> decltype(p.Return()) { return p.Do([](int) { return std::unique_ptr<int>(); }); }
        template<class P> void dfltAlways(P &&p) { p.AlwaysDo([](int) { return std::unique_ptr<int>(); }); }
        std::function<std::unique_ptr<int>(int)> fn(int id) { return [id](int) { return std::unique_ptr<int>(new int(id)); }; }
        std::unique_ptr<int> st(int id) { return std::unique_ptr<int>(new int(id)); }
        template<class P> auto once(P &&p, int id) -> decltype(p.Return()) { return p.Return(st(id)); }
        template<class P> auto twice(P &&p, int id) -> decltype(p.Return()) { return p.Return(st(id)).Return(st(id)); }
        template<class P> auto zero(P &&p, int id) -> decltype(p.Return()) { return p.Do(0_Times(fn(id))); }
        template<class P> auto list(P &&p, int id) -> decltype(p.Return()) { return p.Return(st(id)).Return(st(id + 1)); }
    };
    struct MkR : Base {
        std::function<int &(int)> fn(int id) { return [id](int) -> int & { return pool[id % 100]; }; }
        template<class P> auto once(P &&p, int id) -> decltype(p.Return()) { return p.Return(pool[id]); }
        template<class P> auto twice(P &&p, int id) -> decltype(p.Return()) { return p.Return(pool[id]).Return(pool[id]); }
        template<class P> auto zero(P &&p, int id) -> decltype(p.Return()) { return p.Do(0_Times(fn(id))); }
        template<class P> auto list(P &&p, int id) -> decltype(p.Return()) { return p.Return(pool[id]).Return(pool[id + 1]); }
    };
    template<class FN>
    struct MkI : Base {
        FN mkfn;
        explicit MkI(FN f) : mkfn(f) {}
        auto fn(int id) -> decltype(mkfn(id)) { return mkfn(id); }
        template<class P> auto once(P &&p, int id) -> decltype(p.Return()) { return p.Return(id); }
        template<class P> auto twice(P &&p, int id) -> decltype(p.Return()) { return p.Return(Times<2>::of(id)); }
        template<class P> auto zero(P &&p, int id) -> decltype(p.Return()) { return p.Return(Times<0>::of(id)); }
        template<class P> auto list(P &&p, int id) -> decltype(p.Return()) { return p.Return(id, id + 1); }
    };
    std::function<int()> fnNone(int id) { return [id]() { return id; }; }
    std::function<int(int)> fnC(int id) { return [id](int) { return id; }; }
    struct MkBig : Base {
        std::function<double(int, int, int, int, int, int, int, int, double, const std::string &)> fn(int id) {
            return [id](int, int, int, int, int, int, int, int, double, const std::string &) { return (double) id; };
        }
        template<class P> auto once(P &&p, int id) -> decltype(p.Return()) { return p.Return((double) id); }
        template<class P> auto twice(P &&p, int id) -> decltype(p.Return()) { return p.Return(2_Times((double) id)); }
        template<class P> auto zero(P &&p, int id) -> decltype(p.Return()) { return p.Return(0_Times((double) id)); }
        template<class P> auto list(P &&p, int id) -> decltype(p.Return()) { return p.Return((double) id, (double) (id + 1)); }
    };
    struct MkOut : Base {
        std::function<int(int &, int)> fn(int id) { return [id](int &x, int) { x = id; return id; }; }
        template<class P> auto once(P &&p, int id) -> decltype(p.Return()) { return p.ReturnAndSet(int(id), int(id)); }
        template<class P> auto twice(P &&p, int id) -> decltype(p.Return()) { return p.ReturnAndSet(int(id), int(id)).ReturnAndSet(int(id), int(id)); }
        template<class P> auto zero(P &&p, int id) -> decltype(p.Return()) { return p.Return(0_Times(id)); }
        template<class P> auto list(P &&p, int id) -> decltype(p.Return()) { return p.ReturnAndSet(int(id), int(id)).Return(id + 1); }
    };
    struct MkVout : Base {
        int dflt() { return -1; }
        std::function<void(int *, int)> fn(int id) { return [id](int *x, int) { *x = id; }; }
        template<class P> auto once(P &&p, int id) -> decltype(p.Return()) { return p.ReturnAndSet(int(id)); }
        template<class P> auto twice(P &&p, int id) -> decltype(p.Return()) { return p.ReturnAndSet(int(id)).ReturnAndSet(int(id)); }
        template<class P> auto zero(P &&p, int) -> decltype(p.Return()) { return p.Return(0_Times); }
        template<class P> auto list(P &&p, int id) -> decltype(p.Return()) { return p.ReturnAndSet(int(id)).ReturnAndSet(int(id + 1)); }
    };
    void spaceSignatures() {
        int sig = mc::choose(9);
        int len = 1 + mc::choose(mc::bound(5, 6));
        std::vector<int> it;
        for (int i = 0; i + 1 < len; i++) it.push_back(mc::choose(8));
        it.push_back(mc::choose(4));
        for (int i = 0; i + 1 < len; i++)
            if (sig == 3 && it[i] == 7) mc::prune();  // default references: C11
        if (sig == 3 && it.back() == 3) mc::prune();
        if (len == 1 && it[0] == 0) return;
        Mock<I> m;
        I &o = L(m.get());
        Script model;
        for (int i = 0; i < 100; i++) pool[i] = i;
        std::function<int()> call;
        switch (sig) {
            case 0: sigApply(When(Method(m, v)), it, 0, 10, model, MkV()); call = [&] { gV = -1; o.v(1); return gV; }; break;
            case 1: sigApply(When(Method(m, s)), it, 0, 10, model, MkS()); call = [&] { std::string r = o.s("x"); return r.empty() ? 0 : atoi(r.c_str()); }; break;
            case 2: sigApply(When(Method(m, u)), it, 0, 10, model, MkU()); call = [&] { auto r = o.u(1); return r ? *r : 0; }; break;
            case 3: sigApply(When(Method(m, r)), it, 0, 10, model, MkR()); call = [&] { return o.r(1); }; break;
            case 4: sigApply(When(Method(m, none)), it, 0, 10, model, MkI<decltype(&fnNone)>(&fnNone)); call = [&] { return o.none(); }; break;
            case 5: sigApply(When(Method(m, c)), it, 0, 10, model, MkI<decltype(&fnC)>(&fnC)); call = [&] { return static_cast<const I &>(o).c(1); }; break;
            case 6: sigApply(When(Method(m, big)), it, 0, 10, model, MkBig()); call = [&] { return (int) o.big(1, 2, 3, 4, 5, 6, 7, 8, 9.0, "x"); }; break;
            case 7: sigApply(When(Method(m, out)), it, 0, 10, model, MkOut()); call = [&] { int x = -1; return o.out(x, 1); }; break;
            case 8: sigApply(When(Method(m, vout)), it, 0, 10, model, MkVout()); call = [&] { int x = -1; o.vout(&x, 1); return x; }; break;
        }
        int n = (int) model.uses.size() + 3;
        for (int i = 0; i < n; i++) {
            int got = observe(call), want = model.observe(0);
            MC_LOG("signature %d call %d: %d (model %d)", sig, i, got, want);
            mc::outcome(want == UNEXPECTED ? "past the end" : "used");
            MC_CHECK(got == want, "signature %d: call %d gave %d, the script says %d", sig, i, got, want);
            mc::step(mc::mix(model.hash(), sig));
        }
    }

    // ------------- space 3: every quantity 0..N, long scripts, long lists ----------------
    template<int N>
    struct Q {
        template<class P>
        static void ret(P &&p, int n, int id) { if (n == N) p.Return(Times<N>::of(id)).Return(id + 1); else Q<N - 1>::ret(p, n, id); }
        template<class P>
        static void thr(P &&p, int n, int id) { if (n == N) p.Throw(Times<N>::of(id)).Return(id + 1); else Q<N - 1>::thr(p, n, id); }
    };
    template<>
    struct Q<-1> {
        template<class P> static void ret(P &&, int, int) {}
        template<class P> static void thr(P &&, int, int) {}
    };
    void spaceQuantity() {
        int kind = mc::choose(4);
        int n = mc::choose(kind < 2 ? 131 : 301);
        Mock<I> m;
        I &o = L(m.get());
        Script model;
        if (kind == 0) { Q<130>::ret(When(Method(m, f)), n, 10); for (int i = 0; i < n; i++) model.uses.push_back({RET, 10}); }
        if (kind == 1) { Q<130>::thr(When(Method(m, f)), n, 10); for (int i = 0; i < n; i++) model.uses.push_back({THR, 10}); }
        if (kind == 2) { QuantifierFunctor q(n); When(Method(m, f)).Do(q(Plain{10})).Return(11); for (int i = 0; i < n; i++) model.uses.push_back({DO, 10}); }
        if (kind < 3) model.uses.push_back({RET, 11});
        if (kind == 3) {  // a chain of n actions
            auto chain = [&](auto &&p) {
                for (int i = 0; i < n; i++) {
                    if (i % 5 == 4) { p.Throw(100 + i); model.uses.push_back({THR, 100 + i}); }
                    else if (i % 5 == 3) { p.Do(Plain{100 + i}); model.uses.push_back({DO, 100 + i}); }
                    else { p.Return(100 + i); model.uses.push_back({RET, 100 + i}); }
                }
                p.Return(11);
                model.uses.push_back({RET, 11});
            };
            chain(When(Method(m, f)));
        }
        int total = (int) model.uses.size() + 2;
        for (int i = 0; i < total; i++) {
            int got = observe([&] { return o.f(0); }), want = model.observe(0);
            MC_CHECK(got == want, "kind %d quantity %d: call %d gave %d, the script says %d", kind, n, i, got, want);
            mc::outcome(want == UNEXPECTED ? "past the end" : "used");
            mc::step(mc::mix(mc::mix(kind, n), i));
        }
    }
    // every form that takes a quantity, for quantities around interesting boundaries
    void spaceLarge() {
        static const int qs[] = {1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 254, 255, 256, 257, 299, 300, 499, 500, 501, 511, 512, 513,
                                 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 9999, 10000, 10001, 32767, 32768, 65535, 65536, 65537, 100000};
        int form = mc::choose(11);
        int n = qs[mc::choose(form < 9 ? sizeof qs / sizeof *qs : 40)];
        Mock<I> m;
        I &o = L(m.get());
        QuantifierFunctor q(n);
        int base = 5, got = 0;
        std::string text = "5";
        std::function<void(int)> vdo = [](int) { gV = 5; };
        std::function<int(int)> fdo = [](int) { return 5; };
        std::function<std::string(const std::string &)> sdo = [](const std::string &) { return std::string("5"); };
        switch (form) {
            case 0: When(Method(m, f)).Return(q(base)).Return(6); break;
            case 1: When(Method(m, f)).Throw(q(base)).Return(6); break;
            case 2: When(Method(m, f)).Do(q(fdo)).Return(6); break;
            case 3: When(Method(m, v)).Return(q).Do([](int) { gV = 6; }); break;
            case 4: When(Method(m, v)).Throw(q(base)).Do([](int) { gV = 6; }); break;
            case 5: When(Method(m, v)).Do(q(vdo)).Do([](int) { gV = 6; }); break;
            case 6: When(Method(m, s)).Return(q(text)).Return("6"); break;
            case 7: When(Method(m, s)).Throw(q(base)).Return("6"); break;
            case 8: When(Method(m, s)).Do(q(sdo)).Return("6"); break;
            case 9: { auto chain = [&](MethodStubbingProgress<void, int> &&p) { for (int i = 0; i < n; i++) p.Do(vdo); p.Do([](int) { gV = 6; }); }; chain(When(Method(m, v))); break; }
            case 10: { auto chain = [&](MethodStubbingProgress<std::string, const std::string &> &&p) { for (int i = 0; i < n; i++) p.Return(text); p.Return("6"); }; chain(When(Method(m, s))); break; }
        }
        auto call = [&] {
            return observe([&]() -> int {
                if (form < 3) return o.f(0);
                if (form < 6 || form == 9) { gV = 5; o.v(0); return gV; }
                return atoi(o.s("x").c_str());
            });
        };
        int want = form % 3 == 1 && form < 9 ? -1000005 : 5;
        for (int i = 0; i < n; i++) {
            got = call();
            MC_CHECK(got == want, "form %d, quantity %d: call %d gave %d", form, n, i, got);
            if ((i & 4095) == 0) { mc::beat(); mc::step(mc::mix(mc::mix(form, n), i)); }
        }
        got = call();
        MC_CHECK(got == 6, "form %d: after %d uses the next action does not run but %d", form, n, got);
        got = call();
        MC_CHECK(got == UNEXPECTED, "form %d, quantity %d: after the last use the call is not unexpected but %d", form, n, got);
        mc::step(n);
    }

    // lists of actions in one call of Return, Throw and Do
    template<bool q> struct Item {
        static int ret(int i) { return i; }
        static std::function<int(int)> fdo(int i) { return [i](int a) { return i + a; }; }
        static std::function<void(int)> vdo(int i) { return [i](int a) { gV = i + a; }; }
        static std::string text(int i) { return std::to_string(i); }
        static std::function<std::string(const std::string &)> sdo(int i) { return [i](const std::string &) { return std::to_string(i); }; }
    };
    // the values are held in lists that outlive the statement: a quantity refers to the value given to it
    std::list<int> gInts;
    std::list<std::function<int(int)>> gF;
    std::list<std::function<void(int)>> gVd;
    std::list<std::string> gTexts;
    std::list<std::function<std::string(const std::string &)>> gS;
    template<> struct Item<true> {
        static Quantifier<int> ret(int i) { gInts.push_back(i); return 3_Times(gInts.back()); }
        static Quantifier<std::function<int(int)>> fdo(int i) { gF.push_back(Item<false>::fdo(i)); return 3_Times(gF.back()); }
        static Quantifier<std::function<void(int)>> vdo(int i) { gVd.push_back(Item<false>::vdo(i)); return 3_Times(gVd.back()); }
        static Quantifier<std::string> text(int i) { gTexts.push_back(Item<false>::text(i)); return 3_Times(gTexts.back()); }
        static Quantifier<std::function<std::string(const std::string &)>> sdo(int i) { gS.push_back(Item<false>::sdo(i)); return 3_Times(gS.back()); }
    };
    template<int Q, size_t... i>
    void writeList(int form, Mock<I> &m, std::index_sequence<i...>) {
        switch (form) {
            case 0: When(Method(m, f)).Return(Item<(int) i == Q>::ret((int) i + 10)...); break;
            case 1: When(Method(m, f)).Throw(Item<(int) i == Q>::ret((int) i + 10)...); break;
            case 2: When(Method(m, f)).Do(Item<(int) i == Q>::fdo((int) i + 10)...); break;
            case 3: When(Method(m, v)).Throw(Item<(int) i == Q>::ret((int) i + 10)...); break;
            case 4: When(Method(m, v)).Do(Item<(int) i == Q>::vdo((int) i + 10)...); break;
            case 5: When(Method(m, s)).Return(Item<(int) i == Q>::text((int) i + 10)...); break;
            case 6: When(Method(m, s)).Throw(Item<(int) i == Q>::text((int) i + 10)...); break;
            case 7: When(Method(m, s)).Do(Item<(int) i == Q>::sdo((int) i + 10)...); break;
        }
    }
    template<int N>
    void runList() {
        int form = mc::choose(8), where = mc::choose(4), at = where == 0 ? -1 : where == 1 ? 0 : where == 2 ? N / 2 : N - 1;
        if (where && at == (where == 1 ? -1 : where == 2 ? 0 : N / 2)) throw mc::Prune{};
        Mock<I> m;
        I &o = L(m.get());
        gInts.clear(); gF.clear(); gVd.clear(); gTexts.clear(); gS.clear();
        typedef std::make_index_sequence<N> All;
        switch (where) {
            case 0: writeList<-1>(form, m, All{}); break;
            case 1: writeList<0>(form, m, All{}); break;
            case 2: writeList<N / 2>(form, m, All{}); break;
            case 3: writeList<N - 1>(form, m, All{}); break;
        }
        gV = -1;
        auto call = [&]() -> int {
            try {
                return observe([&]() -> int {
                    if (form < 3) return o.f(0);
                    if (form < 5) { gV = -1; o.v(0); return gV; }
                    return atoi(o.s("x").c_str());
                });
            } catch (std::string &e) { return -1000000 - atoi(e.c_str()); }
        };
        bool throws = form == 1 || form == 3 || form == 6;
        for (int i = 0; i < N; i++)
            for (int k = 0; k < (i == at ? 3 : 1); k++) {
                int got = call(), want = throws ? -1000000 - (i + 10) : i + 10;
                MC_CHECK(got == want, "form %d, list of %d actions, the one at %d three times: use %d of action %d gave %d instead of %d", form, N, at, k, i, got, want);
                mc::step(mc::mix(mc::mix(form, N), mc::mix(at, i * 4 + k)));
            }
        int got = call();
        MC_CHECK(got == UNEXPECTED, "form %d, list of %d actions: the call after the last is not unexpected but %d", form, N, got);
        mc::outcome("past the end");
    }
    void spaceLists() {
        switch (mc::choose(12)) {
            case 0: return runList<2>();
            case 1: return runList<3>();
            case 2: return runList<4>();
            case 3: return runList<5>();
            case 4: return runList<6>();
            case 5: return runList<7>();
            case 6: return runList<8>();
            case 7: return runList<9>();
            case 8: return runList<10>();
            case 9: return runList<12>();
            case 10: return runList<16>();
            case 11: return runList<20>();
        }
    }

    // ------------- space 4: two scripts used alternately, on two mocks and methods ----------------
    void spaceInterleaved() {
        Mock<I> m1, m2;
        I &o1 = L(m1.get()), &o2 = L(m2.get());
        Script s[3];
        int k[3] = {mc::choose(6), mc::choose(6), mc::choose(6)};
        auto mk = [&](auto &&p, int kind, Script &m, int id) {
            switch (kind) {
                case 0: p.Return(id); m.uses = {{RET, id}}; break;
                case 1: p.Return(2_Times(id)).Throw(id + 1); m.uses = {{RET, id}, {RET, id}, {THR, id + 1}}; break;
                case 2: p.Throw(id, id + 1); m.uses = {{THR, id}, {THR, id + 1}}; break;
                case 3: p.Do(Plain{id}).AlwaysReturn(id + 1); m.uses = {{DO, id}}; m.always = true; m.forever = {RET, id + 1}; break;
                case 4: p.Return(0_Times(id)).Return(id + 1, id + 2); m.uses = {{RET, id + 1}, {RET, id + 2}}; break;
                case 5: p.AlwaysThrow(id); m.always = true; m.forever = {THR, id}; break;
            }
        };
        mk(When(Method(m1, f)), k[0], s[0], 10);
        mk(When(Method(m2, f)), k[1], s[1], 20);
        mk(When(Method(m1, c)), k[2], s[2], 30);
        int D = mc::bound(6, 8);
        for (int d = 0; d < D; d++) {
            int w = mc::choose(3);
            int got = w == 0 ? observe([&] { return o1.f(0); }) : w == 1 ? observe([&] { return o2.f(0); }) : observe([&] { return static_cast<const I &>(o1).c(0); });
            int want = s[w].observe(0);
            MC_LOG("script %d: %d (model %d)", w, got, want);
            MC_CHECK(got == want, "script %d gave %d, expected %d", w, got, want);
            mc::outcome(want == UNEXPECTED ? "past the end" : "used");
            mc::step(mc::mix(mc::mix(s[0].hash(), s[1].hash()), s[2].hash()));
        }
    }
    // ------------- space 5: nesting deeper than the script ----------------
    void spaceDeep() {
        int uses = 1 + mc::choose(6), depth = mc::choose(9), after = mc::choose(3), catching = mc::choose(2);
        Mock<I> m;
        I &o = L(m.get());
        gObj = &o;
        Script model;
        QuantifierFunctor q(uses);
        auto build = [&](auto &&p) {
            auto &r = catching ? p.Do(q(NestCatch{3})) : p.Do(q(Nest{3}));
            for (int i = 0; i < uses; i++) model.uses.push_back({catching ? NESTCATCH : NEST, 3});
            if (after == 1) { r.Return(50); model.uses.push_back({RET, 50}); }
            if (after == 2) { r.AlwaysDo(Plain{60}); model.always = true; model.forever = {DO, 60}; }
        };
        build(When(Method(m, f)));
        for (int i = 0; i < 3; i++) {
            int got = observe([&] { return o.f(depth); }), want = model.observe(depth);
            MC_LOG("f(%d) = %d (model %d)", depth, got, want);
            MC_CHECK(got == want, "uses %d depth %d: call %d gave %d, the script says %d", uses, depth, i, got, want);
            mc::outcome(want == UNEXPECTED ? "past the end" : "used");
            mc::step(mc::mix(model.hash(), i));
        }
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 3;
        o.mandatory = {"past the end", "threw", "returned"};
        o.bound = "all scripts of up to 4 (thorough 5) of 24 items and 6 terminals, called to the end and 3 further";
        mc::add("scripts", o, [] { spaceScripts(false, mc::bound(5, 6)); });
        o.mandatory = {"past the end", "threw", "returned", "nested use"};
        o.bound = "the same scripts with re-entrant calls of depth 1 and 2";
        mc::add("scripts-nested", o, [] { spaceScripts(true, mc::bound(5, 6)); });
        o.bound = "scripts of up to 2 (3) items, plain and re-entrant, every call made while an exception propagates or in a catch block";
        mc::add("places", o, [] { fk::Place p(1 + mc::choose(2)); spaceScripts(mc::flag(), mc::bound(3, 4)); });
        o.mandatory = {"past the end", "used"};
        o.bound = "9 signatures, all scripts of up to 4 (thorough 5) of 8 items and 4 terminals";
        mc::add("signatures", o, spaceSignatures);
        o.shardDepth = 2;
        o.bound = "every quantity 0..130 for Return and Throw, 0..300 for Do, chains of 0..300 actions";
        mc::add("quantity", o, spaceQuantity);
        o.mandatory = {};
        o.shardDepth = 2;
        o.bound = "11 forms (9 with a quantity, 2 chains) x 55 (40) quantities from 1 to 100000";
        mc::add("large", o, spaceLarge);
        o.bound = "lists of 2..10, 12, 16 and 20 actions in one Return, Throw or Do, 8 forms, none or one of three elements with a quantity";
        mc::add("lists", o, spaceLists);
        o.mandatory = {"past the end", "used"};
        o.shardDepth = 3;
        o.bound = "6^3 script triples over two mocks, all call interleavings of 6 (8)";
        mc::add("interleaved", o, spaceInterleaved);
        o.bound = "re-entrant scripts with 1..6 uses, nesting depth 0..8";
        mc::add("deep", o, spaceDeep);
    });
}
