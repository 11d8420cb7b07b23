// C21: ReturnAndSet and AlwaysReturnAndSet.
// Every list of positions up to MAXLEN elements is one instantiation; uses, arguments and changes of named values are enumerated at run time.
// Also built as C++11 and C++14, for which the headers contain other code.
#include "fk.hpp"
#include "heap.hpp"
using namespace fakeit;
using fk::L;
#ifndef MAXLEN
#define MAXLEN 3
#endif
#ifndef PART
#define PART -1
#endif

namespace {
    // moves show: the source becomes -1
    struct Obj {
        int v;
        Obj(int v_ = 0) : v(v_) {}
        Obj(const Obj &) = default;
        Obj(Obj &&o) : v(o.v) { o.v = -1; }
        Obj &operator=(const Obj &) = default;
        Obj &operator=(Obj &&o) { v = o.v; if (this != &o) o.v = -1; return *this; }
    };
    struct X {
        virtual Obj same(Obj &, Obj *, Obj &, Obj *) = 0;
        virtual void vsame(Obj &, Obj *, Obj &, Obj *) = 0;
        virtual int mixed(int *, std::string &, const Obj *&, long &) = 0;
        virtual void vmixed(int *, std::string &, const Obj *&, long &) = 0;
        virtual Obj &ref(Obj &, Obj *, Obj **, std::string *) = 0;
        virtual bool partly(Obj, Obj &, const Obj &, Obj *) = 0;
        virtual void vpartly(const Obj *, Obj &, Obj &&, Obj *) = 0;
        virtual std::string chain(std::string &, Obj *) = 0;
        virtual int one(std::string *) = 0;
        virtual int wide(int &, int *, int &, int *, int &, int *, int &, int *, int &, int *) = 0;
        virtual void vwide(int &, int *, int &, int *, int &, int *, int &, int *, int &, int *) = 0;
    };
    Obj pool[64];  // objects pointers point to

    // the values of position types
    template<class T> struct Value;
    template<> struct Value<Obj> { static Obj make(int x) { return Obj(x); } static int of(const Obj &o) { return o.v; } };
    template<> struct Value<int> { static int make(int x) { return x; } static int of(int x) { return x; } };
    template<> struct Value<long> { static long make(int x) { return x; } static int of(long x) { return (int) x; } };
    template<> struct Value<std::string> { static std::string make(int x) { return "a string too long for the small buffer " + std::to_string(x); } static int of(const std::string &s) { return s.size() < 40 ? -1 : atoi(s.c_str() + 39); } };
    template<> struct Value<const Obj *> { static const Obj *make(int x) { return &pool[x]; } static int of(const Obj *p) { return (int) (p - pool); } };
    template<> struct Value<Obj *> { static Obj *make(int x) { return &pool[x]; } static int of(Obj *p) { return (int) (p - pool); } };

    template<int...> struct Seq {};
    template<int N, int... I> struct MakeSeq : MakeSeq<N - 1, N - 1, I...> {};
    template<int... I> struct MakeSeq<0, I...> { typedef Seq<I...> type; };

    template<int N> struct Place;
    template<> struct Place<1> { typedef decltype(std::placeholders::_1) type; };
    template<> struct Place<2> { typedef decltype(std::placeholders::_2) type; };
    template<> struct Place<3> { typedef decltype(std::placeholders::_3) type; };
    template<> struct Place<4> { typedef decltype(std::placeholders::_4) type; };

    // the arguments of a call and the types behind them
    template<class A, class B, class C, class D>
    struct Args {
        A a; B b; C c; D d;
        explicit Args(int x) : a(Value<A>::make(x)), b(Value<B>::make(x)), c(Value<C>::make(x)), d(Value<D>::make(x)) {}
        std::vector<int> values() { return {Value<A>::of(a), Value<B>::of(b), Value<C>::of(c), Value<D>::of(d)}; }
    };
    template<int P, class A> struct TypeAt;
    template<class A, class B, class C, class D> struct TypeAt<1, Args<A, B, C, D>> { typedef A type; };
    template<class A, class B, class C, class D> struct TypeAt<2, Args<A, B, C, D>> { typedef B type; };
    template<class A, class B, class C, class D> struct TypeAt<3, Args<A, B, C, D>> { typedef C type; };
    template<class A, class B, class C, class D> struct TypeAt<4, Args<A, B, C, D>> { typedef D type; };

    Obj returned(77);
    // the signatures
    struct Same {
        typedef Args<Obj, Obj, Obj, Obj> args;
        static constexpr int allowed = 15;
        static constexpr bool isVoid = false;
        static int call(X &o, args &a) { return o.same(a.a, &a.b, a.c, &a.d).v; }
        template<class... V> static void once(Mock<X> &m, V &&... v) { When(Method(m, same)).ReturnAndSet(Obj(77), std::forward<V>(v)...); }
        template<class... V> static void always(Mock<X> &m, V &&... v) { When(Method(m, same)).AlwaysReturnAndSet(Obj(77), std::forward<V>(v)...); }
    };
    struct VSame {
        typedef Args<Obj, Obj, Obj, Obj> args;
        static constexpr int allowed = 15;
        static constexpr bool isVoid = true;
        static int call(X &o, args &a) { o.vsame(a.a, &a.b, a.c, &a.d); return 77; }
        template<class... V> static void once(Mock<X> &m, V &&... v) { When(Method(m, vsame)).ReturnAndSet(std::forward<V>(v)...); }
        template<class... V> static void always(Mock<X> &m, V &&... v) { When(Method(m, vsame)).AlwaysReturnAndSet(std::forward<V>(v)...); }
    };
    struct Mixed {
        typedef Args<int, std::string, const Obj *, long> args;
        static constexpr int allowed = 15;
        static constexpr bool isVoid = false;
        static int call(X &o, args &a) { return o.mixed(&a.a, a.b, a.c, a.d); }
        template<class... V> static void once(Mock<X> &m, V &&... v) { When(Method(m, mixed)).ReturnAndSet(77, std::forward<V>(v)...); }
        template<class... V> static void always(Mock<X> &m, V &&... v) { When(Method(m, mixed)).AlwaysReturnAndSet(77, std::forward<V>(v)...); }
    };
    struct VMixed {
        typedef Args<int, std::string, const Obj *, long> args;
        static constexpr int allowed = 15;
        static constexpr bool isVoid = true;
        static int call(X &o, args &a) { o.vmixed(&a.a, a.b, a.c, a.d); return 77; }
        template<class... V> static void once(Mock<X> &m, V &&... v) { When(Method(m, vmixed)).ReturnAndSet(std::forward<V>(v)...); }
        template<class... V> static void always(Mock<X> &m, V &&... v) { When(Method(m, vmixed)).AlwaysReturnAndSet(std::forward<V>(v)...); }
    };
    struct Ref {
        typedef Args<Obj, Obj, Obj *, std::string> args;
        static constexpr int allowed = 15;
        static constexpr bool isVoid = false;
        static int call(X &o, args &a) { Obj &r = o.ref(a.a, &a.b, &a.c, &a.d); return &r == &returned ? r.v : -2; }
        template<class... V> static void once(Mock<X> &m, V &&... v) { When(Method(m, ref)).ReturnAndSet(returned, std::forward<V>(v)...); }
        template<class... V> static void always(Mock<X> &m, V &&... v) { When(Method(m, ref)).AlwaysReturnAndSet(returned, std::forward<V>(v)...); }
    };
    struct Partly {
        typedef Args<Obj, Obj, Obj, Obj> args;
        static constexpr int allowed = 2 | 8;
        static constexpr bool isVoid = false;
        static int call(X &o, args &a) { return o.partly(a.a, a.b, a.c, &a.d) ? 77 : 78; }
        template<class... V> static void once(Mock<X> &m, V &&... v) { When(Method(m, partly)).ReturnAndSet(true, std::forward<V>(v)...); }
        template<class... V> static void always(Mock<X> &m, V &&... v) { When(Method(m, partly)).AlwaysReturnAndSet(true, std::forward<V>(v)...); }
    };
    struct VPartly {
        typedef Args<Obj, Obj, Obj, Obj> args;
        static constexpr int allowed = 2 | 8;
        static constexpr bool isVoid = true;
        static int call(X &o, args &a) { o.vpartly(&a.a, a.b, std::move(a.c), &a.d); return 77; }
        template<class... V> static void once(Mock<X> &m, V &&... v) { When(Method(m, vpartly)).ReturnAndSet(std::forward<V>(v)...); }
        template<class... V> static void always(Mock<X> &m, V &&... v) { When(Method(m, vpartly)).AlwaysReturnAndSet(std::forward<V>(v)...); }
    };

    // the history common to all lists: stub is written with values 10, 11, ...; expected[p] is the index in the list or -1
    template<class S>
    void history(const std::vector<int> &expected, bool named, const std::function<void(Mock<X> &, int)> &stub, const std::function<void()> &change) {
        for (int i = 0; i < 64; i++) pool[i].v = i;
        returned.v = 77;
        Mock<X> m;
        X &o = L(m.get());
        int form = mc::choose(3);  // always; once; once after once
        uint64_t h = mc::hashStr(mc::fmt("%d %d %d %d", expected[0], expected[1], expected[2], expected[3]).c_str());
        h = mc::mix(mc::mix(h, form), named);
        stub(m, form ? 1 : 0);
        bool changed = false, reuse = mc::flag();
        typename S::args kept(3);
        std::vector<int> keptWant = {3, 3, 3, 3};
        for (int i = 0; i < mc::bound(3, 4); i++) {
            if (named && !changed && mc::flag()) { MC_LOG("named values change"); change(); changed = true; }
            if (form == 1 && i) break;
            if (form == 2 && i && i < 3) stub(m, 1);
            if (form == 2 && i >= 3) break;
            typename S::args fresh(4);
            std::vector<int> want = reuse ? keptWant : std::vector<int>{4, 4, 4, 4};
            for (int p = 0; p < 4; p++) if (expected[p] >= 0) want[p] = 10 + expected[p] + (named && changed ? 20 : 0);
            keptWant = want;
            typename S::args &a = reuse ? kept : fresh;
            int r = S::call(o, a);
            std::vector<int> got = a.values();
            MC_LOG("call -> %d; %d %d %d %d", r, got[0], got[1], got[2], got[3]);
            MC_CHECK(r == 77, "returned %d", r);
            for (int p = 0; p < 4; p++) MC_CHECK(got[p] == want[p], "argument %d is %d instead of %d in call %d", p + 1, got[p], want[p], i + 1);
            h = mc::mix(mc::mix(h, changed), reuse);
            mc::step(mc::mix(h, i));
        }
        for (int i = 0; i < 64; i++) MC_CHECK(pool[i].v == i, "an object that is only pointed to was changed");
        mc::outcome(changed ? "changed values" : "given values");
    }
    // values are rvalues or named variables
    template<class S, int... P, int... K>
    void placed(Seq<K...>) {
        bool named = mc::flag();
        std::vector<int> list = {P...};
        std::vector<int> expected(4, -1);
        for (size_t k = 0; k < list.size(); k++) expected[list[k] - 1] = (int) k;
        std::string text;
        for (int p : list) text += " _" + std::to_string(p);
        MC_LOG("placeholders%s%s", text.c_str(), named ? ", named values" : "");
        using fakeit::placeholders::operator<=;
        std::tuple<typename TypeAt<P, typename S::args>::type...> vals(Value<typename TypeAt<P, typename S::args>::type>::make(10 + K)...);
        history<S>(expected, named, [&](Mock<X> &m, int once) {
            if (named) {
                if (once) S::once(m, (typename Place<P>::type() <= std::get<K>(vals))...);
                else S::always(m, (typename Place<P>::type() <= std::get<K>(vals))...);
            } else {
                if (once) S::once(m, (typename Place<P>::type() <= Value<typename TypeAt<P, typename S::args>::type>::make(10 + K))...);
                else S::always(m, (typename Place<P>::type() <= Value<typename TypeAt<P, typename S::args>::type>::make(10 + K))...);
            }
        }, [&] { vals = std::tuple<typename TypeAt<P, typename S::args>::type...>(Value<typename TypeAt<P, typename S::args>::type>::make(30 + K)...); });
    }
    template<class S, int... P>
    void inOrder(Seq<P...>) {
        bool named = mc::flag();
        std::vector<int> expected(4, -1);
        for (size_t k = 0; k < sizeof...(P); k++) expected[k] = (int) k;
        MC_LOG("first %d arguments%s", (int) sizeof...(P), named ? ", named values" : "");
        std::tuple<typename TypeAt<P + 1, typename S::args>::type...> vals(Value<typename TypeAt<P + 1, typename S::args>::type>::make(10 + P)...);
        history<S>(expected, named, [&](Mock<X> &m, int once) {
            if (named) {
                if (once) S::once(m, std::get<P>(vals)...);
                else S::always(m, std::get<P>(vals)...);
            } else {
                if (once) S::once(m, Value<typename TypeAt<P + 1, typename S::args>::type>::make(10 + P)...);
                else S::always(m, Value<typename TypeAt<P + 1, typename S::args>::type>::make(10 + P)...);
            }
        }, [&] { vals = std::tuple<typename TypeAt<P + 1, typename S::args>::type...>(Value<typename TypeAt<P + 1, typename S::args>::type>::make(30 + P)...); });
    }
    constexpr int at(int i, int k) { return k ? at(i / 4, k - 1) : i % 4 + 1; }
    constexpr bool fits(int allowed, int p) { return (allowed >> (p - 1)) & 1; }
    // a list with a position that is not to be written is no list
    template<class S, int I, int Len, bool Ok, int... K>
    struct One { static void run(Seq<K...>) { placed<S, at(I, K)...>(Seq<K...>()); } };
    template<class S, int I, int Len, int... K>
    struct One<S, I, Len, false, K...> { static void run(Seq<K...>) { throw mc::Prune{}; } };
    constexpr bool allOk(int) { return true; }
    template<class... T> constexpr bool allOk(int d, bool b, T... t) { return b && allOk(d, t...); }
    template<class S, int Len, int I, int... K>
    void oneList(Seq<K...> k) { One<S, I, Len, allOk(0, fits(S::allowed, at(I, K))...), K...>::run(k); }
    template<class S, int Len, int... I>
    void lists(Seq<I...>) {
        typedef void (*Run)(typename MakeSeq<Len>::type);
        static const Run all[] = {&oneList<S, Len, I>...};
        all[mc::choose((int) sizeof...(I))](typename MakeSeq<Len>::type());
    }
    template<class S, bool Positional>
    struct First { static void add(const mc::Options &o, const std::string &name) {
        mc::add(name + " in order", o, [] {
            switch (mc::choose(4)) {
                case 0: inOrder<S>(Seq<0>()); break;
                case 1: inOrder<S>(Seq<0, 1>()); break;
                case 2: inOrder<S>(Seq<0, 1, 2>()); break;
                default: inOrder<S>(Seq<0, 1, 2, 3>()); break;
            }
        });
    } };
    template<class S> struct First<S, false> { static void add(const mc::Options &, const std::string &) {} };
    template<class S>
    void signature(const char *name) {
        mc::Options o;
        o.shardDepth = 1;
        o.mandatory = {"given values", "changed values"};
        o.bound = mc::fmt("all lists of up to %d of 4 positions with repetitions, rvalues and named values changed at any time, used once, again or up to 3 (4) times", MAXLEN);
        mc::add(std::string(name) + " 1", o, [] { lists<S, 1>(typename MakeSeq<4>::type()); });
        mc::add(std::string(name) + " 2", o, [] { lists<S, 2>(typename MakeSeq<16>::type()); });
#if MAXLEN >= 3
        mc::add(std::string(name) + " 3", o, [] { lists<S, 3>(typename MakeSeq<64>::type()); });
#endif
        First<S, S::allowed == 15>::add(o, name);
    }
    // ten parameters: every single position, every pair of positions in both orders, everything in order and backwards
    int wideArgs[10];
    int callWide(X &o, bool isVoid) {
        int *a = wideArgs;
        if (isVoid) { o.vwide(a[0], &a[1], a[2], &a[3], a[4], &a[5], a[6], &a[7], a[8], &a[9]); return 77; }
        return o.wide(a[0], &a[1], a[2], &a[3], a[4], &a[5], a[6], &a[7], a[8], &a[9]);
    }
    template<int N> struct Ten { static std::_Placeholder<N + 1> place() { return {}; } };
    template<int A, int B> void wideStub(Mock<X> &m, bool isVoid) {
        using fakeit::placeholders::operator<=;
        if (isVoid) When(Method(m, vwide)).AlwaysReturnAndSet(Ten<A>::place() <= 100, Ten<B>::place() <= 101);
        else When(Method(m, wide)).AlwaysReturnAndSet(77, Ten<A>::place() <= 100, Ten<B>::place() <= 101);
    }
    template<int... I> void widePair(Mock<X> &m, bool isVoid, int i, Seq<I...>) {
        typedef void (*Stub)(Mock<X> &, bool);
        static const Stub all[] = {&wideStub<I / 10, I % 10>...};
        all[i](m, isVoid);
    }
    template<int... I> void wideAll(Mock<X> &m, bool isVoid, bool backwards, Seq<I...>) {
        using fakeit::placeholders::operator<=;
        if (backwards) {
            if (isVoid) When(Method(m, vwide)).AlwaysReturnAndSet((Ten<9 - I>::place() <= 100 + I)...);
            else When(Method(m, wide)).AlwaysReturnAndSet(77, (Ten<9 - I>::place() <= 100 + I)...);
        } else {
            if (isVoid) When(Method(m, vwide)).AlwaysReturnAndSet((100 + I)...);
            else When(Method(m, wide)).AlwaysReturnAndSet(77, (100 + I)...);
        }
    }
    template<int Len, int... I> void wideFirst(Mock<X> &m, bool isVoid, Seq<I...>) {
        if (isVoid) When(Method(m, vwide)).AlwaysReturnAndSet((100 + I)...);
        else When(Method(m, wide)).AlwaysReturnAndSet(77, (100 + I)...);
    }
    void wideSpace() {
        Mock<X> m;
        bool isVoid = mc::flag();
        std::vector<int> want(10);
        for (int i = 0; i < 10; i++) want[i] = i;
        int what = mc::choose(4);
        if (what == 0) {
            int i = mc::choose(100);
            widePair(m, isVoid, i, MakeSeq<100>::type());
            want[i / 10] = 100;
            want[i % 10] = 101;
            MC_LOG("positions %d and %d", i / 10 + 1, i % 10 + 1);
        } else if (what == 1 || what == 2) {
            wideAll(m, isVoid, what == 1, MakeSeq<10>::type());
            for (int i = 0; i < 10; i++) want[i] = what == 1 ? 100 + 9 - i : 100 + i;
        } else {
            int n = 5 + mc::choose(5);
            if (n == 5) wideFirst<5>(m, isVoid, MakeSeq<5>::type());
            else if (n == 6) wideFirst<6>(m, isVoid, MakeSeq<6>::type());
            else if (n == 7) wideFirst<7>(m, isVoid, MakeSeq<7>::type());
            else if (n == 8) wideFirst<8>(m, isVoid, MakeSeq<8>::type());
            else wideFirst<9>(m, isVoid, MakeSeq<9>::type());
            for (int i = 0; i < n; i++) want[i] = 100 + i;
        }
        for (int c = 0; c < 300; c++) {
            for (int i = 0; i < 10; i++) wideArgs[i] = i;
            int r = callWide(L(m.get()), isVoid);
            MC_CHECK(r == 77, "returned %d", r);
            for (int i = 0; i < 10; i++) MC_CHECK(wideArgs[i] == want[i], "argument %d is %d instead of %d in call %d", i + 1, wideArgs[i], want[i], c + 1);
            if (c < 3) mc::step(mc::mix(mc::mix(isVoid, what), mc::mix(want[0] * 16 + want[1], want[8] * 16 + want[9]) + c));
        }
        mc::outcome("written");
    }
    // several actions in one statement, mixed with other actions
    void chains() {
        using fakeit::placeholders::operator<=;
        Mock<X> m;
        X &o = L(m.get());
        std::vector<int> kinds;
        int n = 1 + mc::choose(mc::bound(4, 5));
        for (int i = 0; i < n; i++) kinds.push_back(mc::choose(6));
        std::string named = Value<std::string>::make(60);
        {
            auto stub = [&](MethodStubbingProgress<std::string, std::string &, Obj *> &&p) {
                MethodStubbingProgress<std::string, std::string &, Obj *> *q = &p;
                for (int i = 0; i < n; i++) {
                    std::string r = "result " + std::to_string(i);
                    switch (kinds[i]) {
                        case 0: q = &q->ReturnAndSet(std::move(r), Value<std::string>::make(i)); break;
                        case 1: q = &q->ReturnAndSet(std::move(r), Value<std::string>::make(i), Obj(i)); break;
                        case 2: q = &q->ReturnAndSet(std::move(r), std::placeholders::_2 <= Obj(i)); break;
                        case 3: q = &q->ReturnAndSet(std::move(r), std::placeholders::_2 <= Obj(i), std::placeholders::_1 <= named); break;
                        case 4: q = &q->Return(r); break;
                        default: q = &q->Do([r, i](std::string &, Obj *p) { p->v = 90 + i; return r; }); break;
                    }
                }
            };
            stub(When(Method(m, chain)));
        }
        uint64_t h = n;
        for (int i = 0; i < n; i++) {
            std::string s = "before";
            Obj x(-5);
            std::string r = o.chain(s, &x);
            MC_LOG("kind %d: %s, %s, %d", kinds[i], r.c_str(), s.c_str(), x.v);
            MC_CHECK(r == "result " + std::to_string(i), "returned %s in call %d", r.c_str(), i + 1);
            std::string ws = kinds[i] < 2 ? Value<std::string>::make(i) : kinds[i] == 3 ? named : "before";
            int wx = kinds[i] >= 1 && kinds[i] <= 3 ? i : kinds[i] == 5 ? 90 + i : -5;
            MC_CHECK(s == ws, "the first argument is '%s' instead of '%s' in call %d", s.c_str(), ws.c_str(), i + 1);
            MC_CHECK(x.v == wx, "the second argument is %d instead of %d in call %d", x.v, wx, i + 1);
            h = mc::mix(h, kinds[i]);
            mc::step(h);
        }
        // one parameter
        std::string only;
        When(Method(m, one)).AlwaysReturnAndSet(5, "text");
        MC_CHECK(o.one(&only) == 5 && only == "text", "the only argument is '%s'", only.c_str());
        mc::outcome("chain");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
#if PART == 0 || PART == -1
        signature<Same>("object");
#endif
#if PART == 1 || PART == -1
        signature<VSame>("void object");
#endif
#if PART == 2 || PART == -1
        signature<Mixed>("mixed");
#endif
#if PART == 3 || PART == -1
        signature<VMixed>("void mixed");
#endif
#if PART == 4 || PART == -1
        signature<Ref>("reference result");
#endif
#if PART == 5 || PART == -1
        signature<Partly>("partly");
        signature<VPartly>("void partly");
#endif
#if PART == 6 || PART == -1
        {
            mc::Options o;
            o.shardDepth = 2;
            o.bound = "ten parameters, all pairs of positions, the first 5 to 10 arguments, all backwards; 300 calls each";
            o.mandatory = {"written"};
            mc::add("wide", o, [] { wideSpace(); });
            o.mandatory = {"chain"};
            o.bound = "all chains of up to 4 (5) of 6 kinds of actions";
            mc::add("chains", o, [] { chains(); });
        }
#endif
    });
}
