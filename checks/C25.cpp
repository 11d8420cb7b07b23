// C25: the run-time type of mock instances.
#include "heap.hpp"
#include "fk.hpp"
#include <typeindex>
#include <typeinfo>
using namespace fakeit;
using fk::L;

namespace {
    // a chain of classes, a side branch, and classes that have nothing to do with them
    struct A { virtual int a(int) = 0; virtual ~A() {} };
    struct B : A { int data; virtual int b() = 0; };
    struct C : B { std::string text; int a(int x) override { return x; } virtual int c(const std::string &) = 0; };
    struct D : C { virtual int d() { return 4; } int b() override { return 2; } };
    struct E : D { int c(const std::string &) override { return 5; } virtual void e() {} };
    struct Side : A { virtual int side() = 0; };
    struct Side2 : B { virtual int side() = 0; char area[500]; };
    struct Other { virtual int other() = 0; virtual ~Other() {} };
    struct NoDtor { virtual int n() = 0; };
    struct NoDtor2 : NoDtor { virtual int n2() = 0; int data; };
    template<class T> struct Tmpl : A { virtual T t(T) = 0; };
    // a base class without virtual methods does not take part in casts from it; the class after it does
    struct Plain { int plain; };
    struct WithPlain { virtual int w() = 0; Plain p; virtual ~WithPlain() {} };

    // the facts: which class derives from which
    template<class To, class Mocked, class From>
    struct Cast {
        // To* from From* for an object whose class is Mocked
        static void check(From *from, const void *whole) {
            const bool works = std::is_base_of<To, Mocked>::value;
            To *p = dynamic_cast<To *>(from);
            MC_CHECK((p != nullptr) == works, "a cast of %s* to %s* of a mock of %s %s", typeid(From).name(), typeid(To).name(), typeid(Mocked).name(), p ? "succeeds" : "fails");
            if (works) MC_CHECK((const void *) p == whole, "a cast of %s* to %s* gives another object", typeid(From).name(), typeid(To).name());
            const To *cp = dynamic_cast<const To *>((const From *) from);
            MC_CHECK(cp == p, "a cast of a pointer to const differs");
            bool bad = false;
            try { To &r = dynamic_cast<To &>(*from); MC_CHECK((const void *) &r == whole, "a cast of a reference gives another object"); }
            catch (std::bad_cast &) { bad = true; }
            MC_CHECK(bad == !works, "a cast of %s& to %s& of a mock of %s %s", typeid(From).name(), typeid(To).name(), typeid(Mocked).name(), bad ? "throws" : "succeeds");
        }
    };
    template<class Mocked, class From, bool IsBase> struct View { static void check(Mocked &) {} };
    template<class Mocked, class From>
    struct View<Mocked, From, true> {
        static void check(Mocked &m) {
            From *volatile hidden = &m;
            From *f = hidden;
            const void *whole = &m;
            const std::type_info &t = typeid(*f);
            MC_CHECK(t == typeid(Mocked), "typeid of a mock of %s is %s", typeid(Mocked).name(), t.name());
            MC_CHECK(std::string(t.name()) == typeid(Mocked).name() && std::type_index(t) == std::type_index(typeid(Mocked)) && t.hash_code() == typeid(Mocked).hash_code(), "the name of the type is %s", t.name());
            MC_CHECK(dynamic_cast<void *>(f) == whole && dynamic_cast<const void *>((const From *) f) == whole, "the most derived object of a mock of %s is another one", typeid(Mocked).name());
            Cast<A, Mocked, From>::check(f, whole);
            Cast<B, Mocked, From>::check(f, whole);
            Cast<C, Mocked, From>::check(f, whole);
            Cast<D, Mocked, From>::check(f, whole);
            Cast<E, Mocked, From>::check(f, whole);
            Cast<Side, Mocked, From>::check(f, whole);
            Cast<Side2, Mocked, From>::check(f, whole);
            Cast<Other, Mocked, From>::check(f, whole);
            Cast<NoDtor, Mocked, From>::check(f, whole);
            Cast<NoDtor2, Mocked, From>::check(f, whole);
            Cast<Tmpl<int>, Mocked, From>::check(f, whole);
            Cast<Tmpl<long>, Mocked, From>::check(f, whole);
            Cast<WithPlain, Mocked, From>::check(f, whole);
        }
    };
    template<class M>
    void checkAll(M &m) {
        View<M, A, std::is_base_of<A, M>::value>::check(m);
        View<M, B, std::is_base_of<B, M>::value>::check(m);
        View<M, C, std::is_base_of<C, M>::value>::check(m);
        View<M, D, std::is_base_of<D, M>::value>::check(m);
        View<M, E, std::is_base_of<E, M>::value>::check(m);
        View<M, Side, std::is_base_of<Side, M>::value>::check(m);
        View<M, Side2, std::is_base_of<Side2, M>::value>::check(m);
        View<M, Other, std::is_base_of<Other, M>::value>::check(m);
        View<M, NoDtor, std::is_base_of<NoDtor, M>::value>::check(m);
        View<M, NoDtor2, std::is_base_of<NoDtor2, M>::value>::check(m);
        View<M, Tmpl<int>, std::is_base_of<Tmpl<int>, M>::value>::check(m);
        View<M, WithPlain, std::is_base_of<WithPlain, M>::value>::check(m);
    }
    // what can be done with a mock of every class
    struct AnyMock {
        virtual ~AnyMock() {}
        virtual void check() = 0;
        virtual bool act(int op) = 0;
    };
    enum { STUB, FAKE_DTOR, CALL, VERIFY, CLEAR, RESET, UNEXPECTED, NOPS };
    const char *names[] = {"stub", "stub the destructor", "call", "verify", "clear", "Reset", "unexpected call"};
    template<class T> struct Use {};
#define USE(T, method, result, args, call) \
    template<> struct Use<T> { \
        template<class M> static void stub(M &mock) { When(Method(mock, method)).AlwaysReturn result; } \
        static void callIt(T &o) { o.call; } \
        template<class M> static void verify(M &mock) { Verify(Method(mock, method)).AtLeast(0); } \
    };
    USE(A, a, (1), (int), a(1))
    USE(B, a, (1), (int), a(1))
    USE(C, c, (1), (std::string), c("x"))
    USE(D, d, (1), (), d())
    USE(E, e, (), (), e())
    USE(Side, side, (1), (), side())
    USE(Side2, b, (1), (), b())
    USE(Other, other, (1), (), other())
    USE(NoDtor, n, (1), (), n())
    USE(NoDtor2, n, (1), (), n())
    USE(Tmpl<int>, t, (1), (int), t(1))
    USE(WithPlain, w, (1), (), w())

    template<class T, bool Has> struct DtorOf { template<class M> static bool fake(M &) { return false; } };
    template<class T> struct DtorOf<T, true> { template<class M> static bool fake(M &m) { Fake(Dtor(m)); delete &L(m.get()); return true; } };

    template<class T, class... Bases>
    struct Holder : AnyMock {
        std::unique_ptr<Mock<T, Bases...>> pm{new Mock<T, Bases...>()};
        bool stubbed = false;
        void check() override {
            MC_LOG("a mock of %s", typeid(T).name());
            checkAll<T>(L(pm->get()));
        }
        bool act(int op) override {
            Mock<T, Bases...> &m = *pm;
            fk::QuietAdapter q;
            switch (op) {
                case STUB: Use<T>::stub(m); stubbed = true; return true;
                case FAKE_DTOR: return DtorOf<T, std::has_virtual_destructor<T>::value>::fake(m);
                case CALL: if (!stubbed) return false; Use<T>::callIt(L(m.get())); return true;
                case VERIFY: if (!stubbed) return false; Use<T>::verify(m); return true;
                case CLEAR: m.ClearInvocationHistory(); return true;
                case RESET: m.Reset(); stubbed = false; return true;
                case UNEXPECTED: if (stubbed) return false; try { Use<T>::callIt(L(m.get())); } catch (fk::AdapterThrow &) {} catch (UnexpectedMethodCallException &) {} return true;
                default: return false;
            }
        }
    };
    enum { KINDS = 18 };
    std::unique_ptr<AnyMock> make(int kind) {
        AnyMock *p = nullptr;
        switch (kind) {
            case 0: p = new Holder<A>(); break;
            case 1: p = new Holder<B>(); break;
            case 2: p = new Holder<B, A>(); break;
            case 3: p = new Holder<C>(); break;
            case 4: p = new Holder<C, B>(); break;
            case 5: p = new Holder<C, B, A>(); break;
            case 6: p = new Holder<D>(); break;
            case 7: p = new Holder<D, C, B, A>(); break;
            case 8: p = new Holder<E>(); break;
            case 9: p = new Holder<E, D, C, B, A>(); break;
            case 10: p = new Holder<Side>(); break;
            case 11: p = new Holder<Side, A>(); break;
            case 12: p = new Holder<Side2, B, A>(); break;
            case 13: p = new Holder<Other>(); break;
            case 14: p = new Holder<NoDtor>(); break;
            case 15: p = new Holder<NoDtor2, NoDtor>(); break;
            case 16: p = new Holder<Tmpl<int>>(); break;
            default: p = new Holder<WithPlain>(); break;
        }
        return std::unique_ptr<AnyMock>(p);
    }
    void one(int depth) {
        heap::fill((unsigned char) (mc::flag() ? 0xA5 : 0xFF));
        int kind = mc::choose((int) KINDS);
        auto m = make(kind);
        m->check();
        uint64_t h = kind;
        for (int i = 0; i < depth; i++) {
            int op = mc::choose((int) NOPS);
            MC_LOG("%s", names[op]);
            if (!m->act(op)) throw mc::Prune{};
            m->check();
            h = mc::mix(h, op);
            mc::step(h);
        }
        mc::outcome("one");
    }
    // long chains of classes: as many methods as classes
    template<int N> struct Chain : Chain<N - 1> { virtual int m(std::integral_constant<int, N>) = 0; };
    template<> struct Chain<0> { virtual int a(int) = 0; };
    template<int N>
    void chain() {
        heap::fill((unsigned char) (mc::flag() ? 0xA5 : 0xFF));
        bool second = mc::flag();
        Mock<Chain<N>> m;
        std::unique_ptr<Mock<Chain<N>>> other(second ? new Mock<Chain<N>>() : nullptr);
        auto look = [&](Mock<Chain<N>> &mock) {
            Chain<N> &o = L(mock.get());
            Chain<0> *volatile hidden = &o;
            Chain<0> *a = hidden;
            MC_CHECK(typeid(*a) == typeid(Chain<N>), "typeid of a mock of a class with %d bases is %s", N, typeid(*a).name());
            MC_CHECK(dynamic_cast<Chain<N> *>(a) == &o && dynamic_cast<void *>(a) == &o, "cast to a class with %d bases", N);
            MC_CHECK(dynamic_cast<Chain<N / 2> *>(a) == &o && dynamic_cast<Chain<N - 1> *>(a) == &o, "cast to an intermediate class of %d", N);
            MC_CHECK(!dynamic_cast<Chain<N + 1> *>(a) && !dynamic_cast<A *>(a), "cast of a mock of a class with %d bases to another class succeeds", N);
        };
        auto check = [&] { look(m); if (other) look(*other); };
        check();
        uint64_t h = N;
        for (int i = 0; i < 3; i++) {
            int op = mc::choose(4);
            h = mc::mix(h, op);
            switch (op) {
                case 0: When(Method(m, a)).AlwaysReturn(3); MC_CHECK(L((Chain<0> &) m.get()).a(1) == 3, "the first method of %d", N); break;
                case 1: When(Method(m, m)).AlwaysReturn(4); MC_CHECK(L(m.get()).m({}) == 4, "the last method of %d", N); break;
                case 2: m.Reset(); break;
                default: m.ClearInvocationHistory();
            }
            check();
            mc::step(h);
        }
        mc::outcome("chain");
    }
    template<int... N> void anyChain(std::integer_sequence<int, N...>) {
        typedef void (*Run)();
        static const Run all[] = {&chain<N>...};
        all[mc::choose((int) sizeof...(N))]();
    }
    void several(int depth) {
        heap::fill(0xA5);
        std::vector<std::unique_ptr<AnyMock>> all;
        uint64_t h = 0;
        for (int i = 0; i < depth; i++) {
            int what = mc::choose((int) KINDS + 4);
            if (what < KINDS) all.push_back(make(what));
            else if (all.empty()) throw mc::Prune{};
            else if (what == KINDS) all.erase(all.begin());
            else if (what == KINDS + 1) all.back()->act(STUB);
            else if (what == KINDS + 2) all.front()->act(RESET);
            else all.front()->act(FAKE_DTOR);
            h = mc::mix(h, what);
            mc::step(h);
            for (auto &m : all) m->check();
        }
        mc::outcome("several");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 2;
        o.mandatory = {"one"};
        o.bound = "mocks of 12 classes with and without declared base classes (18 in all), all sequences of 5 (6) of 7 operations; after each, typeid and casts from every base to 13 classes, as pointers and references";
        mc::add("one mock", o, [] { one(mc::bound(5, 6)); });
        o.mandatory = {"chain"};
        o.bound = "chains of 1 to 300 classes with one method each (19 lengths), all sequences of 3 of 4 operations";
        mc::add("chains", o, [] { anyChain(std::integer_sequence<int, 1, 2, 3, 4, 5, 7, 8, 15, 16, 30, 31, 32, 40, 50, 63, 64, 65, 130, 300>()); });
        o.mandatory = {"several"};
        o.bound = "all sequences of 4 (5) creations of 18 mocks, destructions, stubbings and resets";
        mc::add("several mocks", o, [] { several(mc::bound(4, 5)); });
    });
}
