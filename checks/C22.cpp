// C22: stubbed data members.
#include "heap.hpp"
#include "fk.hpp"
#include <cstring>
using namespace fakeit;
using fk::L;

namespace {
    int live, made, destroyed;
    struct Tracked {
        Tracked *self;
        int v;
        explicit Tracked(int v_) : self(this), v(v_) { live++; made++; }
        Tracked(int a, int b) : Tracked(a * 10 + b) {}
        Tracked(const Tracked &o) : self(this), v(o.v) { live++; made++; }
        Tracked &operator=(const Tracked &o) { v = o.v; return *this; }
        ~Tracked() {
            MC_CHECK(self == this, "something that is no object was destroyed");
            self = nullptr;
            live--;
            destroyed++;
        }
    };
    struct Base {
        virtual int f(int) = 0;
        int inBase;
        virtual ~Base() {}
    };
    enum Colour { RED, GREEN, BLUE };
    struct X : Base {
        char c;
        std::string s;
        int a;
        Tracked t;
        double d;
        bool b;
        Colour colour;
        X *p;
        std::vector<int> list;
        std::shared_ptr<Tracked> shared;
        char tail[3];
        virtual int g() = 0;
        X() : t(0) {}
    };
    // the model: nothing, or the value
    struct State {
        int a, t, s, list, shared, d, b, c;
        bool sStubbed, tStubbed, listStubbed, sharedStubbed;
        int inBase, tail;
        State() { memset(this, 0, sizeof *this); }
    };
    enum { STUB_A, STUB_S, STUB_S2, STUB_T, STUB_LIST, STUB_SHARED, STUB_D, WRITE_A, WRITE_S, WRITE_T, WRITE_LIST, WRITE_OTHER, CALL, VERIFY, CLEAR, RESET, RENEW, NOPS };
    const char *names[] = {"Stub a", "Stub s", "Stub s(text, n)", "Stub t", "Stub list", "Stub shared", "Stub d, b, c", "write a", "write s", "write t", "write list", "write others", "call", "verify", "clear", "Reset", "destroy and create"};
    std::string text(int x) { return x & 1 ? "short " + std::to_string(x) : "a string that is too long for the small buffer " + std::to_string(x); }

    const char *const many = "cccccccccccccccccccccccccccccccccccccccccccccccccccc";
    struct One {
        std::unique_ptr<Mock<X>> pm;
        State st;
        int calls = 0;
        bool stubbed = false;
        One() { pm.reset(new Mock<X>()); }
        // an empty stub mark means the operation is possible
        bool possible(int op, bool again) {
            switch (op) {
                case STUB_S: case STUB_S2: return again || !st.sStubbed;
                case STUB_T: return again || !st.tStubbed;
                case STUB_LIST: return again || !st.listStubbed;
                case STUB_SHARED: return again || !st.sharedStubbed;
                case WRITE_S: return st.sStubbed;
                case WRITE_T: return st.tStubbed;
                case WRITE_LIST: return st.listStubbed;
                default: return true;
            }
        }
        void act(int op, int x) {
            Mock<X> &m = *pm;
            X &o = L(m.get());
            switch (op) {
                case STUB_A: m.Stub(&X::a, x); st.a = x; break;
                case STUB_S: m.Stub(&X::s, text(x)); st.s = x; st.sStubbed = true; break;
                case STUB_S2: m.Stub(&X::s, many, (size_t) (x + 30)); st.s = -x; st.sStubbed = true; break;
                case STUB_T: m.Stub(&X::t, x, 1); st.t = x * 10 + 1; st.tStubbed = true; break;
                case STUB_LIST: m.Stub(&X::list, std::vector<int>(x + 1, x)); st.list = x; st.listStubbed = true; break;
                case STUB_SHARED: m.Stub(&X::shared, std::make_shared<Tracked>(x)); st.shared = x; st.sharedStubbed = true; break;
                case STUB_D: m.Stub(&X::d, x + 0.5); m.Stub(&X::b, true); m.Stub(&X::c, 'c'); m.Stub(&X::colour, BLUE); m.Stub(&X::p, &o); st.d = x; st.b = 1; break;
                case WRITE_A: o.a = 100 + x; st.a = 100 + x; break;
                case WRITE_S: o.s = text(x) + text(x + 1); st.s = 1000 + x; break;
                case WRITE_T: o.t = Tracked(500 + x); st.t = 500 + x; break;
                case WRITE_LIST: o.list.push_back(x); o.list.assign(x + 1, x); st.list = x; break;
                case WRITE_OTHER: o.inBase = x; o.tail[0] = o.tail[1] = o.tail[2] = (char) x; st.inBase = st.tail = x; break;
                case CALL:
                    if (!stubbed) { X *p = &o; When(Method(m, f)).AlwaysDo([p](int y) { return p->a + y; }); stubbed = true; }
                    MC_CHECK(o.f(1) == st.a + 1, "a method saw another value of a");
                    calls++;
                    break;
                case VERIFY: {
                    if (!stubbed) { X *p = &o; When(Method(m, f)).AlwaysDo([p](int y) { return p->a + y; }); stubbed = true; }
                    fk::QuietAdapter q;
                    try { Verify(Method(m, f)).Exactly(calls); } catch (...) { MC_CHECK(false, "the verification of %d calls failed", calls); }
                    try { Verify(Method(m, f)).Exactly(calls + 1); } catch (fk::AdapterThrow &) {}
                    try { VerifyNoOtherInvocations(m); } catch (fk::AdapterThrow &) {}
                    break;
                }
                case CLEAR: m.ClearInvocationHistory(); calls = 0; break;
                case RESET: m.Reset(); st = State(); calls = 0; stubbed = false; break;
                default: pm.reset(); pm.reset(new Mock<X>()); st = State(); calls = 0; stubbed = false; break;
            }
        }
        int objects() const { return st.tStubbed + st.sharedStubbed; }
        void zero(const char *name, const void *p, size_t n) {
            for (size_t i = 0; i < n; i++) MC_CHECK(!((const volatile char *) p)[i], "byte %d of %s, which is not stubbed, is %d", (int) i, name, ((const char *) p)[i]);
        }
        void check() {
            X &o = L(pm->get());
            MC_CHECK(o.a == st.a, "a is %d instead of %d", o.a, st.a);
            if (st.sStubbed) {
                std::string want = st.s < 0 ? std::string(30 - st.s, 'c') : st.s >= 1000 ? text(st.s - 1000) + text(st.s - 999) : text(st.s);
                MC_CHECK(o.s == want, "s is '%s' instead of '%s'", o.s.c_str(), want.c_str());
            } else zero("s", &o.s, sizeof o.s);
            if (st.tStubbed) MC_CHECK(o.t.v == st.t && o.t.self == &o.t, "t is %d instead of %d", o.t.v, st.t);
            else zero("t", &o.t, sizeof o.t);
            if (st.listStubbed) MC_CHECK(o.list == std::vector<int>(st.list + 1, st.list), "list of %d elements instead of %d", (int) o.list.size(), st.list + 1);
            else zero("list", &o.list, sizeof o.list);
            if (st.sharedStubbed) MC_CHECK(o.shared && o.shared->v == st.shared && o.shared.use_count() == 1, "shared is %ld times held", o.shared.use_count());
            else zero("shared", &o.shared, sizeof o.shared);
            MC_CHECK(o.d == (st.b ? st.d + 0.5 : 0), "d is %f", o.d);
            MC_CHECK(o.b == (st.b != 0) && o.c == (st.b ? 'c' : 0) && o.colour == (st.b ? BLUE : RED) && o.p == (st.b ? &o : nullptr), "b, c, colour, p are %d, %d, %d, %p", o.b, o.c, o.colour, (void *) o.p);
            MC_CHECK(o.inBase == st.inBase, "the member of the base class is %d instead of %d", o.inBase, st.inBase);
            MC_CHECK(o.tail[0] == st.tail && o.tail[1] == st.tail && o.tail[2] == st.tail, "tail is %d %d %d", o.tail[0], o.tail[1], o.tail[2]);
        }
    };
    void history(int depth, int mocks, bool again) {
        heap::fill((unsigned char) (mc::flag() ? 0xA5 : 0xFF));
        live = made = destroyed = 0;
        {
            std::vector<std::unique_ptr<One>> all;
            for (int i = 0; i < mocks; i++) all.emplace_back(new One());
            for (auto &m : all) m->check();
            uint64_t h = mocks;
            for (int i = 0; i < depth; i++) {
                int who = mocks > 1 ? mc::choose(mocks) : 0, op = mc::choose((int) NOPS);
                One &m = *all[who];
                if (!m.possible(op, again)) throw mc::Prune{};
                MC_LOG("%d: %s", who, names[op]);
                int before = 0, liveBefore = live, madeBefore = made, gone = destroyed;
                for (auto &x : all) before += x->objects();
                m.act(op, i + 1);
                h = mc::mix(mc::mix(h, op), who);
                mc::step(h);
                int want = 0;
                for (auto &x : all) { x->check(); want += x->objects(); }
                MC_CHECK(live == want, "%d member objects live instead of %d", live, want);
                if (op >= CALL && op <= CLEAR) MC_CHECK(made == madeBefore && destroyed == gone && live == liveBefore, "%s made or destroyed member objects", names[op]);
            }
        }
        MC_CHECK(live == 0, "%d member objects are left", live);
        MC_CHECK(made == destroyed, "%d member objects made and %d destroyed", made, destroyed);
        mc::outcome(made ? "objects" : "no objects");
    }
    // no members, members of every size
    template<int N> struct Sized { virtual int f() = 0; unsigned char area[N]; };
    template<int N>
    void sized() {
        heap::fill((unsigned char) (mc::flag() ? 0xA5 : 0xFF));
        Mock<Sized<N>> m;
        Sized<N> &o = L(m.get());
        auto zero = [&](const char *when) { for (int i = 0; i < N; i++) MC_CHECK(((volatile unsigned char *) o.area)[i] == 0, "byte %d of %d is %d %s", i, N, o.area[i], when); };
        zero("in a fresh mock");
        mc::step(mc::mix(N, 1));
        Method(m, f) = 5;
        o.f();
        zero("after a call");
        for (int i = 0; i < N; i++) o.area[i] = (unsigned char) (i * 7 + 1);
        auto kept = [&](const char *when) { for (int i = 0; i < N; i++) MC_CHECK(o.area[i] == (unsigned char) (i * 7 + 1), "byte %d of %d is %d %s", i, N, o.area[i], when); };
        MC_CHECK(o.f() == 5, "f returned another value");
        kept("after a call");
        Verify(Method(m, f)).Exactly(2);
        kept("after a verification");
        mc::step(mc::mix(N, 2));
        m.ClearInvocationHistory();
        kept("after clearing");
        m.Reset();
        zero("after Reset");
        mc::step(mc::mix(N, 3));
        mc::outcome("sized");
    }
    template<int... N> struct Sizes {};
    template<int... N> void anySize(Sizes<N...>) {
        typedef void (*Run)();
        static const Run all[] = {&sized<N>...};
        all[mc::choose((int) sizeof...(N))]();
    }
    // members that are objects of every size, stubbed again and again
    template<int N> struct Sized2 {
        unsigned char area[N];
        Tracked t;
        Sized2(int v, unsigned char fill) : t(v) { memset(area, fill, N); }
    };
    template<int N> struct Host {
        virtual int f() = 0;
        int before;
        Sized2<N> o;
        int after;
        Sized2<N> second;
    };
    template<int N>
    void objects() {
        heap::fill((unsigned char) (mc::flag() ? 0xA5 : 0xFF));
        live = made = destroyed = 0;
        int depth = mc::bound(3, 4);
        {
            std::unique_ptr<Mock<Host<N>>> pm(new Mock<Host<N>>());
            int want[2] = {0, 0};  // 0: not stubbed
            for (int i = 0; i < depth; i++) {
                int op = mc::choose(5);
                MC_LOG("%s", op == 0 ? "Stub o" : op == 1 ? "Stub second" : op == 2 ? "clear" : op == 3 ? "Reset" : "destroy and create");
                switch (op) {
                    case 0: pm->Stub(&Host<N>::o, i + 1, (unsigned char) (i + 1)); want[0] = i + 1; break;
                    case 1: pm->Stub(&Host<N>::second, i + 11, (unsigned char) (i + 11)); want[1] = i + 11; break;
                    case 2: pm->ClearInvocationHistory(); break;
                    case 3: pm->Reset(); want[0] = want[1] = 0; break;
                    default: pm.reset(); pm.reset(new Mock<Host<N>>()); want[0] = want[1] = 0;
                }
                Host<N> &h = L(pm->get());
                for (int k = 0; k < 2; k++) {
                    Sized2<N> &o = k ? h.second : h.o;
                    for (int b = 0; b < N; b++) MC_CHECK(((volatile unsigned char *) o.area)[b] == want[k], "byte %d of %d of object %d is %d instead of %d", b, N, k, o.area[b], want[k]);
                    MC_CHECK(o.t.v == want[k] && o.t.self == (want[k] ? &o.t : nullptr), "the part of object %d is %d instead of %d", k, o.t.v, want[k]);
                }
                MC_CHECK(h.before == 0 && h.after == 0, "a neighbour is %d, %d", h.before, h.after);
                MC_CHECK(live == (want[0] != 0) + (want[1] != 0), "%d objects of %d bytes live instead of %d", live, N, (want[0] != 0) + (want[1] != 0));
                mc::step(mc::mix(mc::mix(N, op), mc::mix(want[0], want[1])));
            }
        }
        MC_CHECK(live == 0 && made == destroyed, "%d objects of %d bytes made and %d destroyed", made, N, destroyed);
        mc::outcome("objects");
    }
    template<int... N> void anyObjects(Sizes<N...>) {
        typedef void (*Run)();
        static const Run all[] = {&objects<N>...};
        all[mc::choose((int) sizeof...(N))]();
    }
    // many members
#define MEMBERS(F) F(0) F(1) F(2) F(3) F(4) F(5) F(6) F(7) F(8) F(9) F(10) F(11) F(12) F(13) F(14) F(15) F(16) F(17) F(18) F(19) \
    F(20) F(21) F(22) F(23) F(24) F(25) F(26) F(27) F(28) F(29) F(30) F(31) F(32) F(33) F(34) F(35) F(36) F(37) F(38) F(39)
    struct Crowd {
        virtual int f() = 0;
#define MEMBER(N) Tracked t##N;
        MEMBERS(MEMBER)
    };
    Tracked Crowd::*memberOf(int k) {
        switch (k) {
#define POINTER(N) case N: return &Crowd::t##N;
            MEMBERS(POINTER)
        }
        return nullptr;
    }
    void crowd() {
        heap::fill(0xFF);
        live = made = destroyed = 0;
        int n = 1 + mc::choose(40), order = mc::choose(3), end = mc::choose(3);
        {
            Mock<Crowd> m;
            bool stubbed[40] = {};
            for (int i = 0; i < n; i++) {
                int k = order == 0 ? i : order == 1 ? 39 - i : i * 7 % 40;
                m.Stub(memberOf(k), k + 1);
                stubbed[k] = true;
            }
            auto check = [&] {
                int count = 0;
                for (int k = 0; k < 40; k++) {
                    Tracked &t = L(m.get()).*memberOf(k);
                    MC_CHECK(t.v == (stubbed[k] ? k + 1 : 0) && t.self == (stubbed[k] ? &t : nullptr), "member %d of %d is %d", k, n, t.v);
                    count += stubbed[k];
                }
                MC_CHECK(live == count, "%d of %d member objects live", live, count);
            };
            check();
            mc::step(mc::mix(n, order));
            if (end == 1) { m.Reset(); memset(stubbed, 0, sizeof stubbed); check(); }
            if (end == 2) { m.Reset(); memset(stubbed, 0, sizeof stubbed); m.Stub(memberOf(n - 1), n); stubbed[n - 1] = true; check(); }
        }
        MC_CHECK(live == 0 && made == destroyed, "%d member objects made and %d destroyed", made, destroyed);
        mc::outcome("objects");
    }
    // a real object: stubbing one member changes that member only
    struct Real { virtual int f() { return 1; } int a = 1; std::string s = "text"; int b = 2; unsigned char area[300]; Real() { memset(area, 3, 300); } };
    void realObject() {
        Real r;
        auto rest = [&](const char *when) {
            MC_CHECK(L(r).s == "text", "s changed %s", when);
            for (int i = 0; i < 300; i++) MC_CHECK(r.area[i] == 3, "area changed %s", when);
        };
        int wantA = 1, wantB = 2;
        {
            Mock<Real> m(r);
            rest("on creation");
            for (int i = 0; i < mc::bound(4, 5); i++) {
                int op = mc::choose(7);
                switch (op) {
                    case 0: m.Stub(&Real::a, wantA = 10 + i); break;
                    case 1: m.Stub(&Real::b, wantB = 20 + i); break;
                    case 2: r.a = wantA = 30 + i; break;
                    case 3: m.get().b = wantB = 40 + i; break;
                    case 4: Method(m, f) = 2; L(r).f(); break;
                    case 5: m.ClearInvocationHistory(); break;
                    default: m.Reset(); wantA = r.a; wantB = r.b; break;
                }
                MC_LOG("op %d: a %d b %d", op, r.a, r.b);
                rest("after an operation");
                MC_CHECK(L(r).a == wantA && m.get().a == wantA, "a is %d instead of %d", r.a, wantA);
                MC_CHECK(L(r).b == wantB && m.get().b == wantB, "b is %d instead of %d", r.b, wantB);
                mc::step(mc::mix(op, mc::mix(r.a, r.b)));
            }
        }
        rest("after the mock was destroyed");
        mc::outcome("real");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 3;
        o.mandatory = {"objects", "no objects"};
        o.bound = "all sequences of 5 (6) of 17 operations on one mock, memory filled with two patterns; all members compared and live objects counted after each";
        mc::add("one mock", o, [] { history(mc::bound(5, 6), 1, true); });
        o.bound = "all sequences of 4 (5) operations on two mocks";
        mc::add("two mocks", o, [] { history(mc::bound(4, 5), 2, true); });
        o.mandatory = {"sized"};
        o.bound = "data of 1 to 40, 63 to 65, 127 to 129, 255 to 260, 511 to 513, 1000, 1023 to 1025, 4096, 5000, 65536 and 100001 bytes";
        mc::add("sizes", o, [] {
            anySize(Sizes<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40,
                    63, 64, 65, 127, 128, 129, 255, 256, 257, 258, 259, 260, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 5000, 65536, 100001>());
        });
        o.mandatory = {"objects"};
        o.bound = "two members that are objects of 16 sizes up to 5000 bytes, all sequences of 3 (4) of 5 operations";
        mc::add("objects", o, [] { anyObjects(Sizes<1, 8, 16, 24, 40, 48, 56, 64, 100, 112, 128, 200, 256, 500, 1024, 5000>()); });
        o.bound = "1 to 40 of 40 members stubbed in 3 orders, 3 endings";
        mc::add("crowd", o, crowd);
        o.mandatory = {"real"};
        o.bound = "all sequences of 4 (5) of 7 operations on a mocked real object";
        mc::add("real object", o, [] { realObject(); });
    });
}
