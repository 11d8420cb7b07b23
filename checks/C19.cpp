// C19: mocks neither leak nor free early anything handed to them.
#include "heap.hpp"
#include "fk.hpp"
using namespace fakeit;
using fk::L;

namespace {
    enum { VALUE, ARG, CALLABLE, ERROR, CONDITION, NKIND };
    const char *kindName[] = {"results", "arguments", "callables", "exceptions", "conditions"};
    int live[NKIND];
    int base[NKIND];  // objects that exist once for all
    const char *wrong;
    void start();
    void bad(const char *s) { if (!wrong) wrong = s; }

    // an object that notices when it is used while it does not exist
    template<int K>
    struct Item {
        enum : unsigned { ALIVE = 0x11223344u, DEAD = 0x55667788u };
        unsigned magic = ALIVE;
        int v;
        std::string text;
        Item() : v(0), text(30, '0') { live[K]++; }
        explicit Item(int v_) : v(v_), text(30, char('0' + v_ % 10)) { live[K]++; }
        Item(const Item &o) : v(o.get()), text(o.text) { live[K]++; }
        template<int J> explicit Item(const Item<J> &o) : v(o.get()), text(o.text) { live[K]++; }
        Item(Item &&o) : v(o.get()), text(std::move(o.text)) { live[K]++; }
        Item &operator=(const Item &o) { get(); v = o.get(); text = o.text; return *this; }
        ~Item() {
            if (magic == DEAD) bad("an object was destroyed twice");
            else if (magic != ALIVE) bad("something that is no object was destroyed");
            magic = DEAD;
            live[K]--;
        }
        int get() const {
            if (magic != ALIVE) bad("an object was used after it was destroyed");
            return v;
        }
        bool operator==(const Item &o) const { return get() == o.get(); }
        bool operator!=(const Item &o) const { return get() != o.get(); }
        bool operator<(const Item &o) const { return get() < o.get(); }
        bool operator>(const Item &o) const { return get() > o.get(); }
        bool operator>=(const Item &o) const { return get() >= o.get(); }
        bool operator<=(const Item &o) const { return get() <= o.get(); }
    };
    template<int K> std::ostream &operator<<(std::ostream &o, const Item<K> &i) { return o << i.get(); }
    typedef Item<VALUE> Value;
    typedef Item<ARG> Arg;
    typedef Item<CALLABLE> Callable;
    typedef Item<ERROR> Error;
    typedef Item<CONDITION> Condition;
    bool operator==(const Arg &a, const Condition &c) { return a.get() == c.get(); }
    bool operator>(const Arg &a, const Condition &c) { return a.get() > c.get(); }
    bool operator!=(const Arg &a, const Condition &c) { return a.get() != c.get(); }

    struct X {
        virtual int f(Arg) = 0;
        virtual Value g(int) = 0;
        virtual void h(const Arg &) = 0;
        virtual Value &r() = 0;
        virtual int two(Arg, Arg) = 0;
        virtual ~X() {}
        int pad[3];
        Value data;
    };
    int realDtors;
    struct Y {
        Value kept{3};
        virtual int f(Arg a) { return a.get(); }
        virtual Value g(int x) { return Value(x); }
        virtual void h(const Arg &a) { a.get(); }
        virtual Value &r() { return kept; }
        virtual int two(Arg a, Arg b) { return a.get() + b.get(); }
        virtual ~Y() { realDtors++; }
        Value data;
    };
    struct Stop {};
    // callable whose copies can be made to fail
    struct Fragile {
        static int fuse;
        Callable c{1};
        Fragile() {}
        Fragile(const Fragile &o) : c(o.c) { if (fuse > 0 && --fuse == 0) throw Stop(); }
        int operator()(Arg &a) const { return c.get() + a.get(); }
        int operator()(const Arg &a) const { return c.get() + a.get(); }
    };
    int Fragile::fuse;

    // condition whose copies can be made to fail
    struct FragileCondition {
        static int fuse;
        Condition c;
        explicit FragileCondition(int v) : c(v) {}
        FragileCondition(const FragileCondition &o) : c(o.c) { if (fuse > 0 && --fuse == 0) throw Stop(); }
        explicit operator Arg() const { return Arg(c.v); }
    };
    int FragileCondition::fuse;
    bool operator==(const Arg &a, const FragileCondition &c) { return a.get() == c.c.get(); }
    bool operator>(const Arg &a, const FragileCondition &c) { return a.get() > c.c.get(); }
    std::ostream &operator<<(std::ostream &o, const FragileCondition &i) { return o << i.c.get(); }

    enum {
        RETURN_LIST, ALWAYS_RETURN, DO_G, USING_F, MATCHING_F, THROW_F, ASSIGN_F, ABANDON, FAIL, CALL_F1, CALL_F2, CALL_G, CALL_H, VERIFY, VERIFY_FAILS, NO_OTHER, CLEAR, RESET, FAKE_ALL, DTOR, DELETE, DATA,
        TIMES, REFERENCE, CALL_R, NESTED, CLEARING, RECONDITION, SPY, TWO, FAIL_CONDITION, NOPS
    };
    const char *opName[] = {
        "When(g).Return(1, 2)", "When(g).AlwaysReturn(3)", "When(g).Do.AlwaysDo", "When(f.Using(1)).Return", "When(f.Matching).AlwaysDo", "When(f).Throw(1).AlwaysThrow(2)", "f = action", "abandoned statements", "failing statements", "f(1)", "f(2)", "g(1)", "h(arg)",
        "Verify(f.Using(1))", "failing Verify", "VerifyNoOtherInvocations", "ClearInvocationHistory", "Reset", "Fake(f, g, h)", "Dtor = action", "delete", "Stub(data)", "g returns 2_Times", "r returns a reference", "r()", "f calls g and f", "f clears the history",
        "Using twice", "Spy / h action", "two(1, 2)", "failing conditions"};

    template<class T>
    struct World {
        static constexpr bool pure = std::is_same<T, X>::value;
        fk::QuietAdapter q;
        Value shared{50};
        Arg outside{60};
        std::unique_ptr<Y> real;
        std::unique_ptr<Mock<T>> pm;
        bool gStub = false, rStub = false, dStub = false, dtor = false;
        World() { create(std::integral_constant<bool, pure>()); }
        void create(std::true_type) { pm.reset(new Mock<T>()); }
        void create(std::false_type) { real.reset(new Y()); pm.reset(new Mock<T>(*real)); }
        template<class F> void call(F &&f) {
            try { f(); }
            catch (UnexpectedMethodCallException &) {}
            catch (Error &e) { e.get(); }
        }
        void data(Mock<X> &m) { if (dStub) throw mc::Prune{}; m.Stub(&X::data, 7); dStub = true; }
        void data(Mock<Y> &) { throw mc::Prune{}; }
        void readData(X &x) { if (dStub) x.data.get(); }
        void readData(Y &x) { x.data.get(); x.kept.get(); }
        void del(X &x) { delete &x; }
        void del(Y &x) { if (!dtor) throw mc::Prune{}; delete &x; }
        void act(int op) {
            Mock<T> &m = *pm;
            T &o = L(m.get());
            int before[NKIND];
            memcpy(before, live, sizeof before);
            bool nothingKept = false;
            switch (op) {
                case RETURN_LIST: When(Method(m, g)).Return(Value(1), Value(2)); gStub = true; break;
                case ALWAYS_RETURN: { Value v(3); When(Method(m, g)).AlwaysReturn(v); gStub = true; break; }
                case DO_G: {
                    Callable a(1), b(2);
                    When(Method(m, g)).Do([a](int x) { return Value(a.get() + x); }).AlwaysDo([b](int x) { return Value(b.get() + x); });
                    gStub = true;
                    break;
                }
                case USING_F: When(Method(m, f).Using(Condition(1))).Return(1).Return(2); break;
                case MATCHING_F: {
                    Condition c(2);
                    Callable a(1);
                    When(Method(m, f).Matching([c](const Arg &x) { return x.get() == c.get(); })).AlwaysDo([a](const Arg &x) { return x.get() + a.get(); });
                    break;
                }
                case THROW_F: When(Method(m, f)).Throw(Error(1)).AlwaysThrow(Error(2)); break;
                case ASSIGN_F: { Callable a(1); Method(m, f) = [a](Arg &x) { return x.get() + a.get(); }; break; }
                case ABANDON: {
                    if (!pure) throw mc::Prune{};  // naming a method has an effect of its own there
                    Condition c(1);
                    { auto unused = Method(m, f).Using(Condition(3)); auto copy = unused; (void) copy; }
                    { auto unused = Method(m, f).Matching([c](const Arg &x) { return x.get() == c.get(); }); auto moved = std::move(unused); (void) moved; }
                    try { When(Method(m, f).Using(c)).Return((throw Stop(), 1)); } catch (Stop &) {}
                    try { When(Method(m, f).Using(c)).Return(1).Return(2).Return((throw Stop(), 1)); } catch (Stop &) {}
                    nothingKept = true;
                    break;
                }
                case FAIL: {
                    if (!pure) throw mc::Prune{};
                    Fragile fragile;
                    for (int k = 1; k < 20; k++) {
                        int conditions = live[CONDITION], callables = live[CALLABLE];
                        Fragile::fuse = k;
                        try { When(Method(m, f).Using(Condition(1))).Do(fragile).AlwaysDo(fragile); Fragile::fuse = 0; break; } catch (Stop &) {}
                        MC_CHECK(live[CONDITION] == conditions && live[CALLABLE] == callables, "a statement whose action failed to be copied (%d) kept something", k);
                    }
                    Fragile::fuse = 0;
                    break;
                }
                case FAIL_CONDITION: {
                    if (!pure) throw mc::Prune{};
                    FragileCondition c(1);
                    for (int k = 1; k < 20; k++) {
                        int conditions = live[CONDITION];
                        FragileCondition::fuse = k;
                        bool done = false;
                        try { When(Method(m, two).Using(Eq(c), Gt(c))).AlwaysReturn(1); done = true; } catch (Stop &) {}
                        if (done) { FragileCondition::fuse = 0; break; }
                        MC_CHECK(live[CONDITION] == conditions, "a stubbing statement whose condition failed to be copied (%d) kept %d conditions", k, live[CONDITION] - conditions);
                        FragileCondition::fuse = k;
                        try { Verify(Method(m, two).Using(c, Eq(c))); } catch (Stop &) {}
                        MC_CHECK(live[CONDITION] == conditions, "a verification whose condition failed to be copied (%d) kept %d conditions", k, live[CONDITION] - conditions);
                    }
                    FragileCondition::fuse = 0;
                    break;
                }
                case CALL_F1: call([&] { o.f(Arg(1)); }); break;
                case CALL_F2: call([&] { Arg a(2); o.f(a); }); break;
                case CALL_G: if (pure && !gStub) throw mc::Prune{}; call([&] { o.g(1).get(); }); break;
                case CALL_H: call([&] { o.h(outside); }); break;
                case VERIFY:
                    if (!pure) throw mc::Prune{};
                    (void) (bool) Verify(Method(m, f).Using(Condition(1)));
                    (void) (bool) Verify(Method(m, f).Using(Gt(Condition(1))) + Method(m, f).Using(Ne(Condition(3))) * 2).AtLeast(1);
                    nothingKept = true;
                    break;
                case VERIFY_FAILS: {
                    if (!pure) throw mc::Prune{};
                    Condition c(9);
                    Verify(Method(m, f).Using(Condition(9)), Method(m, f).Matching([c](Arg &a) { return a.get() == c.get(); }));
                    nothingKept = true;
                    break;
                }
                case NO_OTHER: VerifyNoOtherInvocations(m); VerifyNoOtherInvocations(m, m); nothingKept = true; break;
                case CLEAR: m.ClearInvocationHistory(); MC_CHECK(live[ARG] - base[ARG] == 1, "%d recorded arguments survived ClearInvocationHistory", live[ARG] - base[ARG] - 1); break;
                case RESET:
                    m.Reset();
                    gStub = rStub = dStub = dtor = false;
                    MC_CHECK(live[ARG] - base[ARG] == 1, "%d recorded arguments survived Reset", live[ARG] - base[ARG] - 1);
                    break;
                case FAKE_ALL: Fake(Method(m, f), Method(m, g), Method(m, h), Method(m, two)); gStub = true; break;
                case DTOR: { Callable a(1); Dtor(m) = [a] { a.get(); }; dtor = true; break; }
                case DELETE: del(o); break;
                case DATA: data(m); break;
                case TIMES: When(Method(m, g)).Return(2_Times(Value(6)), 1_Times(Value(7))).Throw(2_Times(Error(8))); gStub = true; break;
                case REFERENCE: When(Method(m, r)).AlwaysReturn(shared); rStub = true; break;
                case CALL_R: call([&] { Value &v = o.r(); v.get(); }); break;
                case NESTED: {
                    Callable a(1);
                    if (!gStub) throw mc::Prune{};
                    T *p = &o;
                    When(Method(m, f)).Do([a, p](const Arg &x) { int r = p->g(x.get()).get(); p->f(Arg(5)); return r + a.get() + x.get(); }).AlwaysDo([a](const Arg &x) { return a.get() + x.get(); });
                    break;
                }
                case CLEARING: {
                    Callable a(1);
                    Mock<T> *p = &m;
                    When(Method(m, f)).AlwaysDo([a, p](const Arg &x) { p->ClearInvocationHistory(); return x.get() + a.get(); });
                    break;
                }
                case RECONDITION: When(Method(m, f).Using(Condition(1)).Using(Condition(2)).Matching([](const Arg &) { return true; }).Using(Gt(Condition(0)))).Return(5); break;
                case SPY: spy(m, std::integral_constant<bool, pure>()); break;
                case TWO: two(m, std::integral_constant<bool, pure>()); break;
            }
            readData(m.get());
            q.events.clear();
            if (nothingKept) for (int k = 0; k < NKIND; k++) MC_CHECK(live[k] == before[k], "'%s' kept %d of the %s", opName[op], live[k] - before[k], kindName[k]);
            MC_CHECK(!wrong, "%s", wrong);
            MC_CHECK(shared.magic == Value::ALIVE && outside.magic == Arg::ALIVE, "an object of the user was destroyed");
        }
        void spy(Mock<T> &m, std::false_type) { Spy(Method(m, f)); SpyWithoutVerify(Method(m, g)); Spy(Method(m, two)); gStub = true; }
        void spy(Mock<T> &m, std::true_type) { Callable a(1); When(Method(m, h)).AlwaysDo([a](const Arg &x) { x.get(); a.get(); }); }
        void two(Mock<T> &m, std::true_type) {
            When(Method(m, two).Using(Condition(1), Gt(Condition(1)))).Return(1);
            call([&] { L(m.get()).two(Arg(1), Arg(2)); });
            (void) (bool) Verify(Method(m, two).Using(Condition(1), _));
        }
        void two(Mock<T> &m, std::false_type) { call([&] { L(m.get()).two(Arg(1), Arg(2)); }); }
        void end() {
            pm.reset();
            MC_CHECK(!wrong, "%s", wrong);
            MC_CHECK(realDtors == 0, "the mocked object was destroyed with its mock");
            int mine[NKIND] = {1 + (real ? 2 : 0), 1, 0, 0, 0};
            for (int k = 0; k < NKIND; k++) MC_CHECK(live[k] - base[k] == mine[k], "%d of the %s are left after the mock was destroyed", live[k] - base[k] - mine[k], kindName[k]);
            real.reset();
        }
    };
    // the default result of a faked method is made once
    void start() {
        static bool warm = false;
        if (!warm) {
            warm = true;
            Mock<X> m;
            Fake(Method(m, g), Method(m, r));
            L(m.get()).g(1).get();
            Y y;
            Mock<Y> n(y);
            Fake(Method(n, g));
            L(n.get()).g(1).get();
        }
        wrong = nullptr;
        memcpy(base, live, sizeof base);
    }
    template<class T>
    void run(const std::vector<int> &ops) {
        start();
        realDtors = 0;
        World<T> w;
        for (int o : ops) w.act(o);
        w.end();
    }
    template<class T>
    void judge(const std::vector<int> &ops) {
        long before = heap::live();
        run<T>(ops);
        if (heap::live() != before) {  // something may be allocated once
            before = heap::live();
            run<T>(ops);
            MC_CHECK(heap::live() == before, "%ld blocks are left after the mock was destroyed", heap::live() - before);
        }
    }
    template<class T>
    void space(int depth) {
        std::vector<int> ops;
        for (int i = 0; i < depth; i++) { ops.push_back(mc::choose((int) NOPS)); MC_LOG("%s", opName[ops.back()]); }
        judge<T>(ops);
        uint64_t h = 1;
        for (int o : ops) {
            h = mc::mix(h, o);
            mc::step(h);
            if (o == RESET) mc::outcome("reset");
            if (o == CALL_F1) mc::outcome("called");
        }
    }
    // fewer operations, longer histories
    void spaceDeep(const std::vector<int> &sel, int depth) {
        std::vector<int> ops;
        for (int i = 0; i < depth; i++) { ops.push_back(sel[mc::choose((int) sel.size())]); MC_LOG("%s", opName[ops.back()]); }
        judge<X>(ops);
        uint64_t h = 1;
        for (int o : ops) { h = mc::mix(h, o); mc::step(h); }
        mc::outcome("called");
    }
    // mocks that end in any order, while others go on
    void spaceSeveral() {
        int order = mc::choose(6), stub = mc::choose(8), calls = mc::choose(4);
        static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
        start();
        auto once = [&] {
            fk::QuietAdapter q;
            std::unique_ptr<Mock<X>> m[3];
            for (int i = 0; i < 3; i++) {
                m[i].reset(new Mock<X>());
                Mock<X> &x = *m[i];
                Callable c(i + 1);
                if (stub & 1) When(Method(x, f)).AlwaysDo([c](const Arg &a) { return a.get() + c.get(); });
                if (stub & 2) When(Method(x, f).Using(Condition(1))).Return(1, 2, 3);
                if (stub & 4) x.Stub(&X::data, 5);
            }
            for (int k = 0; k < 3; k++) {
                for (int i = 0; i < 3; i++) if (m[i]) for (int n = 0; n < calls; n++) { try { L(m[i]->get()).f(Arg(n)); } catch (UnexpectedMethodCallException &) {} }
                int gone = orders[order][k];
                if (k == 1) {
                    Mock<X> &a = *m[orders[order][1]], &b = *m[orders[order][2]];
                    Using(a, b).Verify(Method(a, f).Using(Condition(9)));
                    VerifyNoOtherInvocations(a, b);
                }
                m[gone].reset();
                for (int i = 0; i < 3; i++) if (m[i] && (stub & 4)) MC_CHECK(m[i]->get().data.get() == 5, "data of another mock");
            }
        };
        long before = heap::live();
        once();
        if (heap::live() != before) { before = heap::live(); once(); }
        MC_CHECK(heap::live() == before, "%ld blocks left", heap::live() - before);
        MC_CHECK(!wrong, "%s", wrong);
        for (int k = 0; k < NKIND; k++) MC_CHECK(live[k] == base[k], "%d of the %s are left", live[k] - base[k], kindName[k]);
        mc::step(order * 100 + stub * 10 + calls);
        mc::outcome("checked");
    }
    // many of everything: calls, stubs, actions, conditions and verifications
    void spaceMany() {
        static const int ns[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 513, 1025};
        int n = ns[mc::choose(mc::bound(30, 30))], what = mc::choose(8), end = mc::choose(4);
        wrong = nullptr;
        start();
        auto once = [&] {
            fk::QuietAdapter q;
            Mock<X> m;
            X &x = L(m.get());
            int argsBefore = live[ARG];
            auto calls = [&](int k) { for (int i = 0; i < k; i++) try { x.f(Arg(i)); x.two(Arg(i), Arg(i + 1)); } catch (UnexpectedMethodCallException &) {} catch (Error &e) { e.get(); } };
            auto fill = [&] {
                switch (what) {
                    case 0: Fake(Method(m, f), Method(m, two)); calls(n); break;
                    case 1: for (int i = 0; i < n; i++) When(Method(m, f).Using(Condition(i))).AlwaysDo(Fragile()); calls(n < 40 ? n : 40); break;
                    case 2: { auto chain = [&](MethodStubbingProgress<Value, int> &&p) { for (int i = 0; i < n; i++) p.Return(Value(i)); }; chain(When(Method(m, g))); for (int i = 0; i < n; i++) MC_CHECK(x.g(1).get() == i, "value %d", i); break; }
                    case 3: { auto chain = [&](MethodStubbingProgress<int, Arg> &&p) { for (int i = 0; i < n; i++) p.Throw(Error(i)); }; chain(When(Method(m, f))); for (int i = 0; i < n; i++) try { x.f(Arg(i)); } catch (Error &e) { MC_CHECK(e.get() == i, "exception %d", i); } break; }
                    case 4: { Value v(4); QuantifierFunctor k(n); When(Method(m, g)).Return(k(v)); for (int i = 0; i < n; i++) MC_CHECK(x.g(i).get() == 4, "value"); break; }
                    case 5: { Error v(4); QuantifierFunctor k(n); When(Method(m, f)).Throw(k(v)); for (int i = 0; i < n; i++) try { x.f(Arg(i)); } catch (Error &e) { e.get(); } break; }
                    case 6: Fake(Method(m, f), Method(m, two)); calls(7); for (int i = 0; i < n; i++) { bool b = Verify(Method(m, f).Using(Condition(i))); MC_CHECK(b == (i < 7), "verification %d", i); } break;
                    case 7: Fake(Method(m, f)); x.f(Arg(1)); for (int i = 0; i < n; i++) { Method(m, f); Method(m, f).Using(Condition(i)); try { Verify(Method(m, f).Using(Condition(i))).Exactly(2); } catch (std::exception &) {} } break;
                }
            };
            fill();
            for (int round = 0; round < 2; round++) {
                if (end == 0) break;
                if (end == 1) m.ClearInvocationHistory();
                if (end == 2) m.Reset();
                if (end == 3) { m.ClearInvocationHistory(); m.Reset(); }
                MC_CHECK(live[ARG] == argsBefore, "%d arguments are kept after %s of a history of %d calls (%d)", live[ARG] - argsBefore, end == 1 ? "clearing" : "a reset", n, what);
                mc::step(mc::mix(mc::mix(n, what), end * 4 + round));
                if (!round && end > 1) fill();
                else if (!round && what < 2) calls(n < 40 ? n : 40);
            }
        };
        long before = heap::live();
        once();
        if (heap::live() != before) { before = heap::live(); once(); }
        MC_CHECK(heap::live() == before, "%ld blocks left", heap::live() - before);
        MC_CHECK(!wrong, "%s", wrong);
        for (int k = 0; k < NKIND; k++) MC_CHECK(live[k] == base[k], "%d of the %s are left", live[k] - base[k], kindName[k]);
        mc::step(mc::mix(n, what));
        mc::outcome("checked");
    }
    // other parameter and result kinds
    struct MO {
        std::unique_ptr<Value> p;
        explicit MO(int v) : p(new Value(v)) {}
        MO(MO &&) = default;
        MO &operator=(MO &&) = default;
    };
    struct Z {
        virtual MO mo(int) = 0;
        virtual void take(MO) = 0;
        virtual void rv(Value &&) = 0;
        virtual void out(Value &, Value *, int) = 0;
        virtual int outInt(Value &, int) = 0;
        virtual std::shared_ptr<Value> sp(std::shared_ptr<Value>) = 0;
        virtual const Value cv() = 0;
        virtual std::vector<Value> list(std::vector<Value>) = 0;
        virtual ~Z() {}
    };
    void kinds(int op, Mock<Z> &m) {
        Z &z = L(m.get());
        static Value target(1), target2(2);
        switch (op) {
            case 0: When(Method(m, mo)).Return(MO(5)); z.mo(1).p->get(); break;
            case 1: When(Method(m, mo)).AlwaysDo([](int x) { return MO(x); }); z.mo(1).p->get(); z.mo(2).p->get(); break;
            case 2: When(Method(m, take)).AlwaysDo([](MO &x) { x.p->get(); }); z.take(MO(1)); z.take(MO(2)); break;
            case 3: When(Method(m, take)).Do([](MO &x) { MO y(std::move(x)); y.p->get(); }); z.take(MO(1)); break;
            case 4: Fake(Method(m, rv)); z.rv(Value(3)); z.rv(std::move(target)); break;
            case 5: When(Method(m, out)).AlwaysReturnAndSet(Value(7), Value(8)); z.out(target, &target2, 1); z.out(target, &target2, 1); MC_CHECK(target.get() == 7 && target2.get() == 8, "set values"); break;
            case 6: { Value v(9); When(Method(m, outInt)).ReturnAndSet(1, Value(10)).ReturnAndSet(2, v); z.outInt(target, 1); z.outInt(target2, 1); MC_CHECK(target.get() == 10 && target2.get() == 9, "set values"); break; }
            case 7: { auto p = std::make_shared<Value>(4); When(Method(m, sp)).Return(p).AlwaysReturn(nullptr); z.sp(p)->get(); z.sp(nullptr); break; }
            case 8: When(Method(m, cv)).AlwaysReturn(Value(3)); z.cv().get(); z.cv().get(); break;
            case 9: When(Method(m, list)).AlwaysDo([](std::vector<Value> &v) { return std::vector<Value>(v.rbegin(), v.rend()); }); z.list({Value(1), Value(2)}); break;
            case 10: m.ClearInvocationHistory(); break;
            case 11: m.Reset(); break;
        }
    }
    void spaceKinds() {
        int depth = mc::bound(3, 4);
        std::vector<int> ops;
        for (int i = 0; i < depth; i++) ops.push_back(mc::choose(12));
        wrong = nullptr;
        auto once = [&] {
            fk::QuietAdapter q;
            Mock<Z> m;
            for (int o : ops) kinds(o, m);
        };
        once();  // makes the static objects
        long before = heap::live();
        int n = live[VALUE];
        once();
        MC_CHECK(heap::live() == before, "%ld blocks left", heap::live() - before);
        MC_CHECK(live[VALUE] == n, "%d values left", live[VALUE] - n);
        MC_CHECK(!wrong, "%s", wrong);
        uint64_t h = 1;
        for (int o : ops) { h = mc::mix(h, o); mc::step(h); }
        mc::outcome("checked");
    }
    // a stored Method(...) used in two stubbing statements
    struct Fixed { virtual int f(int) = 0; virtual ~Fixed() {} };
    void probeTwice() {
        Mock<Fixed> m;
        auto method = Method(m, f);
        When(method).Return(1);
        When(method).Return(2);
        MC_CHECK(L(m.get()).f(1) == 1, "f");
    }
    void probeUsingAfter() {
        Mock<Fixed> m;
        auto method = Method(m, f).Using(1);
        When(method).AlwaysReturn(1);
        method.Using(2);
        MC_CHECK(L(m.get()).f(1) == 1, "the condition of a finished statement was freed");
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 2;
        o.mandatory = {"reset", "called"};
#ifdef __SANITIZE_ADDRESS__
        int dq = 3, dt = 4;
        o.bound = "all sequences of 3 (4) of 31 operations, under address sanitizer";
#else
        int dq = 4, dt = 5;
        o.bound = "all sequences of 4 (5) of 31 operations: every way to hand something over, calls, verifications, clear, reset, abandoned and failing statements; live objects and blocks counted";
#endif
        mc::add("pure", o, [dq, dt] { space<X>(mc::bound(dq, dt)); });
        mc::add("object", o, [dq, dt] { space<Y>(mc::bound(dq, dt)); });
        o.mandatory = {"called"};
        o.bound = "all longer sequences of fewer operations";
#ifndef __SANITIZE_ADDRESS__
        mc::add("stubs and calls", o, [] { spaceDeep({USING_F, MATCHING_F, THROW_F, CALL_F1, CALL_F2, CLEAR, RESET, VERIFY}, mc::bound(6, 7)); });
        mc::add("results", o, [] { spaceDeep({RETURN_LIST, TIMES, DO_G, CALL_G, CLEAR, RESET, NESTED, CALL_F1}, mc::bound(6, 7)); });
        mc::add("data and destructor", o, [] { spaceDeep({DATA, DTOR, DELETE, RESET, CLEAR, CALL_F1, FAKE_ALL}, mc::bound(6, 7)); });
#else
        mc::add("stubs and calls", o, [] { spaceDeep({USING_F, MATCHING_F, THROW_F, CALL_F1, CALL_F2, CLEAR, RESET, VERIFY}, mc::bound(4, 5)); });
        mc::add("data and destructor", o, [] { spaceDeep({DATA, DTOR, DELETE, RESET, CLEAR, CALL_F1, FAKE_ALL}, mc::bound(4, 5)); });
#endif
        o.mandatory = {"checked"};
        o.bound = "three mocks ending in every order, 8 sets of stubs, up to 3 calls";
        mc::add("several", o, spaceSeveral);
        o.bound = "30 numbers up to 1025 of calls, stubs, results, exceptions, uses, verifications or unused statements x cleared, reset, both or neither, twice";
        mc::add("many", o, spaceMany);
        o.bound = "all sequences of 3 (4) of 12 operations with move-only, rvalue, output, pointer and container parameters and results";
        mc::add("kinds", o, spaceKinds);
#ifndef __SANITIZE_ADDRESS__
        mc::probe("stored-method-twice", "auto s = Method(m, f); When(s).Return(1); When(s).Return(2); m.get().f(1)", probeTwice);
        mc::probe("condition-after-stubbing", "auto s = Method(m, f).Using(1); When(s).AlwaysReturn(1); s.Using(2); m.get().f(1)", probeUsingAfter);
#endif
    });
}
