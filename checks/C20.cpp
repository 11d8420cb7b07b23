// C20: an exception thrown by user code leaves the mock consistent.
// Every point at which user code runs may throw; what follows must be what follows the completed or the not-started operation.
// With -DLEAKS (part of the check of C19) only lifetimes are judged.
#include "heap.hpp"
#include "fk.hpp"
#include <map>
using namespace fakeit;
using fk::L;

namespace {
    struct Fault { int id; };
    // the same thrown as something else
    struct NoMemory : std::bad_alloc { int id; explicit NoMemory(int i) : id(i) {} };
    struct Wrong : std::logic_error { int id; explicit Wrong(int i) : std::logic_error("wrong"), id(i) {} };
    struct Late : std::runtime_error { int id; explicit Late(int i) : std::runtime_error("late"), id(i) {} };
    struct Own : FakeitException { int id; explicit Own(int i) : id(i) {} std::string what() const override { return "own"; } };
    int fuse, points;  // fuse: the point that throws; 0 none
    int faultKind;
    int live;
    void point() {
        points++;
        if (fuse && points == fuse) switch (faultKind) {
            case 0: throw Fault{points};
            case 1: throw NoMemory(points);
            case 2: throw Wrong(points);
            case 3: throw Late(points);
            case 4: throw points;
            case 5: throw points % 2 == 0;
            case 6: throw Own(points);
            default: throw std::string(std::to_string(points));
        }
    }
    // an object whose copies may throw
    template<int K>
    struct Fragile {
        int v;
        explicit Fragile(int v_ = 0) : v(v_) { live++; }
        Fragile(const Fragile &o) : v(o.v) { point(); live++; }
        Fragile(Fragile &&o) noexcept : v(o.v) { live++; }
        Fragile &operator=(const Fragile &o) { point(); v = o.v; return *this; }
        ~Fragile() { live--; }
        bool operator==(const Fragile &o) const { point(); return v == o.v; }
    };
    template<int K> std::ostream &operator<<(std::ostream &o, const Fragile<K> &f) { return o << f.v; }
    typedef Fragile<0> Arg;
    typedef Fragile<1> Res;
    typedef Fragile<2> Call;
    typedef Fragile<3> Err;
    typedef Fragile<4> Cond;
    // conditions compare with arguments
    struct Is {
        Cond c;
        explicit Is(int v) : c(v) {}
        explicit operator Arg() const { return Arg(c.v); }
    };
    bool operator==(const Arg &a, const Is &i) { point(); return a.v == i.c.v; }
    bool operator>(const Arg &a, const Is &i) { point(); return a.v > i.c.v; }
    std::ostream &operator<<(std::ostream &o, const Is &f) { return o << f.c.v; }

    struct X {
        virtual Res f(Arg) = 0;
        virtual int g(int) = 0;
        virtual int two(Arg, Arg) = 0;
        virtual int un(int) = 0;
        virtual ~X() {}
    };
    struct Y : X {
        Res f(Arg a) override { point(); return Res(100 + a.v); }
        int g(int x) override { point(); return 200 + x; }
        int two(Arg, Arg) override { point(); return 300; }
        int un(int) override { point(); return 400; }
    };
    struct Listener : EventHandler {
        std::vector<std::string> *log;
        bool throwing;  // throws as the default adapters do
        void handle(const UnexpectedMethodCallEvent &e) override { point(); log->push_back(fk::toEvent(e).str()); }
        void handle(const SequenceVerificationEvent &e) override { point(); log->push_back(fk::toEvent(e).str()); }
        void handle(const NoMoreInvocationsVerificationEvent &e) override { point(); log->push_back(fk::toEvent(e).str()); }
    };
    struct Words : EventFormatter {
        std::string format(const UnexpectedMethodCallEvent &e) override { point(); return "U " + fk::toEvent(e).str(); }
        std::string format(const SequenceVerificationEvent &e) override { point(); return "S " + fk::toEvent(e).str(); }
        std::string format(const NoMoreInvocationsVerificationEvent &e) override { point(); return "N " + fk::toEvent(e).str(); }
    };

    enum { MATCH_DO, USING_RETURN, ALWAYS, CALL1, CALL2, VERIFY, VERIFY_SEQ, NO_OTHER, UNMOCKED, G_THROW, CALL_G, G_NESTED, TWO_STUB, CALL_TWO, CLEAR, SPY, NO_OTHER_IF, NOPS, CALL_G_OUTER = NOPS };
    const char *names[] = {"When(f.Matching).Do.AlwaysDo", "When(f.Using(1)).Return(1, 2)", "When(f).AlwaysReturn", "f(1)", "f(2)", "Verify(f.Using(1))", "Verify(f * 2, f.Matching)", "VerifyNoOther", "unmocked call", "When(g).Throw.Return", "g(1)", "g calls f", "When(two.Using)", "two(1, 2)", "clear", "Spy / assign", "VerifyNoOther(f.Matching)", "g(1) without the call of f inside"};
    const int stubbings[] = {MATCH_DO, USING_RETURN, ALWAYS, G_THROW, G_NESTED, TWO_STUB, SPY};
    bool skipInner;

    struct Action { Call c{5}; Res operator()(const Arg &a) const { point(); return Res(50 + a.v); } };
    struct Predicate { Call c{2}; int want; explicit Predicate(int w) : want(w) {} bool operator()(const Arg &a) const { point(); return a.v == want; } };

    template<class T>
    struct World {
        static constexpr bool pure = std::is_same<T, X>::value;
        std::vector<std::string> log;
        Listener first, adapter;
        Words words;
        bool custom;
        std::unique_ptr<Y> real;
        std::unique_ptr<Mock<X>> pm;
        explicit World(bool custom_) : custom(custom_) {
            fuse = points = 0;
            first.log = adapter.log = &log;
            Fakeit.addEventHandler(first);
            if (custom) Fakeit.setTestingFrameworkAdapter(adapter);
            else Fakeit.setCustomEventFormatter(words);
            if (pure) pm.reset(new Mock<X>());
            else { real.reset(new Y()); pm.reset(new Mock<X>(*real)); }
            Mock<X> &m = *pm;
            When(Method(m, f).Matching([](const Arg &a) { return a.v == 99; })).AlwaysReturn(Res(99));
            When(Method(m, two).Matching([](const Arg &a, const Arg &) { return a.v == 99; })).AlwaysReturn(99);
            When(Method(m, g).Using(99)).AlwaysReturn(99);
        }
        ~World() {
            fuse = 0;
            pm.reset();
            Fakeit.clearEventHandlers();
            Fakeit.resetTestingFrameworkAdapter();
            Fakeit.resetCustomEventFormatter();
        }
        // what the operation did; "fault <n>" when the fuse went off
        std::string act(int op, int fuse_) {
            fuse = fuse_;
            points = 0;
            log.clear();
            std::string r;
            try { r = body(op); }
            catch (Fault &f) { r = "fault " + std::to_string(f.id); }
            catch (NoMemory &f) { r = "fault " + std::to_string(f.id); }
            catch (Wrong &f) { r = "fault " + std::to_string(f.id); }
            catch (Late &f) { r = "fault " + std::to_string(f.id); }
            catch (int f) { r = "fault " + std::to_string(f); }
            catch (bool f) { r = "fault " + std::to_string(f == (fuse_ % 2 == 0) ? fuse_ : -1); }
            catch (Own &f) { r = "fault " + std::to_string(f.id); }
            catch (std::string &f) { r = "fault " + f; }
            catch (UnexpectedMethodCallException &e) { r = "unexpected " + e.what(); }
            catch (NoMoreInvocationsVerificationException &e) { r = "no more " + std::string(e.what()); }
            catch (SequenceVerificationException &e) { r = "sequence " + std::string(e.what()); }
            catch (Err &e) { r = "error " + std::to_string(e.v); }
            fuse = 0;
            skipInner = false;
            for (auto &l : log) r += " | " + l;
            return r;
        }
        std::string body(int op) {
            Mock<X> &m = *pm;
            X &o = L(m.get());
            switch (op) {
                case MATCH_DO: When(Method(m, f).Matching(Predicate(1))).Do(Action()).AlwaysDo(Action()); return "";
                case USING_RETURN: When(Method(m, f).Using(Is(1))).Return(Res(1), Res(2)); return "";
                case ALWAYS: When(Method(m, f)).AlwaysReturn(Res(3)); return "";
                case CALL1: return "f = " + std::to_string(o.f(Arg(1)).v);
                case CALL2: { Arg a(2); return "f = " + std::to_string(o.f(a).v); }
                case VERIFY: return Verify(Method(m, f).Using(Is(1))) ? "yes" : "no";
                case VERIFY_SEQ: Verify(Method(m, f) * 2, Method(m, f).Matching(Predicate(2))).AtLeast(1); return "passed";
                case NO_OTHER: VerifyNoOtherInvocations(m); return "passed";
                case NO_OTHER_IF: return VerifyNoOtherInvocations(Method(m, f).Matching(Predicate(2))) ? "yes" : "no";
                case UNMOCKED: return "un = " + std::to_string(o.un(1));
                case G_THROW: When(Method(m, g)).Throw(Err(1)).Do([c = Call(1)](int x) { point(); return x; }).Return(7); return "";
                case CALL_G: return "g = " + std::to_string(o.g(1));
                case G_NESTED: { X *p = &o; Call c(1); When(Method(m, g)).Do([p, c](int) { int r = skipInner ? 0 : p->f(Arg(1)).v; point(); return r; }).Return(8, 9); return ""; }
                case TWO_STUB: When(Method(m, two).Using(Is(1), Gt(Is(1)))).Return(1, 2).Return(3); return "";
                case CALL_TWO: return "two = " + std::to_string(o.two(Arg(1), Arg(2)));
                case CLEAR: m.ClearInvocationHistory(); return "";
                case CALL_G_OUTER: { skipInner = true; int r = o.g(1); skipInner = false; return "g = " + std::to_string(r); }
                default: spy(m); return "";
            }
        }
        void spy(Mock<X> &m) {
            if (pure) { Method(m, f) = Action(); return; }
            Spy(Method(m, f));
            Spy(Method(m, g));
            Spy(Method(m, two));
        }
        void finish(std::vector<std::string> &obs) {
            for (int op : {CALL1, CALL1, CALL2, CALL_TWO, CALL_G, CALL_G, CALL1, NO_OTHER, VERIFY_SEQ, VERIFY, NO_OTHER}) obs.push_back(std::string(names[op]) + ": " + act(op, 0));
        }
    };
    // what every operation and everything afterwards shows when nothing throws
    template<class T>
    const std::vector<std::string> &reference(const std::vector<int> &ops, bool custom) {
        static std::map<std::vector<int>, std::vector<std::string>> known[2];
        auto &k = known[custom];
        auto it = k.find(ops);
        if (it == k.end()) {
            World<T> w(custom);
            std::vector<std::string> obs;
            for (int op : ops) obs.push_back(std::string(names[op]) + ": " + w.act(op, 0));
            w.finish(obs);
            it = k.insert({ops, obs}).first;
        }
        return it->second;
    }
    template<class T>
    void space(int depth, int maxPoint, int maxFaults, bool lastOnly = false, int kinds = 1) {
        bool custom = mc::flag();
        faultKind = mc::choose(kinds);
        std::vector<int> ops, at;
        int faults = 0;
        std::vector<std::string> obs;
        uint64_t h = custom;
#ifdef LEAKS
        for (int i = 0; i < depth; i++) { ops.push_back(mc::choose((int) NOPS)); at.push_back(mc::choose(maxPoint + 1)); if (at.back() && ++faults > maxFaults) throw mc::Prune{}; }
        auto once = [&] {
            World<T> w(custom);
            for (int i = 0; i < depth; i++) w.act(ops[i], at[i]);
            std::vector<std::string> rest;
            w.finish(rest);
        };
        long before = heap::live();
        int objects = live;
        once();
        if (heap::live() != before) {
            before = heap::live();
            objects = live;
            once();
            if (heap::live() != before || live != objects) for (int i = 0; i < depth; i++) MC_LOG("%s, point %d", names[ops[i]], at[i]);
            MC_CHECK(live == objects, "%d objects are left after exceptions", live - objects);
            MC_CHECK(heap::live() == before, "%ld blocks are left after exceptions", heap::live() - before);
        }
        for (int i = 0; i < depth; i++) { h = mc::mix(mc::mix(h, ops[i]), at[i]); mc::step(h); }
        mc::outcome(faults ? "fault" : "no fault");
#else
        {
            World<T> w(custom);
            for (int i = 0; i < depth; i++) {
                int op;
                if (lastOnly && !i) op = stubbings[mc::choose(7)];
                else op = mc::choose((int) NOPS);
                int k = lastOnly && i + 1 < depth ? 0 : mc::choose(maxPoint + 1);
                if (k && ++faults > maxFaults) throw mc::Prune{};
                MC_LOG("%s%s", names[op], k ? mc::fmt(" throws at point %d", k).c_str() : "");
                std::string o = w.act(op, k);
                if (k && points < k) throw mc::Prune{};  // there is no such point
                h = mc::mix(mc::mix(h, op), k);
                mc::step(h);
                ops.push_back(op);
                at.push_back(k);
                obs.push_back(std::string(names[op]) + ": " + o);
                if (k) {
                    std::string want = "fault " + std::to_string(k);
                    MC_CHECK(o.compare(0, want.size(), want) == 0, "the exception thrown at point %d became '%s'", k, o.c_str());
                }
            }
            w.finish(obs);
        }
        // any combination of completed and not-started failed operations; of a call made in an action also only the outer one
        std::vector<int> failed;
        int combinations = 1;
        for (int i = 0; i < depth; i++) if (at[i]) { failed.push_back(i); combinations *= 3; }
        std::string firstDiff;
        for (int c = 0; c < combinations; c++) {
            std::vector<int> done;
            std::vector<int> where;
            bool ok = true;
            int rest = c;
            for (int i = 0; i < depth; i++) {
                int how = 1;
                if (at[i]) { how = rest % 3; rest /= 3; }
                if (how == 2 && ops[i] != CALL_G) ok = false;
                if (how) done.push_back(how == 2 ? (int) CALL_G_OUTER : ops[i]);
                where.push_back(how ? (int) done.size() - 1 : -1);
            }
            if (!ok) continue;
            const std::vector<std::string> &ref = reference<T>(done, custom);
            bool same = true;
            for (size_t i = 0; i < obs.size() && same; i++) {
                if ((int) i < depth && at[i]) continue;
                const std::string &want = (int) i < depth ? ref[where[i]] : ref[done.size() + i - depth];
                if (obs[i] != want) { same = false; firstDiff = "'" + obs[i] + "' instead of '" + want + "'"; }
            }
            if (same) {
                mc::outcome(failed.empty() ? "no fault" : c ? "as completed" : "as not started");
                return;
            }
        }
        mc::fail("after the exception neither as if the operation was completed nor as if it was not started, for example " + firstDiff);
#endif
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 4;
#ifdef LEAKS
        o.mandatory = {"fault", "no fault"};
        o.bound = "all sequences of 2 (3) of 17 operations, each of them possibly with an exception at any of its first 12 points in user code; live objects and blocks counted";
        mc::add("faults", o, [] { space<X>(mc::bound(2, 3), 12, 3); });
        mc::add("faults on an object", o, [] { space<Y>(mc::bound(2, 3), 12, 3); });
#else
        o.mandatory = {"no fault", "as completed", "as not started"};
        o.bound = "all sequences of 3 of 17 operations with up to 2 (3) exceptions, each at any of the first 14 points in user code, then everything used; compared with every combination of completed and not-started operations";
        mc::add("pure", o, [] { space<X>(3, 14, mc::bound(2, 3)); });
        mc::add("object", o, [] { space<Y>(3, 14, mc::bound(2, 3)); });
        o.bound = "all sequences of 2 operations with one or two exceptions of 8 types";
        mc::add("types", o, [] { space<X>(2, 14, 2, false, 8); });
        mc::add("types, object", o, [] { space<Y>(2, 14, 2, false, 8); });
        o.bound = "all sequences of 3 operations, the first a stubbing statement, with an exception of 8 types in the last";
        mc::add("types, longer", o, [] { space<X>(3, 14, 1, true, 8); });
        o.bound = "all sequences of 4 operations, the first a stubbing statement, with one exception: in the last operation (in any of them, any first operation)";
        mc::add("pure, longer", o, [] { space<X>(4, mc::bound(10, 14), 1, mc::bound(1, 0)); });
#endif
    });
}
