// C04: the invocation history is complete and in call order across methods and mocks.
#include "fk.hpp"
#include "arena.hpp"
using namespace fakeit;
using fk::L;

namespace {
    struct I {
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual void s(std::string) = 0;
        virtual ~I() {}
    };
    struct Obj : I {
        I *other = nullptr;
        int f(int a) override {
            if (a == 2) throw 7;
            if (a == 3 && other) return other->g(30);
            return a;
        }
        int g(int a) override { return a; }
        void s(std::string) override {}
    };
    struct H { int mock; std::string text; };
    typedef std::vector<std::string> Texts;

    Texts only(const std::vector<H> &h, unsigned mask) {
        Texts r;
        for (auto &x : h) if (mask >> x.mock & 1) r.push_back(x.text);
        return r;
    }
    std::string join(const Texts &t) {
        std::string r;
        for (auto &x : t) r += x + " ";
        return r;
    }
    void same(const char *form, const Texts &got, const Texts &want) {
        MC_CHECK(got == want, "%s shows [%s], the calls made were [%s]", form, join(got).c_str(), join(want).c_str());
    }
    // Mocks are always spelled a, b, c so that names agree with the model.
    const char *NAMES[] = {"a", "b", "c"};

    void stubFG(Mock<I> &m, int which, Mock<I> &next, int k) {
        // one statement per method; the macro gives the method its name
        I *other = &next.get();
        auto body = [other](int x) -> int { if (x == 2) throw 7; if (x == 3) return other->g(30); return x; };
        if (k == 0) { Mock<I> &a = m; if (which == 0) { When(Method(a, f).Matching([](int x) { return x < 4; })).AlwaysDo(body); When(Method(a, f)(4)).Return(1); } else if (which == 1) When(Method(a, g)).AlwaysReturn(1); else Fake(Method(a, s)); }
        if (k == 1) { Mock<I> &b = m; if (which == 0) { When(Method(b, f).Matching([](int x) { return x < 4; })).AlwaysDo(body); When(Method(b, f)(4)).Return(1); } else if (which == 1) When(Method(b, g)).AlwaysReturn(1); else Fake(Method(b, s)); }
        if (k == 2) { Mock<I> &c = m; if (which == 0) { When(Method(c, f).Matching([](int x) { return x < 4; })).AlwaysDo(body); When(Method(c, f)(4)).Return(1); } else if (which == 1) When(Method(c, g)).AlwaysReturn(1); else Fake(Method(c, s)); }
    }
    // ops: 0 f(1) 1 f(2) throws 2 f(3) nested 3 f(4) limited 4 f(5) rejected 5 g(1) 6 s("x")
    struct World {
        std::unique_ptr<Mock<I>> m[3];
        std::vector<H> hist;
        bool used4[3] = {false, false, false};
        int n;
        World(int count, int order, int stubOrder) : n(count) {
            static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
            for (int i = 0; i < 3; i++) if (perm[order][i] < n) m[perm[order][i]].reset(new Mock<I>());
            for (int j = 0; j < 3; j++)
                for (int i = 0; i < n; i++) {
                    int which = perm[stubOrder][j];
                    stubFG(*m[i], which, *m[(i + 1) % n], i);
                }
        }
        void rec(int k, const std::string &t) { hist.push_back({k, std::string(NAMES[k]) + "." + t}); }
        void op(int k, int w) {
            fk::there([&] { call(k, w); });
            mc::step(hash());
        }
        void call(int k, int w) {
            I &o = L(m[k]->get());
            int thrown = 0;
            MC_LOG("call on %s: op %d", NAMES[k], w);
            switch (w) {
                case 0: rec(k, "f(1)"); o.f(1); break;
                case 1: rec(k, "f(2)"); try { o.f(2); } catch (int) { thrown = 1; } MC_CHECK(thrown, "no throw"); mc::outcome("threw"); break;
                case 2: rec(k, "f(3)"); rec((k + 1) % n, "g(30)"); o.f(3); mc::outcome("nested"); break;
                case 3: {
                    rec(k, "f(4)");
                    try { o.f(4); } catch (UnexpectedMethodCallException &) { thrown = 1; }
                    MC_CHECK(thrown == (int) used4[k], "f(4) on %s", NAMES[k]);
                    if (used4[k]) mc::outcome("used up");
                    used4[k] = true;
                    break;
                }
                case 4: try { o.f(5); } catch (UnexpectedMethodCallException &) { thrown = 1; } MC_CHECK(thrown, "f(5) accepted"); mc::outcome("rejected"); break;
                case 5: rec(k, "g(1)"); o.g(1); break;
                case 6: rec(k, "s(x" + std::to_string(hist.size()) + ")"); o.s("x" + std::to_string(hist.size() - 1)); break;
            }
        }
        uint64_t hash() {
            uint64_t h = n;
            for (auto &x : hist) h = mc::mix(h, mc::hashStr(x.text));
            return h;
        }
        Texts seenNoOther(fk::QuietAdapter &q) {
            if (q.events.empty()) return {};
            auto e = q.pop();
            MC_CHECK(q.events.empty() && e.kind == fk::Event::NoMore, "more than one event");
            MC_CHECK(e.all == e.unverified, "nothing was verified but %zu of %zu are listed as unverified", e.unverified.size(), e.all.size());
            return e.unverified;
        }
        Texts seenSeq(fk::QuietAdapter &q) {
            MC_CHECK(q.events.size() == 1, "no event");
            auto e = q.pop();
            return e.all;
        }
        void readAll(fk::QuietAdapter &q) {
            Mock<I> &a = *m[0];
            VerifyNoOtherInvocations(a);
            same("NoOther(a)", seenNoOther(q), only(hist, 1));
            VerifyNoOtherInvocations(Method(a, f));
            Texts fOnly;
            for (auto &x : hist) if (x.mock == 0 && x.text[2] == 'f') fOnly.push_back(x.text);
            same("NoOther(a.f)", seenNoOther(q), fOnly);
            Verify(Method(a, f)).Exactly(5000);
            same("Verify(a.f)", seenSeq(q), only(hist, 1));
            Verify(Method(a, g)).Exactly(5000);
            same("Verify(a.g)", seenSeq(q), only(hist, 1));
            Using(a).Verify(Method(a, g)).Exactly(5000);
            same("Using(a)", seenSeq(q), only(hist, 1));
            Using(Unverified(a)).Verify(Method(a, g)).Exactly(5000);
            same("Using(Unverified(a))", seenSeq(q), only(hist, 1));
            if (n < 2) return;
            Mock<I> &b = *m[1];
            VerifyNoOtherInvocations(b);
            same("NoOther(b)", seenNoOther(q), only(hist, 2));
            VerifyNoOtherInvocations(a, b);
            same("NoOther(a,b)", seenNoOther(q), only(hist, 3));
            VerifyNoOtherInvocations(b, a);
            same("NoOther(b,a)", seenNoOther(q), only(hist, 3));
            VerifyNoOtherInvocations(b, b, a, b);
            same("NoOther(b,b,a,b)", seenNoOther(q), only(hist, 3));
            Verify(Method(a, f), Method(b, f)).Exactly(5000);
            same("Verify(a.f,b.f)", seenSeq(q), only(hist, 3));
            Verify(Method(b, g) + Method(a, f)).Exactly(5000);
            same("Verify(b.g+a.f)", seenSeq(q), only(hist, 3));
            Using(a, b).Verify(Method(a, f)).Exactly(5000);
            same("Using(a,b)", seenSeq(q), only(hist, 3));
            Using(b).Verify(Method(a, f)).Exactly(5000);
            same("Using(b)", seenSeq(q), only(hist, 2));
            Unverified.Verify(Method(a, f), Method(b, f) * 2).Exactly(5000);
            same("Unverified.Verify", seenSeq(q), only(hist, 3));
            if (n < 3) return;
            Mock<I> &c = *m[2];
            VerifyNoOtherInvocations(c, a, b);
            same("NoOther(c,a,b)", seenNoOther(q), only(hist, 7));
            VerifyNoOtherInvocations(b, c);
            same("NoOther(b,c)", seenNoOther(q), only(hist, 6));
            VerifyNoOtherInvocations(Method(c, g), Method(a, g), Method(b, s));
            Texts w;
            for (auto &x : hist) if ((x.mock != 1 && x.text[2] == 'g') || (x.mock == 1 && x.text[2] == 's')) w.push_back(x.text);
            same("NoOther(c.g,a.g,b.s)", seenNoOther(q), w);
            Using(c, b, a).Verify(Method(b, g)).Exactly(5000);
            same("Using(c,b,a)", seenSeq(q), only(hist, 7));
            Using(a, c).Verify(Method(b, g)).Exactly(5000);
            same("Using(a,c)", seenSeq(q), only(hist, 5));
            Verify(Method(c, f) + Method(b, f), Method(a, g)).Exactly(5000);
            same("Verify(c.f+b.f,a.g)", seenSeq(q), only(hist, 7));
        }
        // every two calls made one after the other are found adjacent
        void readAsPattern(fk::QuietAdapter &q) {
            if (hist.empty()) return;
            Mock<I> &a = *m[0], &b = *m[n > 1 ? 1 : 0], &c = *m[n > 2 ? 2 : 0];
            for (size_t i = 0; i + 1 < hist.size(); i++) {  // every adjacent pair
                const H &x = hist[i], &y = hist[i + 1];
                auto argOf = [](const H &h) { return atoi(h.text.c_str() + 4); };
                if (x.text[2] == 's' || y.text[2] == 's') continue;
                Mock<I> &mx = *m[x.mock], &my = *m[y.mock];
                int ax = argOf(x), ay = argOf(y);
                bool ok;
                if (x.text[2] == 'f') {
                    if (y.text[2] == 'f') ok = Using(a, b, c).Verify(Method(mx, f).Using(ax) + Method(my, f).Using(ay));
                    else ok = Using(a, b, c).Verify(Method(mx, f).Using(ax) + Method(my, g).Using(ay));
                } else {
                    if (y.text[2] == 'f') ok = Using(a, b, c).Verify(Method(mx, g).Using(ax) + Method(my, f).Using(ay));
                    else ok = Using(a, b, c).Verify(Method(mx, g).Using(ax) + Method(my, g).Using(ay));
                }
                MC_CHECK(ok, "%s directly followed by %s was not found", x.text.c_str(), y.text.c_str());
            }
            MC_CHECK(q.events.empty(), "unexpected event");
        }
    };

    void spaceOrder(int n, int D) {
        int mode = mc::choose(3);
        struct Off { ~Off() { arena::use(0); } } off;
        arena::use(mode);
        int creation = n == 3 ? mc::choose(6) : n == 2 ? mc::choose(2) * 2 : 0;
        int stubOrder = n == 3 ? (creation * 5 + 1) % 6 : mc::choose(6);
        World w(n, creation, stubOrder);
        for (int d = 0; d < D; d++) {
            int op = mc::choose(n * 7 + 1);
            if (op == 0) break;
            op--;
            w.op(op / 7, op % 7);
        }
        fk::QuietAdapter q;
        w.readAll(q);
        w.readAsPattern(q);
    }
    // longer histories over a smaller alphabet
    void spaceLong() {
        int mode = mc::choose(3);
        struct Off { ~Off() { arena::use(0); } } off;
        arena::use(mode);
        World w(2, 0, 0);
        int D = mc::bound(7, 8);
        static const int ops[5][2] = {{0, 0}, {1, 5}, {0, 2}, {1, 1}, {0, 4}};
        for (int d = 0; d < D; d++) {
            int op = mc::choose(5);
            w.op(ops[op][0], ops[op][1]);
        }
        fk::QuietAdapter q;
        w.readAll(q);
        w.readAsPattern(q);
    }
    // many calls
    void spaceScale() {
        static const int ns[] = {10, 17, 33, 50, 51, 64, 100, 127, 128, 129, 255, 256, 257, 300, 500, 1000};
        int n = ns[mc::choose(16)], mode = mc::choose(3), pattern = mc::choose(4);
        struct Off { ~Off() { arena::use(0); } } off;
        arena::use(mode);
        World w(3, 0, 0);
        for (int i = 0; i < n; i++) {
            if (pattern == 0) w.op(0, 5);
            if (pattern == 1) w.op(i % 3, i % 7);
            if (pattern == 2) w.op(i * 2 > n ? 0 : 2, 6);
            if (pattern == 3) w.op((i * i + i / 3) % 3, 2);
        }
        fk::QuietAdapter q;
        w.readAll(q);
    }
    // nothing is forgotten however many calls are kept
    void spaceKept() {
        static const int ns[] = {1023, 1025, 2048, 2049, 4095, 4096, 4097, 5000, 8193, 10001, 16385, 32767, 32769, 65535, 65536, 65537, 100001};
        int n = ns[mc::choose(mc::bound(15, 17))], kind = mc::choose(3);
        Mock<I> a, b;
        Fake(Method(a, g), Method(b, g));
        I &oa = L(a.get()), &ob = L(b.get());
        for (int i = 0; i < n; i++) {
            (kind == 2 && i % 3 == 0 ? ob : oa).g(kind == 0 ? 1 : i);
            if (i % 1000 == 999) mc::beat();
        }
        fk::QuietAdapter q;
        if (kind == 2) VerifyNoOtherInvocations(b, a);
        else VerifyNoOtherInvocations(a);
        MC_CHECK(q.events.size() == 1, "%d calls: nothing reported", n);
        auto e = q.pop();
        MC_CHECK((int) e.all.size() == n && (int) e.unverified.size() == n, "%d calls made, %zu kept, %zu not verified", n, e.all.size(), e.unverified.size());
        for (int i = 0; i < n; i++) {
            std::string want = std::string(kind == 2 && i % 3 == 0 ? "b" : "a") + ".g(" + std::to_string(kind == 0 ? 1 : i) + ")";
            if (e.unverified[i] != want) mc::fail(mc::fmt("%d calls, number %d: %s instead of %s", n, i, e.unverified[i].c_str(), want.c_str()));
        }
        mc::beat();
        mc::step(mc::mix(n, kind));
        mc::outcome("kept");
        int na = kind == 2 ? n - (n + 2) / 3 : n;
        Verify(Method(a, g)).Exactly(na);
        MC_CHECK(q.events.empty(), "%d calls made, %d counted", na, q.events[0].actual);
        if (kind != 2) { VerifyNoOtherInvocations(a); MC_CHECK(q.events.empty(), "calls are left after all were verified"); }
    }
    // many mocks, each with two methods
    template<size_t... i>
    void noOtherOf(std::vector<std::unique_ptr<Mock<I>>> &m, std::index_sequence<i...>) { VerifyNoOtherInvocations(*m[i]...); }
    void spaceMocks() {
        static const int ns[] = {4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 32, 33, 40};
        int n = ns[mc::choose(15)], order = mc::choose(4), mode = mc::choose(3), rounds = 1 + mc::choose(3);
        struct Off { ~Off() { arena::use(0); } } off;
        arena::use(mode);
        fk::QuietAdapter q;
        std::vector<std::unique_ptr<Mock<I>>> m;
        for (int i = 0; i < n; i++) {
            m.emplace_back(new Mock<I>());
            Mock<I> &mock = *m.back();
            Fake(Method(mock, f), Method(mock, g));
        }
        std::vector<std::pair<int, std::string>> made;
        int k = 0;
        for (int r = 0; r < rounds; r++)
            for (int i = 0; i < n; i++) {
                int at = order == 0 ? i : order == 1 ? n - 1 - i : order == 2 ? (i % 2 ? n - 1 - i / 2 : i / 2) : (r % 2 ? n - 1 - i : i);
                k++;
                if ((r + i) % 2) { L(m[at]->get()).g(k); made.emplace_back(at, "mock.g(" + std::to_string(k) + ")"); }
                else { L(m[at]->get()).f(k); made.emplace_back(at, "mock.f(" + std::to_string(k) + ")"); }
            }
        auto want = [&](std::function<bool(int)> in) { Texts t; for (auto &x : made) if (in(x.first)) t.push_back(x.second); return t; };
        auto same = [&](const char *what, const Texts &t) {
            Texts got = q.events.empty() ? Texts() : q.events[0].unverified;
            q.events.clear();
            std::string a, b;
            for (auto &x : got) a += x + ";";
            for (auto &x : t) b += x + ";";
            MC_CHECK(a == b, "%d mocks, %s: %s instead of %s", n, what, a.c_str(), b.c_str());
        };
        for (int i = 0; i < n; i++)
            for (int j : {0, i / 2, i, n - 1}) {
                Mock<I> &x = *m[i], &y = *m[j];
                if (i == j) VerifyNoOtherInvocations(x); else VerifyNoOtherInvocations(x, y);
                same("a pair", want([&](int c) { return c == i || c == j; }));
                mc::step(mc::mix(mc::mix(n, order), mc::mix(i, j)));
            }
        noOtherOf(m, std::make_index_sequence<4>());
        same("4 of them", want([&](int c) { return c < 4; }));
        if (n >= 9) { noOtherOf(m, std::make_index_sequence<9>()); same("9 of them", want([&](int c) { return c < 9; })); }
        if (n >= 20) { noOtherOf(m, std::make_index_sequence<20>()); same("20 of them", want([&](int c) { return c < 20; })); }
        if (n >= 40) { noOtherOf(m, std::make_index_sequence<40>()); same("40 of them", want([&](int) { return true; })); }
        mc::outcome("kept");
    }
    // the order does not depend on how many calls were made before
    void spaceBefore() {
        static const int ns[] = {100, 127, 200, 250, 255, 256, 510, 32760, 65530, 65536, 70000, 131065};
        int n = ns[mc::choose(12)], mode = mc::choose(3);
        struct Off { ~Off() { arena::use(0); } } off;
        arena::use(mode);
        World w(3, 0, 0);
        w.op(0, 0);
        w.op(1, 0);
        {
            Mock<I> x;
            Fake(Method(x, g));
            I &o = L(x.get());
            for (int i = 0; i < n; i++) {
                o.g(1);
                if (i % 1000 == 999) { x.ClearInvocationHistory(); mc::beat(); }
            }
        }
        for (int i = 0; i < 12; i++) w.op(i % 3, (i * 5) % 7);
        fk::QuietAdapter q;
        w.readAll(q);
        w.readAsPattern(q);
    }
    // spied objects
    void spaceSpy() {
        int mode = mc::choose(2);
        struct Off { ~Off() { arena::use(0); } } off;
        arena::use(mode);
        Obj r1, r2;
        r1.other = &r2;
        Mock<I> a(r1), b(r2);
        int nested = mc::choose(2);
        Spy(Method(a, f), Method(a, g));
        Spy(Method(b, f));
        if (nested) Spy(Method(b, g));
        Fake(Method(b, s));
        std::vector<H> hist;
        I &o1 = L((I &) r1), &o2 = L((I &) r2);
        int D = mc::bound(5, 6);
        for (int d = 0; d < D; d++) {
            switch (mc::choose(7)) {
                case 0: hist.push_back({0, "a.f(1)"}); o1.f(1); break;
                case 1: { hist.push_back({0, "a.f(2)"}); try { o1.f(2); } catch (int) { mc::outcome("threw"); } break; }
                case 2: hist.push_back({0, "a.f(3)"}); if (nested) { hist.push_back({1, "b.g(30)"}); mc::outcome("nested"); } o1.f(3); break;
                case 3: hist.push_back({0, "a.g(1)"}); o1.g(1); break;
                case 4: hist.push_back({1, "b.f(3)"}); o2.f(3); break;
                case 5: if (nested) hist.push_back({1, "b.g(1)"}); o2.g(1); break;
                case 6: hist.push_back({1, "b.s(q)"}); o2.s("q"); break;
            }
            uint64_t h = 99 + nested;
            for (auto &x : hist) h = mc::mix(h, mc::hashStr(x.text));
            mc::step(h);
        }
        fk::QuietAdapter q;
        auto seen = [&]() -> Texts { if (q.events.empty()) return {}; return q.pop().unverified; };
        VerifyNoOtherInvocations(a);
        same("NoOther(a)", seen(), only(hist, 1));
        VerifyNoOtherInvocations(b);
        same("NoOther(b)", seen(), only(hist, 2));
        VerifyNoOtherInvocations(b, a);
        same("NoOther(b,a)", seen(), only(hist, 3));
    }
    // three levels of nesting through actions on the same and other mocks; stubs added while calls run
    void spaceNest() {
        int mode = mc::choose(2);
        struct Off { ~Off() { arena::use(0); } } off;
        arena::use(mode);
        Mock<I> a, b;
        std::vector<H> hist;
        I &oa = L(a.get()), &ob = L(b.get());
        int plan[4];
        for (int &p : plan) p = mc::choose(5);
        // f(depth) on either mock performs plan[depth]: 0 nothing 1 a.f(depth+1) 2 b.f(depth+1) 3 both 4 b.f(depth+1) then throw
        std::function<int(int)> body;
        auto recf = [&](int k, int d) { hist.push_back({k, std::string(NAMES[k]) + ".f(" + std::to_string(d) + ")"}); };
        body = [&](int d) -> int {
            int p = d < 4 ? plan[d] : 0;
            if (p == 1 || p == 3) { recf(0, d + 1); oa.f(d + 1); }
            if (p == 2 || p == 3 || p == 4) { recf(1, d + 1); ob.f(d + 1); }
            if (p == 4) throw 5;
            return d;
        };
        When(Method(a, f)).AlwaysDo(body);
        When(Method(b, f)).AlwaysDo(body);
        for (int r = 0; r < 2; r++) {
            recf(r, 0);
            try { (r ? ob : oa).f(0); } catch (int) { mc::outcome("threw"); }
            if (hist.size() > 2) mc::outcome("nested");
            uint64_t h = 7;
            for (auto &x : hist) h = mc::mix(h, mc::hashStr(x.text));
            mc::step(h);
        }
        fk::QuietAdapter q;
        auto seen = [&]() -> Texts { if (q.events.empty()) return {}; return q.pop().unverified; };
        VerifyNoOtherInvocations(b, a);
        same("NoOther(b,a)", seen(), only(hist, 3));
        VerifyNoOtherInvocations(a);
        same("NoOther(a)", seen(), only(hist, 1));
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 4;
        o.mandatory = {"threw", "nested", "used up", "rejected"};
        o.bound = "1 mock, 3 heap orders, 6 stub orders, histories up to 4 (5) of 7 calls; read back through 6 forms";
        mc::add("one-mock", o, [] { spaceOrder(1, mc::bound(4, 5)); });
        o.bound = "2 mocks, histories up to 3 (4) of 14 calls; read back through 15 forms";
        mc::add("two-mocks", o, [] { spaceOrder(2, mc::bound(3, 4)); });
        o.bound = "3 mocks in 6 creation and stub orders, histories up to 3 (4) of 21 calls; read back through 21 forms";
        mc::add("three-mocks", o, [] { spaceOrder(3, mc::bound(3, 4)); });
        o.bound = "two mocks, histories of 2 (3) calls, every call made while an exception propagates or in a catch block";
        mc::add("places", o, [] { fk::Place p(1 + mc::choose(2)); spaceOrder(2, mc::bound(2, 3)); });
        o.mandatory = {"threw", "nested", "rejected"};
        o.bound = "2 mocks, all histories of length 7 (8) over 5 calls, 3 heap orders";
        mc::add("long", o, spaceLong);
        o.mandatory = {};
        o.bound = "10..1000 calls in 4 patterns, 3 heap orders";
        o.shardDepth = 3;
        mc::add("scale", o, spaceScale);
        o.shardDepth = 2;
        o.bound = "100..131065 earlier calls, 3 heap orders";
        mc::add("before", o, spaceBefore);
        o.shardDepth = 2;
        o.mandatory = {"kept"};
        o.bound = "1023..65536 (100001) calls kept by one or two mocks, all read back";
        mc::add("kept", o, spaceKept);
        o.bound = "4 to 40 mocks (15 numbers) in 4 orders, 3 heap orders, 1..3 rounds; read back one by one, in pairs and in lists of up to 40";
        mc::add("mocks", o, spaceMocks);
        o.mandatory = {"threw", "nested"};
        o.shardDepth = 4;
        o.bound = "two spied objects, all histories of length 5 (6) over 7 calls";
        mc::add("spied", o, spaceSpy);
        o.bound = "all plans of 4 levels of nested calls over 5 bodies and two mocks";
        mc::add("nest", o, spaceNest);
    });
}
