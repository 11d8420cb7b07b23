// C08: a verification is judged once, reports once, and never disturbs the mock.
#include "fk.hpp"
#include "heap.hpp"
#include <deque>
using namespace fakeit;
using fk::L;

namespace {
    struct I {
        virtual int f(int) = 0;
        virtual int g(int) = 0;
        virtual int h(std::string) = 0;
        virtual ~I() {}
    };
    struct Call { char sym; bool marked; };
    const char *textOf(char s) { return s == 'x' ? "w.a.f(1)" : s == 'y' ? "w.a.f(2)" : "w.b.g(1)"; }
    bool leafMatches(char leaf, char s) { return leaf == 'X' ? s == 'x' : leaf == 'Y' ? s == 'y' : leaf == 'Z' ? s == 'z' : s == 'x' || s == 'y'; }
    unsigned mockOf(char c) { return c == 'z' || c == 'Z' ? 2 : 1; }

    struct World {
        Mock<I> a, b, act;
        std::vector<Call> h;
        int nextF = 0, nextG = 0;
        std::string longText = "a text that is too long for the small buffer";
        World() {
            World &w = *this;
            // scripts whose position shows whether somebody used up an action
            When(Method(w.a, f)).Return(100, 101, 102, 103, 104, 105, 106, 107, 108, 109);
            When(Method(w.b, g)).Return(200, 201, 202, 203, 204, 205, 206, 207, 208, 209);
            Fake(Method(w.a, h));
        }
        void call(char s) {
            MC_LOG("call %s", textOf(s));
            h.push_back({s, false});
            int r = s == 'x' ? L(a.get()).f(1) : s == 'y' ? L(a.get()).f(2) : L(b.get()).g(1);
            int want = s == 'z' ? 200 + nextG++ : 100 + nextF++;
            MC_CHECK(r == want, "call %s returned %d instead of %d", textOf(s), r, want);
        }
    };

    // How a verification is written.
    enum Form { STATEMENT, VARIABLE, IF, IF_NOT, AND, NOT_NOT, TERNARY, CAST, NFORM };
    const char *formName[] = {"statement", "bool variable", "if", "if not", "&&", "!!", "?:", "cast"};

    struct Site {
        const char *name;
        int line;
        int (*run)(World &, int form);   // -1 statement, otherwise the verdict seen by the caller
        std::vector<std::string> elems;  // empty: no-other-invocations
        int lo, hi;                      // accepted numbers of matches, hi -1: unbounded
        int scope;                       // 0 mocks of the pattern, 1 a, 2 a and b
        bool unverified;
        const char *syms;                // no-other-invocations: what is in scope
    };

#define SITE(N, X) \
    int site_##N(World &w, int form) { \
        switch (form) { \
            case STATEMENT: X; return -1; \
            case VARIABLE: { bool v = X; return v; } \
            case IF: if (X) return 1; return 0; \
            case IF_NOT: if (!X) return 0; return 1; \
            case AND: return true && X; \
            case NOT_NOT: return !!X; \
            case TERNARY: return X ? 1 : 0; \
            default: return static_cast<bool>(X); \
        } \
    } \
    enum { line_##N = __LINE__ };

    SITE(plain, Verify(Method(w.a, f).Using(1)))
    SITE(all, Verify(Method(w.a, f)))
    SITE(once, Verify(Method(w.a, f).Using(1)).Once())
    SITE(twice, Verify(Method(w.a, f)).Twice())
    SITE(exactly, Verify(Method(w.a, f)(1)).Exactly(2))
    SITE(quantity, Verify(Method(w.a, f)(2)).Exactly(1_Time))
    SITE(atleast, Verify(Method(w.a, f)).AtLeast(2))
    SITE(atleastq, Verify(Method(w.b, g)).AtLeast(2_Times))
    SITE(atleastonce, Verify(Method(w.b, g).Matching([](int v) { return v == 1; })).AtLeastOnce())
    SITE(never, Verify(Method(w.a, f).Using(2)).Never())
    SITE(any, Verify(Method(w.a, f)).Any())
    SITE(adjacent, Verify(Method(w.a, f).Using(1) + Method(w.b, g)))
    SITE(repeated, Verify(Method(w.a, f) * 2).Once())
    SITE(ordered, Verify(Method(w.b, g), Method(w.a, f).Using(1)).Exactly(1))
    SITE(usinga, Using(w.a).Verify(Method(w.a, f).Using(1) + Method(w.a, f).Using(2)))
    SITE(usingab, Using(w.a, w.b).Verify(Method(w.a, f).Using(1) + Method(w.a, f).Using(1)).Never())
    SITE(unverified, Unverified.Verify(Method(w.a, f)).Exactly(2))
    SITE(usingunverified, Using(Unverified(w.a, w.b)).Verify(Method(w.b, g) + Method(w.a, f)).Once())
    SITE(noother, VerifyNoOtherInvocations(w.a))
    SITE(nootherab, VerifyNoOtherInvocations(w.b, w.a))
    SITE(noothermethod, VerifyNoOtherInvocations(Method(w.a, f).Using(2)))

#define S(N, ...) {#N, line_##N, site_##N, __VA_ARGS__}
    const std::vector<Site> SITES = {
        S(plain, {"X"}, 1, -1, 0, false, ""),
        S(all, {"F"}, 1, -1, 0, false, ""),
        S(once, {"X"}, 1, 1, 0, false, ""),
        S(twice, {"F"}, 2, 2, 0, false, ""),
        S(exactly, {"X"}, 2, 2, 0, false, ""),
        S(quantity, {"Y"}, 1, 1, 0, false, ""),
        S(atleast, {"F"}, 2, -1, 0, false, ""),
        S(atleastq, {"Z"}, 2, -1, 0, false, ""),
        S(atleastonce, {"Z"}, 1, -1, 0, false, ""),
        S(never, {"Y"}, 0, 0, 0, false, ""),
        S(any, {"F"}, 0, -1, 0, false, ""),
        S(adjacent, {"XZ"}, 1, -1, 0, false, ""),
        S(repeated, {"FF"}, 1, 1, 0, false, ""),
        S(ordered, {"Z", "X"}, 1, 1, 0, false, ""),
        S(usinga, {"XY"}, 1, -1, 1, false, ""),
        S(usingab, {"XX"}, 0, 0, 2, false, ""),
        S(unverified, {"F"}, 2, 2, 0, true, ""),
        S(usingunverified, {"ZF"}, 1, 1, 2, true, ""),
        S(noother, {}, 0, 0, 0, false, "xy"),
        S(nootherab, {}, 0, 0, 0, false, "xyz"),
        S(noothermethod, {}, 0, 0, 0, false, "y"),
    };
    const int NSITE = 21;

    // ---- model: verdict and marks of a site on a history ----
    struct Verdict { bool ok; int n; std::vector<size_t> marks; size_t scope; };
    Verdict judge(const Site &s, const std::vector<Call> &h) {
        Verdict v{true, 0, {}, 0};
        if (s.elems.empty()) {
            for (auto &c : h) if (strchr(s.syms, c.sym)) { v.scope++; if (!c.marked) v.ok = false; }
            return v;
        }
        unsigned mask = s.scope == 2 ? 3 : s.scope;
        if (!s.scope) for (auto &e : s.elems) for (char c : e) mask |= mockOf(c);
        std::vector<size_t> in;
        for (size_t i = 0; i < h.size(); i++) if ((mockOf(h[i].sym) & mask) && !(s.unverified && h[i].marked)) in.push_back(i);
        v.scope = in.size();
        for (size_t pos = 0;;) {
            std::vector<size_t> mine;
            bool ok = true;
            for (auto &e : s.elems) {
                bool found = false;
                for (; pos + e.size() <= in.size(); pos++) {
                    bool all = true;
                    for (size_t j = 0; j < e.size(); j++) all = all && leafMatches(e[j], h[in[pos + j]].sym);
                    if (all) { found = true; break; }
                }
                if (!found) { ok = false; break; }
                for (size_t j = 0; j < e.size(); j++) mine.push_back(in[pos + j]);
                pos += e.size();
            }
            if (!ok) break;
            v.n++;
            v.marks.insert(v.marks.end(), mine.begin(), mine.end());
        }
        v.ok = v.n >= s.lo && (s.hi < 0 || v.n <= s.hi);
        return v;
    }

    // ---- environment of events ----
    struct Env {
        std::deque<fk::Recorder> listeners;
        fk::Recorder adapter;
        Env(int nl, bool throwing) {
            for (int i = 0; i < nl; i++) {
                listeners.emplace_back();
                Fakeit.addEventHandler(listeners.back());
            }
            adapter.throwing = throwing;
            Fakeit.setTestingFrameworkAdapter(adapter);
        }
        ~Env() {
            Fakeit.clearEventHandlers();
            Fakeit.resetTestingFrameworkAdapter();
        }
        void expect(size_t n, const char *when) {
            MC_CHECK(adapter.events.size() == n, "%s: the adapter has seen %zu events, %zu expected", when, adapter.events.size(), n);
            for (auto &l : listeners) MC_CHECK(l.events.size() == n, "%s: a listener has seen %zu events, %zu expected", when, l.events.size(), n);
        }
    };

    // ---- where a verification is executed ----
    enum Context { PLAIN, UNWINDING, IN_CATCH, IN_ACTION, IN_DTOR, IN_RETHROW, UNWINDING_INNER_TRY, NCTX };
    const char *ctxName[] = {"plain", "while an exception propagates", "in a catch block", "in an action", "in a destructor", "in a function that then throws", "in a try block while an exception propagates"};
    struct Unwound { int v; };
    struct OnExit {
        std::function<void()> f;
        ~OnExit() noexcept(false) { f(); }
    };
    bool silent(int ctx) { return ctx == UNWINDING || ctx == UNWINDING_INNER_TRY; }
    void inContext(World &w, int ctx, const std::function<void()> &f) {
        switch (ctx) {
            case PLAIN: f(); break;
            case UNWINDING:
                try { OnExit e{f}; throw Unwound{7}; } catch (Unwound &u) { MC_CHECK(u.v == 7, "exception changed"); }
                break;
            case UNWINDING_INNER_TRY:
                try {
                    OnExit e{[&] { try { f(); } catch (fk::AdapterThrow &) { mc::fail("reported while an exception propagates"); } }};
                    throw Unwound{8};
                } catch (Unwound &u) { MC_CHECK(u.v == 8, "exception changed"); }
                break;
            case IN_CATCH:
                try { throw Unwound{9}; } catch (Unwound &) { f(); }
                break;
            case IN_ACTION: {
                When(Method(w.act, f)).Do([&](int) -> int { f(); return 55; });
                int r = L(w.act.get()).f(3);
                MC_CHECK(r == 55, "action result");
                break;
            }
            case IN_DTOR: { OnExit e{f}; break; }
            case IN_RETHROW:
                try { f(); throw Unwound{10}; } catch (Unwound &u) { MC_CHECK(u.v == 10, "exception changed"); }
                break;
        }
    }

    // executes one verification and checks everything that can be observed about it
    size_t execute(World &w, Env &env, int siteNo, int form, int ctx, size_t already) {
        const Site &s = SITES[siteNo];
        Verdict v = judge(s, w.h);
        int result = -2;
        bool thrown = false;
        try {
            inContext(w, ctx, [&] { result = s.run(w, form); });
        } catch (fk::AdapterThrow &) { thrown = true; }
        bool report = form == STATEMENT && !v.ok && !silent(ctx);
        // whether a statement executed while an exception propagates marks anything is left open
        bool open = form == STATEMENT && silent(ctx) && v.ok && !v.marks.empty();
        if (open && s.unverified) throw mc::Prune{};
        if (v.ok) for (size_t i : v.marks) w.h[i].marked = true;
        MC_LOG("site %s as %s, %s: verdict %d (model %d), %zu events", s.name, formName[form], ctxName[ctx], result, v.ok, env.adapter.events.size() - already);
        mc::outcome(v.ok ? "holds" : "fails");
        if (form == STATEMENT) { MC_CHECK(result == (thrown ? -2 : -1), "statement was not executed to its end"); }
        else MC_CHECK(result == (v.ok ? 1 : 0), "verdict of %s as %s is %d, %d matches", s.name, formName[form], result, v.n);
        env.expect(already + report, s.name);
        MC_CHECK(thrown == (report && env.adapter.throwing), "%s: the exception of the adapter %s", s.name, thrown ? "came without a report" : "was lost");
        if (report) {
            auto check = [&](const fk::Event &e) {
                MC_CHECK(e.file == __FILE__, "%s: event names file %s", s.name, e.file.c_str());
                MC_CHECK(e.line == s.line, "%s: event names line %d, the statement is in line %d", s.name, e.line, s.line);
                MC_CHECK(e.func == std::string("site_") + s.name, "%s: event names function %s", s.name, e.func.c_str());
                MC_CHECK(e.kind == (s.elems.empty() ? fk::Event::NoMore : fk::Event::Sequence), "%s: kind of event", s.name);
                MC_CHECK(e.all.size() == v.scope, "%s: %zu invocations in scope, %zu expected", s.name, e.all.size(), v.scope);
                if (!s.elems.empty()) MC_CHECK(e.actual == v.n, "%s: %d matches reported, %d found by the model", s.name, e.actual, v.n);
            };
            check(env.adapter.events.back());
            for (auto &l : env.listeners) check(l.events.back());
        }
        if (open) {
            bool again = s.run(w, IF);
            MC_CHECK(again, "%s does not hold any more", s.name);
            env.expect(already, s.name);
        }
        return already + report;
    }
    // history, marks and remaining actions are what the model says
    void checkUndisturbed(World &w) {
        fk::Recorder q;
        Fakeit.setTestingFrameworkAdapter(q);
        Fakeit.clearEventHandlers();
        VerifyNoOtherInvocations(w.a, w.b);
        std::vector<std::string> left, all;
        for (auto &c : w.h) { all.push_back(textOf(c.sym)); if (!c.marked) left.push_back(textOf(c.sym)); }
        if (left.empty()) { MC_CHECK(q.events.empty(), "all marked in the model, not in the mock: %s", q.events[0].str().c_str()); }
        else MC_CHECK(q.events.size() == 1 && q.events[0].all == all && q.events[0].unverified == left, "history or marks changed: %s", q.events.empty() ? "all verified" : q.events[0].str().c_str());
        w.call('y');
        w.call('z');
        Fakeit.resetTestingFrameworkAdapter();
    }

    void spaceOne() {
        World w;
        Env env(mc::choose(2) * 2, mc::flag());
        int site = mc::choose(NSITE), form = mc::choose(NFORM), ctx = mc::choose(NCTX);
        int len = mc::choose(mc::bound(5, 6));
        for (int i = 0; i < len; i++) w.call("xyz"[mc::choose(3)]);
        size_t n = execute(w, env, site, form, ctx, 0);
        // the very same again
        execute(w, env, site, form, PLAIN, n);
        checkUndisturbed(w);
        uint64_t hs = mc::mix(site, form * 8 + ctx);
        for (auto &c : w.h) hs = mc::mix(hs, c.sym * 2 + c.marked);
        mc::step(hs);
    }
    // several verifications one after another, with calls in between
    void spaceSequence() {
        World w;
        Env env(1, mc::flag());
        int D = mc::bound(3, 4);
        size_t n = 0;
        w.call('x'); w.call('y'); w.call('z'); w.call('x');
        uint64_t hs = 3;
        for (int d = 0; d < D; d++) {
            int site = mc::choose(NSITE), form = mc::choose(2) ? IF_NOT : STATEMENT, ctx = mc::choose(2) ? (d & 1 ? UNWINDING : IN_CATCH) : PLAIN;
            n = execute(w, env, site, form, ctx, n);
            for (auto &c : w.h) hs = mc::mix(hs, c.sym * 2 + c.marked);
            mc::step(hs);
        }
        checkUndisturbed(w);
    }
    // verifications kept in a variable report when the variable dies, once
    int stored(World &w, int kind, bool convert, bool &verdict, const std::function<void()> &beforeEnd) {
        auto method = Method(w.a, f).Using(1);
        switch (kind) {
#define KEPT(X) { auto v = X; beforeEnd(); if (convert) verdict = v; return __LINE__; }
            case 0: KEPT(Verify(method))
            case 1: KEPT(Verify(method).Exactly(2))
            case 2: KEPT(Verify(method).AtLeast(1))
            case 3: KEPT(VerifyNoOtherInvocations(w.a))
            case 4: KEPT(VerifyNoOtherInvocations(method))
            default: { auto v = Verify(method); v.Exactly(2); beforeEnd(); if (convert) verdict = v; return __LINE__; }
        }
    }
    void spaceStored() {
        World w;
        Env env(1, mc::flag());
        int len = mc::choose(4);
        for (int i = 0; i < len; i++) w.call("xyz"[mc::choose(3)]);
        int kind = mc::choose(6);
        bool convert = mc::flag(), before = mc::flag(), verdict = false, thrown = false;
        auto holds = [&] {
            int x = 0, f = 0;
            for (auto &c : w.h) { x += c.sym == 'x'; f += c.sym != 'z'; }
            return kind == 0 || kind == 2 ? x >= 1 : kind == 1 || kind == 5 ? x == 2 : kind == 3 ? f == 0 : x == 0;
        };
        try {
            stored(w, kind, convert, verdict, [&] {
                env.expect(0, "before the end");
                if (before) w.call('x');  // it is judged at its end
            });
        } catch (fk::AdapterThrow &) { thrown = true; }
        bool ok = holds();
        mc::outcome(ok ? "holds" : "fails");
        if (convert) MC_CHECK(verdict == ok, "verdict %d of kind %d", verdict, kind);
        bool report = !convert && !ok;
        env.expect(report, "at the end");
        MC_CHECK(thrown == (report && env.adapter.throwing), "exception of the adapter");
        if (report) {
            MC_CHECK(env.adapter.events[0].func == "stored", "function %s", env.adapter.events[0].func.c_str());
            MC_CHECK(env.adapter.events[0].file == __FILE__, "file");
        }
        mc::step(mc::mix(kind * 8 + convert * 4 + before * 2 + ok, len));
    }
    // lines, files and functions of all sizes
    typedef void (*Placed)(World &, int);
    struct PlacedAt { int line; const char *file, *func; Placed run; };
    std::vector<PlacedAt> &placed() { static std::vector<PlacedAt> v; return v; }
    struct AddPlace { AddPlace(int l, const char *fi, const char *fu, Placed r) { placed().push_back({l, fi, fu, r}); } };
#define PLACE_CAT2(A, B) A##B
#define PLACE_CAT(A, B) PLACE_CAT2(A, B)
#define PLACE_TEXT2(A) #A
#define PLACE_TEXT(A) PLACE_TEXT2(A)
#define PLACE_CODE void PLACE_FUNC(World &w, int kind) { switch (kind) { \
    case 0: Verify(Method(w.a, f)).Exactly(7); break; case 1: Verify(Method(w.a, f) + Method(w.b, g)).AtLeast(7); break; \
    case 2: VerifyNoOtherInvocations(w.a, w.b); break; case 3: Using(w.a, w.b).Verify(Method(w.a, f) * 9); break; \
    case 4: Unverified.Verify(Method(w.a, f)).Twice(); break; default: VerifyNoOtherInvocations(Method(w.a, f)); break; } } \
    AddPlace PLACE_CAT(add_, PLACE_FUNC)(PLACE_LINE, PLACE_FILE, PLACE_TEXT(PLACE_FUNC), PLACE_FUNC);
#include "C08_places.inc"

    void spacePlaces() {
        int at = mc::choose((int) placed().size()), kind = mc::choose(6), calls = mc::choose(3);
        bool throwing = mc::flag();
        PlacedAt &p = placed()[at];
        Env env(1, throwing);
        World w;
        for (int i = 0; i < calls; i++) w.call('x');
        bool ok = (kind == 2 || kind == 5) && calls == 0 || kind == 4 && calls == 2;
        bool thrown = false;
        try { p.run(w, kind); } catch (fk::AdapterThrow &) { thrown = true; }
        env.expect(!ok, "at the end");
        MC_CHECK(thrown == (!ok && throwing), "exception of the adapter");
        if (!ok) {
            for (auto *e : {&env.adapter.events[0], &env.listeners[0].events[0]}) {
                MC_CHECK(e->line == p.line, "line %d instead of %d", e->line, p.line);
                MC_CHECK(e->file == p.file, "file %s instead of %s", e->file.c_str(), p.file);
                MC_CHECK(e->func == p.func, "function %s instead of %s", e->func.c_str(), p.func);
            }
        }
        mc::outcome(ok ? "holds" : "fails");
        mc::step(mc::mix(at * 16 + kind, calls * 2 + throwing));
    }
    // matching does not modify or move arguments, and predicates see them again and again
    void spaceArguments() {
        fk::QuietAdapter q;
        World w;
        int calls = 1 + mc::choose(3), reps = 1 + mc::choose(4), how = mc::choose(6), ok = mc::choose(2);
        std::string arg = ok ? w.longText : "another text that is too long for the small buffer";
        for (int i = 0; i < calls; i++) L(w.a.get()).h(arg);
        size_t events = 0;
        for (int r = 0; r < reps; r++) {
            bool pass = ok;
            switch (how) {
                case 0: Verify(Method(w.a, h).Using(w.longText)).Exactly(calls); break;
                case 1: Verify(Method(w.a, h)(w.longText)).Exactly(calls); break;
                case 2: Verify(Method(w.a, h).Matching([&](std::string &s) { return s == w.longText; })).Exactly(calls); break;
                case 3: Verify(Method(w.a, h).Using(Eq(std::string("a text that is too long for the small buffer"))) * calls); break;
                case 4: pass = (bool) Verify(Method(w.a, h).Using(Eq(w.longText))).Exactly(calls); break;
                case 5: pass = !!Verify(Method(w.a, h).Matching([&](const std::string &s) { return s == w.longText; })).Exactly(calls); break;
            }
            if (how < 4) events += !ok;
            MC_CHECK(pass == (bool) ok, "repetition %d: verdict", r);
            MC_CHECK(q.events.size() == events, "repetition %d: %zu events, %zu expected", r, q.events.size(), events);
            for (auto &e : q.events) for (auto &t : e.all) MC_CHECK(t == "w.a.h(" + arg + ")", "recorded argument changed: %s", t.c_str());
        }
        MC_CHECK(w.longText == "a text that is too long for the small buffer", "value of the condition changed");
        mc::outcome(ok ? "holds" : "fails");
        mc::step(mc::mix(calls * 8 + reps, how * 2 + ok));
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 5;
        o.mandatory = {"holds", "fails"};
        o.bound = "21 statements x 8 ways to write them x 7 places of execution x adapter returning/throwing x 0/2 listeners x all histories up to 4 (5) of 3 calls, each executed twice";
        mc::add("one", o, spaceOne);
        o.shardDepth = 3;
        o.bound = "all sequences of 3 (4) of 21 statements, as statement or condition, in two places";
        mc::add("sequence", o, spaceSequence);
        o.shardDepth = 1;
        o.bound = "verifications kept in variables, histories up to 3";
        mc::add("stored", o, spaceStored);
        o.bound = "1..3 calls with a long text verified 1..4 times in 6 ways";
        mc::add("arguments", o, spaceArguments);
        o.bound = "statements at 34 lines up to INT_MAX, in 11 files with names up to 4100 characters, in 6 functions with names up to 1105, 6 kinds, 0..2 calls";
        mc::add("places", o, spacePlaces);
    });
}
