// C17: each event reaches every listener in order and then the adapter in force.
#define UNIT unitA
#include "C17.hpp"
#include "heap.hpp"
#include <iostream>
using fk::Event;

namespace {
    struct Entry { int who; Event e; };
    std::vector<Entry> received;
    struct Hears : fakeit::EventHandler {
        int id = 0;
        bool throwing = false;
        template<class E> void take(const E &e) {
            received.push_back({id, fk::toEvent(e)});
            if (throwing) throw fk::AdapterThrow{0};
        }
        void handle(const UnexpectedMethodCallEvent &e) override { take(e); }
        void handle(const SequenceVerificationEvent &e) override { take(e); }
        void handle(const NoMoreInvocationsVerificationEvent &e) override { take(e); }
    };
    struct Words : fakeit::EventFormatter {
        std::string name;
        std::string format(const UnexpectedMethodCallEvent &e) override { return name + " unexpected " + e.getInvocation().format(); }
        std::string format(const SequenceVerificationEvent &e) override { return name + " sequence " + std::to_string(e.actualCount()); }
        std::string format(const NoMoreInvocationsVerificationEvent &e) override { return name + " nomore " + std::to_string(e.unverifedIvocations().size()); }
    };
    enum { NL = 6 };
    // listeners 0..NL-1, adapters 100 and 101 (throws)
    struct World {
        Hears listener[NL], adapter[2];
        Words words[2];
        std::vector<int> added;
        int inForce = -1, formatter = -1;
        std::unique_ptr<Producer> p[2];
        World() {
            for (int i = 0; i < NL; i++) listener[i].id = i;
            for (int i = 0; i < 2; i++) { adapter[i].id = 100 + i; words[i].name = i ? "second" : "first"; }
            adapter[1].throwing = true;
            p[0] = unitA.make();
            p[1] = unitB.make();
        }
        ~World() {
            Fakeit.clearEventHandlers();
            Fakeit.resetTestingFrameworkAdapter();
            Fakeit.resetCustomEventFormatter();
        }
        // the events an operation makes, and how the exception of the default adapter ends
        void expect(const std::string &seen, const char *kind, const std::string &plain, const std::string &custom, const std::string &event, bool callFails) {
            std::vector<int> who = added;
            if (inForce >= 0) who.push_back(100 + inForce);
            MC_CHECK(received.size() == who.size(), "%s reached %zu of %zu receivers", event.c_str(), received.size(), who.size());
            for (size_t i = 0; i < who.size(); i++) {
                MC_CHECK(received[i].who == who[i], "%s: receiver %zu is %d instead of %d", event.c_str(), i, received[i].who, who[i]);
                MC_CHECK(received[i].e.str() == event, "receiver %d got %s instead of %s", who[i], received[i].e.str().c_str(), event.c_str());
                MC_CHECK(received[i].e.file == received[0].e.file && received[i].e.line == received[0].e.line && received[i].e.func == received[0].e.func, "receivers got different places");
            }
            if (inForce < 0) {
                std::string want = formatter < 0 ? plain : words[formatter].name + (" " + custom);
                bool starts = seen.compare(0, strlen(kind), kind) == 0, ends = seen.size() >= want.size() && seen.compare(seen.size() - want.size(), want.size(), want) == 0;
                MC_CHECK(starts && (formatter < 0 ? seen.find(want) != std::string::npos : ends), "the default adapter answered '%s', expected '%s…%s'", seen.c_str(), kind, want.c_str());
                mc::outcome(formatter < 0 ? "default adapter, default words" : "default adapter, custom words");
            } else if (inForce == 1) { MC_CHECK(seen == "adapter threw", "the exception of the adapter became '%s'", seen.c_str()); mc::outcome("custom adapter"); }
            else { MC_CHECK(callFails ? seen.compare(0, 11, "unexpected:") == 0 : seen.empty(), "with an adapter that returns: '%s'", seen.c_str()); mc::outcome("custom adapter"); }
            if (added.size() > 1) mc::outcome("several listeners");
            received.clear();
        }
        void produce(int kind, int unit, bool fresh) {
            std::unique_ptr<Producer> made;
            if (fresh) made = unit ? unitB.make() : unitA.make();
            else {  // made earlier; the next one is made now
                made = unit ? unitB.make() : unitA.make();
                p[unit].swap(made);
            }
            Producer &x = *made;
            received.clear();
            std::string s;
            switch (kind) {
                case 0: s = x.unmocked(); expect(s, "unexpected:", "An unmocked method", "unexpected unknown()", "unexpected:0:unknown()[][]", true); break;
                case 1: s = x.unmatched(); expect(s, "unexpected:", "Could not find", "unexpected m.f(2)", "unexpected:1:m.f(2)[][]", true); break;
                case 2: s = x.exhausted(); expect(s, "unexpected:", "m.h(2)", "unexpected m.h(2)", "unexpected:1:m.h(2)[][]", true); break;
                case 3: s = x.nested(); expect(s, "unexpected:", "m.f(3)", "unexpected m.f(3)", "unexpected:1:m.f(3)[][]", true); break;
                case 4: s = x.verify(); expect(s, "sequence:", "exactly 2", "sequence 0", "sequence:0:2/0[m.f(1);m.h(1);][]", false); break;
                case 5: s = x.verifyAtLeast(); expect(s, "sequence:", "at least 3", "sequence 0", "sequence:1:3/0[m.f(1);m.h(1);][]", false); break;
                case 6: s = x.noOther(); expect(s, "nomore:", "Expected no more", "nomore 2", "nomore[m.f(1);m.h(1);][m.f(1);m.h(1);]", false); break;
                case 8: s = x.verifyNever(); expect(s, "sequence:", "exactly 0", "sequence 1", "sequence:0:0/1[m.f(1);m.h(1);][]", false); break;
                case 9: s = x.verifyOnce(); expect(s, "sequence:", "exactly 1", "sequence 0", "sequence:0:1/0[m.f(1);m.h(1);][]", false); break;
                case 10: s = x.verifyLess(); expect(s, "sequence:", "exactly 1", "sequence 2", "sequence:0:1/2[m.f(1);m.h(1);m.f(1);][]", false); break;
                case 11: s = x.verifySeveral(); expect(s, "sequence:", "at least 1", "sequence 0", "sequence:1:1/0[m.f(1);m.h(1);][]", false); break;
                case 12: s = x.noOtherPart(); expect(s, "nomore:", "Expected no more", "nomore 1", "nomore[m.f(1);m.h(1);][m.f(1);]", false); break;
                case 7: s = x.quiet(); MC_CHECK(s.empty() && received.empty(), "an event without a failure: '%s'", s.c_str()); break;
            }
        }
        void op(int o, int unit) {
            const Unit &u = unit ? unitB : unitA;
            switch (o) {
                case 0: {
                    for (int k = 0; k < NL; k++) {
                        bool in = false;
                        for (int a : added) in |= a == k;
                        if (!in) { MC_LOG("add listener %d", k); u.addListener(listener[k]); added.push_back(k); return; }
                    }
                    throw mc::Prune{};
                }
                case 1: MC_LOG("add listener 5"); for (int a : added) if (a == 5) throw mc::Prune{}; u.addListener(listener[5]); added.push_back(5); break;
                case 2: MC_LOG("clear listeners"); u.clearListeners(); added.clear(); break;
                case 3: MC_LOG("set adapter 0"); u.setAdapter(adapter[0]); inForce = 0; break;
                case 4: MC_LOG("set adapter 1"); u.setAdapter(adapter[1]); inForce = 1; break;
                case 5: MC_LOG("reset adapter"); u.resetAdapter(); inForce = -1; break;
                case 6: MC_LOG("set first formatter"); u.setFormatter(words[0]); formatter = 0; break;
                case 7: MC_LOG("set second formatter"); u.setFormatter(words[1]); formatter = 1; break;
                case 8: MC_LOG("reset formatter"); u.resetFormatter(); formatter = -1; break;
            }
        }
    };
    // every configuration history, then every kind of event from old and new mocks of both translation units
    void spaceConfigure() {
        World w;
        int depth = mc::bound(5, 6);
        uint64_t h = 1;
        for (int i = 0; i < depth; i++) {
            int o = mc::choose(9);
            h = mc::mix(h, o);
            w.op(o, i & 1);
        }
        for (int k = 0; k < 13; k++) {
            w.produce(k, k & 1, false);
            mc::step(mc::mix(h, k));
        }
        w.produce(mc::choose(8), depth & 1, true);
    }
    // events between the changes
    void spaceMixed() {
        World w;
        int depth = mc::bound(4, 5);
        uint64_t h = 1;
        int start = mc::choose(2);
        for (int i = 0; i < depth; i++) {
            int o = mc::choose(9 + 8), unit = (start + i) & 1;
            h = mc::mix(mc::mix(h, o), unit);
            if (o < 9) w.op(o, unit);
            else { MC_LOG("event %d", o - 9); w.produce(o - 9, unit, i & 1); }
            mc::step(h);
        }
        w.produce(mc::choose(13), start, false);
    }
    // many listeners
    void spaceListeners() {
        std::vector<std::unique_ptr<Hears>> many;
        int n = 1 + mc::choose(40), kind = mc::choose(13);
        World w;
        for (int i = 0; i < n; i++) {
            many.emplace_back(new Hears());
            many.back()->id = 20 + i;
            (i % 2 ? unitA : unitB).addListener(*many.back());
            w.added.push_back(20 + i);
        }
        int adapter = mc::choose(3);
        if (adapter) w.op(2 + adapter, 0);
        w.produce(kind, 0, true);
        w.produce(kind, 1, false);
        mc::step(n * 100 + kind * 5 + adapter);
    }
    // events about many invocations, long arguments and long sequences
    void spaceSizes() {
        static const int ns[] = {1, 2, 3, 9, 10, 11, 16, 17, 32, 33, 50, 60, 61, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 1000};
        int n = ns[mc::choose(26)], kind = mc::choose(4), nl = 1 + mc::choose(2), adapter = mc::choose(3), formatter = mc::choose(2);
        World w;
        for (int i = 0; i < nl; i++) w.op(0, i);
        if (adapter) w.op(2 + adapter, 0);
        if (formatter) w.op(6, 1);
        Mock<P> m;
        Fake(Method(m, f));
        std::string all;
        for (int i = 0; i < n; i++) { fk::L(m.get()).f(i); all += "m.f(" + std::to_string(i) + ");"; }
        received.clear();
        Impl i;
        received.clear();
        std::string s;
        switch (kind) {
            case 0: s = i.seen([&] { VerifyNoOtherInvocations(m); }); w.expect(s, "nomore:", "Expected no more", "nomore " + std::to_string(n), "nomore[" + all + "][" + all + "]", false); break;
            case 1: s = i.seen([&] { VerifyNoOtherInvocations(Method(m, f)); }); w.expect(s, "nomore:", "Expected no more", "nomore " + std::to_string(n), "nomore[" + all + "][" + all + "]", false); break;
            case 2: s = i.seen([&] { Verify(Method(m, f)).Exactly(n + 1); }); w.expect(s, "sequence:", ("exactly " + std::to_string(n + 1)).c_str(), "sequence " + std::to_string(n), "sequence:0:" + std::to_string(n + 1) + "/" + std::to_string(n) + "[" + all + "][]", false); break;
            case 3: s = i.seen([&] { Verify(Method(m, f)).AtLeast(n + 5); }); w.expect(s, "sequence:", ("at least " + std::to_string(n + 5)).c_str(), "sequence " + std::to_string(n), "sequence:1:" + std::to_string(n + 5) + "/" + std::to_string(n) + "[" + all + "][]", false); break;
        }
        mc::step(mc::mix(mc::mix(n, kind), nl * 9 + adapter * 3 + formatter));
    }
    // the supplied logging listener writes every event it gets, once, in the words of its formatter
    struct Writes : fakeit::EventHandler {
        EventFormatter &f;
        std::string out;
        explicit Writes(EventFormatter &f_) : f(f_) {}
        void handle(const UnexpectedMethodCallEvent &e) override { out += f.format(e) + "\n"; }
        void handle(const SequenceVerificationEvent &e) override { out += f.format(e) + "\n"; }
        void handle(const NoMoreInvocationsVerificationEvent &e) override { out += f.format(e) + "\n"; }
    };
    struct Captured {
        std::ostringstream text;
        std::streambuf *old;
        Captured() : old(std::cout.rdbuf(text.rdbuf())) {}
        ~Captured() { std::cout.rdbuf(old); }
    };
    void spaceLogger() {
        World w;
        DefaultEventFormatter plain;
        int words = mc::choose(3), adapter = mc::choose(3), place = mc::choose(3);
        EventFormatter &f = words ? (EventFormatter &) w.words[words - 1] : plain;
        std::unique_ptr<DefaultEventLogger> logger;
        Writes expected(f);
        if (place > 1) w.op(0, 0);
        {
            Captured c;
            logger.reset(new DefaultEventLogger(f));
            unitA.addListener(*logger);
            unitB.addListener(expected);
        }
        if (place == 1) w.op(0, 1);
        if (adapter) w.op(2 + adapter, 0);
        int depth = mc::bound(3, 4);
        for (int i = 0; i < depth; i++) {
            int k = mc::choose(8);
            expected.out.clear();
            std::string got;
            {
                Captured c;
                w.produce(k, i & 1, i & 2);
                got = c.text.str();
            }
            MC_CHECK(got == expected.out, "the logger wrote '%s' instead of '%s'", got.c_str(), expected.out.c_str());
            if (!got.empty()) mc::outcome("logged");
            mc::step(mc::mix(words * 27 + adapter * 9 + place * 3, i * 8 + k));
        }
        Fakeit.clearEventHandlers();
        w.added.clear();
        Captured c;
        w.produce(0, 0, true);
        MC_CHECK(c.text.str().empty(), "the logger wrote after it was removed");
    }
    // one event after another: the same receivers each time
    void spaceRepeated() {
        World w;
        int nl = mc::choose(3);
        for (int i = 0; i < nl; i++) w.op(0, 0);
        int a = mc::choose(3), f = mc::choose(3);
        if (a) w.op(2 + a, 0);
        if (f) w.op(5 + f, 1);
        uint64_t h = mc::mix(nl * 9 + a * 3 + f, 7);
        int depth = mc::bound(4, 5);
        for (int i = 0; i < depth; i++) {
            int k = mc::choose(8);
            h = mc::mix(h, k);
            w.produce(k, i & 1, true);
            mc::step(h);
        }
    }
    // a verification decides when it is made what is in force: when its statement ends
    void spaceLate() {
        World w;
        int before = mc::choose(9), during = mc::choose(9), after = mc::choose(9), kind = mc::choose(3);
        w.op(before, 0);
        Mock<P> m;
        Fake(Method(m, f));
        fk::L(m.get()).f(1);
        received.clear();
        Impl i;
        std::string s = i.seen([&] {
            auto one = [&] { w.op(during, kind & 1); return 1; };
            if (kind == 0) Verify(Method(m, f).Using(5)).AtLeast(one());
            if (kind == 1) Verify(Method(m, f).Using(5)).Exactly(one());
            if (kind == 2) Using(m).Verify(Method(m, f).Using(5)).AtLeast(one());
        });
        w.expect(s, "sequence:", kind == 1 ? "exactly 1" : "at least 1", "sequence 0", std::string("sequence:") + (kind == 1 ? "0" : "1") + ":1/0[m.f(1);][]", false);
        w.op(after, 0);
        w.produce(4, 0, true);
        mc::step(before * 1000 + during * 100 + after * 10 + kind);
    }
}

int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 3;
        o.mandatory = {"default adapter, default words", "default adapter, custom words", "custom adapter", "several listeners"};
        o.bound = "all sequences of 5 (6) of 9 configuration changes made by two translation units, then every kind of event from mocks made before and after";
        mc::add("configure", o, spaceConfigure);
        o.bound = "all sequences of 4 (5) of 9 changes and 8 kinds of statements, in two translation units";
        mc::add("mixed", o, spaceMixed);
        o.bound = "up to 2 listeners, 3 adapters, 3 formatters, all sequences of 4 (5) statements";
        mc::add("repeated", o, spaceRepeated);
        o.shardDepth = 2;
        o.mandatory = {"several listeners"};
        o.bound = "1 to 40 listeners, 13 kinds of statements, 3 adapters";
        mc::add("listeners", o, spaceListeners);
        o.bound = "failures about 1 to 1000 invocations (26 numbers), 4 kinds, 1 or 2 listeners, 3 adapters, 2 formatters";
        mc::add("sizes", o, spaceSizes);
        o.mandatory = {"logged"};
        o.bound = "the supplied logger with 3 formatters alone, before or after a listener, 3 adapters, all sequences of 3 (4) statements";
        mc::add("logger", o, spaceLogger);
        o.mandatory = {"default adapter, default words", "default adapter, custom words", "custom adapter"};
        o.bound = "a change before, during and after a verification statement";
        mc::add("late", o, spaceLate);
    });
}
