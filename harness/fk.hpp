// Helpers shared by the checks; only the public API of FakeIt is used.
#pragma once
#include <memory>
#include <string>
#include <vector>
#include <limits>
#include <cmath>
#include <stdexcept>
#include <functional>
#include <exception>
#include "fakeit.hpp"
#include "mc.hpp"

namespace fk {
    // Hides the dynamic type from the optimiser / devirtualiser.
    template<class T>
    T &L(T &t) {
        T *volatile p = &t;
        return *p;
    }

    struct Event {
        enum Kind { Unexpected, Sequence, NoMore } kind;
        int type = 0;            // 0 unmocked, 1 unmatched  /  0 exact, 1 at least
        int expected = 0, actual = 0;
        std::vector<std::string> all;         // formatted invocations in scope
        std::vector<std::string> unverified;  // NoMore only
        std::string what;                     // formatted invocation (Unexpected)
        std::string file, func;
        int line = 0;
        int patternSize = 0;
        std::string str() const {
            std::string r = kind == Unexpected ? "unexpected:" + std::to_string(type) + ":" + what
                          : kind == Sequence ? "sequence:" + std::to_string(type) + ":" + std::to_string(expected) + "/" + std::to_string(actual)
                                             : std::string("nomore");
            r += "[";
            for (auto &s : all) r += s + ";";
            r += "][";
            for (auto &s : unverified) r += s + ";";
            return r + "]";
        }
    };

    inline Event toEvent(const fakeit::UnexpectedMethodCallEvent &e) {
        Event r;
        r.kind = Event::Unexpected;
        r.type = e.getUnexpectedType() == fakeit::UnexpectedType::Unmocked ? 0 : 1;
        r.what = e.getInvocation().format();
        return r;
    }
    inline Event toEvent(const fakeit::SequenceVerificationEvent &e) {
        Event r;
        r.kind = Event::Sequence;
        r.type = e.verificationType() == fakeit::VerificationType::Exact ? 0 : e.verificationType() == fakeit::VerificationType::AtLeast ? 1 : 2;
        r.expected = e.expectedCount();
        r.actual = e.actualCount();
        for (auto *i : e.actualSequence()) r.all.push_back(i->format());
        r.file = e.file() ? e.file() : "";
        r.func = e.callingMethod() ? e.callingMethod() : "";
        r.line = e.line();
        r.patternSize = (int) e.expectedPattern().size();
        return r;
    }
    inline Event toEvent(const fakeit::NoMoreInvocationsVerificationEvent &e) {
        Event r;
        r.kind = Event::NoMore;
        for (auto *i : e.allIvocations()) r.all.push_back(i->format());
        for (auto *i : e.unverifedIvocations()) r.unverified.push_back(i->format());
        r.file = e.file() ? e.file() : "";
        r.func = e.callingMethod() ? e.callingMethod() : "";
        r.line = e.line();
        return r;
    }

    // Where calls are made: 0 anywhere, 1 in a destructor while an exception propagates, 2 in a catch block.
    inline int &place() {
        static int p = 0;
        return p;
    }
    struct Place {
        explicit Place(int p) { place() = p; }
        ~Place() { place() = 0; }
    };
    template<class F>
    void there(F &&f) {
        struct Passing {};
        if (place() == 1) {
            std::exception_ptr thrown;
            struct Run {
                F &f;
                std::exception_ptr &thrown;
                ~Run() { try { f(); } catch (...) { thrown = std::current_exception(); } }
            };
            try { Run run{f, thrown}; throw Passing(); } catch (Passing &) {}
            if (thrown) std::rethrow_exception(thrown);
        } else if (place() == 2) {
            try { throw Passing(); } catch (Passing &) { f(); }
        } else f();
    }

    // Collects events.  As an adapter it may return normally or throw.
    struct AdapterThrow {
        int kind;
    };
    struct Recorder : fakeit::EventHandler {
        std::vector<Event> events;
        bool throwing = false;
        std::vector<int> *order = nullptr;  // shared log of who was called
        int id = 0;
        template<class E>
        void take(const E &e) {
            events.push_back(toEvent(e));
            if (order) order->push_back(id);
            if (throwing) throw AdapterThrow{(int) events.back().kind};
        }
        void handle(const fakeit::UnexpectedMethodCallEvent &e) override { take(e); }
        void handle(const fakeit::SequenceVerificationEvent &e) override { take(e); }
        void handle(const fakeit::NoMoreInvocationsVerificationEvent &e) override { take(e); }
    };
    // Installs a Recorder as adapter for the current scope; failing verifications then neither throw nor print.
    struct QuietAdapter : Recorder {
        QuietAdapter() { Fakeit.setTestingFrameworkAdapter(*this); }
        ~QuietAdapter() { Fakeit.resetTestingFrameworkAdapter(); }
        Event pop() {
            Event e = events.back();
            events.pop_back();
            return e;
        }
    };
}
