// C23: every event is one failure of the test framework. One program per framework: one run of the runner with one test
// case for every sequence of operations; what the framework recorded is then compared test case by test case.
#if defined(FW_METTLE)
#include "shim/mettle_part.hpp"
#elif defined(FW_NUNIT)
#include "shim/nunit_part.hpp"
#elif defined(FW_DOCTEST)
#define DOCTEST_CONFIG_IMPLEMENT
#endif
#include "fakeit.hpp"
#undef CHECK
#undef FAIL
#include "mc.hpp"
#include <sstream>
#include <iostream>
#if defined(FW_CATCH)
#include <catch2/catch_session.hpp>
#include <catch2/catch_test_case_info.hpp>
#include <catch2/internal/catch_test_registry.hpp>
#include <catch2/internal/catch_test_case_registry_impl.hpp>
#include <catch2/reporters/catch_reporter_event_listener.hpp>
#include <catch2/reporters/catch_reporter_registrars.hpp>
#include <catch2/catch_test_case_info.hpp>
#elif defined(FW_BOOST)
#include <boost/test/unit_test_log.hpp>
#include <boost/test/unit_test_log_formatter.hpp>
#include <boost/test/unit_test_monitor.hpp>
#include <boost/test/results_collector.hpp>
#include <boost/test/framework.hpp>
#include <boost/test/tree/test_unit.hpp>
#endif

namespace {
    struct Got { std::string text, file; int line; };
    struct Want { std::string message; bool located; std::string file; int line; bool unexpected; };
    struct Case {
        std::vector<int> ops;
        int begun = 0;
        bool ran = false, finished = false, lastHadEvent = false, failed = false;
        std::vector<Want> want;
        std::vector<Got> got;
        int ended = 0;
    };
    std::vector<Case> cases;
    Case *current;
    const std::string here = __FILE__;

    struct X { virtual int f(int) = 0; virtual int g() = 0; virtual int h(std::string) = 0; virtual ~X() {} };
    std::string statementFile;
    int statementLine;
    struct Listener : fakeit::EventHandler {
        fakeit::EventFormatter *custom = nullptr;
        fakeit::DefaultEventFormatter plain;
        template<class E> void add(const E &e, bool located) { current->want.push_back({(custom ? custom : &plain)->format(e), located, statementFile, statementLine, !located}); current->lastHadEvent = true; }
        void handle(const fakeit::UnexpectedMethodCallEvent &e) override { add(e, false); }
        void handle(const fakeit::SequenceVerificationEvent &e) override { add(e, true); }
        void handle(const fakeit::NoMoreInvocationsVerificationEvent &e) override { add(e, true); }
    };
    struct Words : fakeit::EventFormatter {
        std::string text;
        explicit Words(std::string t) : text(t) {}
        std::string format(const fakeit::UnexpectedMethodCallEvent &) override { return "<unexpected " + text + ">"; }
        std::string format(const fakeit::SequenceVerificationEvent &e) override { return "<sequence " + text + " " + std::to_string(e.actualCount()) + ">"; }
        std::string format(const fakeit::NoMoreInvocationsVerificationEvent &e) override { return "<no more " + text + " " + std::to_string(e.unverifedIvocations().size()) + ">"; }
    };
    enum { SUPPORTED, PASSING, UNMOCKED, UNMATCHED, ONCE, VERIFY, VERIFY_TWO, NO_OTHER, NO_OTHER_METHOD, WORDS, STRANGE, LONG, PLAIN, ASKED, FAR_VERIFY, FAR_NO_OTHER, NOPS };
    const char *names[] = {"supported call", "passing verification", "unmocked call", "unmatched call", "call of h, stubbed once", "failing Verify", "failing Verify of a sequence", "VerifyNoOtherInvocations(m)", "VerifyNoOtherInvocations(f)", "formatter", "formatter with special characters", "formatter of a long text", "no custom formatter", "if (Verify)", "failing Verify at a high line of another file", "VerifyNoOtherInvocations(m) at a high line of another file"};
#define PLACE_LINE 1000001
#define PLACE_FILE "another directory/with a long name that holds spaces, 100%s and (brackets)/file.of.tests.cpp"

    // the test function
    void body(Case &c) {
        using namespace fakeit;
        struct Guard { ~Guard() { Fakeit.clearEventHandlers(); Fakeit.resetCustomEventFormatter(); } } guard;
        static Words words("words"), strange("100%s %n {0} \"'\\ \n second line & <b>"), longOne(std::string(1500, 'x') + "end");
        Listener listener;
        Fakeit.addEventHandler(listener);
        auto custom = [&](Words *w) { listener.custom = w; if (w) Fakeit.setCustomEventFormatter(*w); else Fakeit.resetCustomEventFormatter(); };
        c.ran = true;
        Mock<X> m;
        X &o = m.get();
        When(Method(m, f).Using(1)).AlwaysReturn(5);
        When(Method(m, h)).Return(1);
        for (int op : c.ops) {
            c.begun++;
            c.lastHadEvent = false;
            statementFile = here;
            switch (op) {
                case SUPPORTED: o.f(1); break;
                case PASSING: Verify(Method(m, f).Using(2)).Never(); break;
                case UNMOCKED: o.g(); break;
                case UNMATCHED: o.f(2); break;
                case ONCE: o.h("text"); break;
                case VERIFY: statementLine = __LINE__; Verify(Method(m, f)).Exactly(7); break;
                case VERIFY_TWO: statementLine = __LINE__; Verify(Method(m, f).Using(1) + Method(m, h), Method(m, f) * 2).AtLeast(5); break;
                case NO_OTHER: statementLine = __LINE__; VerifyNoOtherInvocations(m); break;
                case NO_OTHER_METHOD: statementLine = __LINE__; VerifyNoOtherInvocations(Method(m, f)); break;
                case WORDS: custom(&words); break;
                case STRANGE: custom(&strange); break;
                case LONG: custom(&longOne); break;
                case PLAIN: custom(nullptr); break;
                case FAR_VERIFY:
                    statementFile = PLACE_FILE;
                    statementLine = PLACE_LINE;
#define PLACE_CODE Verify(Method(m, f)).Exactly(7);
#include "place.inc"
#undef PLACE_CODE
                    break;
                case FAR_NO_OTHER:
                    statementFile = PLACE_FILE;
                    statementLine = PLACE_LINE;
#define PLACE_CODE VerifyNoOtherInvocations(m);
#include "place.inc"
#undef PLACE_CODE
                    break;
                default: if (Verify(Method(m, f)).Exactly(7)) c.failed = true; break;
            }
        }
        c.finished = true;
    }
    size_t nextCase;
    void nextBody() {
        current = &cases[nextCase++];
        body(*current);
    }

#if defined(FW_GTEST)
    struct Test : testing::Test { void TestBody() override { nextBody(); } };
    struct Record : testing::EmptyTestEventListener {
        void OnTestPartResult(const testing::TestPartResult &r) override {
            if (!current || !r.failed()) return;
            current->got.push_back({r.message(), r.file_name() ? r.file_name() : "", r.line_number()});
        }
        void OnTestEnd(const testing::TestInfo &i) override { if (!current) return; current->ended++; current->failed = i.result()->Failed(); current = nullptr; }
    };
    const bool located = true;
    void runAll() {
        int argc = 1;
        char name[] = "prog";
        char *argv[] = {name, nullptr};
        testing::InitGoogleTest(&argc, argv);
        auto &listeners = testing::UnitTest::GetInstance()->listeners();
        delete listeners.Release(listeners.default_result_printer());
        listeners.Append(new Record());
        for (size_t i = 0; i < cases.size(); i++) testing::RegisterTest("All", ("t" + std::to_string(i)).c_str(), nullptr, nullptr, __FILE__, __LINE__, []() -> testing::Test * { return new Test(); });
        (void) RUN_ALL_TESTS();
    }
#elif defined(FW_CATCH)
    struct Record : Catch::EventListenerBase {
        using Catch::EventListenerBase::EventListenerBase;
        void assertionEnded(Catch::AssertionStats const &s) override {
            if (!current || s.assertionResult.isOk()) return;
            auto info = s.assertionResult.getSourceInfo();
            std::string text(s.assertionResult.getMessage().data(), s.assertionResult.getMessage().size());
            current->got.push_back({text, info.file, (int) info.line});
        }
        void testCaseEnded(Catch::TestCaseStats const &s) override { if (!current) return; current->ended++; current->failed = s.totals.testCases.failed > 0; current = nullptr; }
    };
    const bool located = true;
    void runAll() {
        static std::vector<std::string> titles;
        titles.reserve(cases.size());
        for (size_t i = 0; i < cases.size(); i++) {
            titles.push_back("t" + std::to_string(i));
            Catch::AutoReg(Catch::makeTestInvoker(&nextBody), Catch::SourceLineInfo(__FILE__, i + 1), Catch::StringRef(), Catch::NameAndTags{titles.back(), ""});
        }
        static Catch::ListenerRegistrar<Record> registrar("record");
        Catch::Session session;
        const char *argv[] = {"prog", "--order", "decl", "--out", "/dev/null", nullptr};
        session.applyCommandLine(5, argv);
        session.run();
    }
#elif defined(FW_BOOST)
    struct Log : boost::unit_test::unit_test_log_formatter {
        void log_start(std::ostream &, boost::unit_test::counter_t) override {}
        void log_finish(std::ostream &) override {}
        void log_build_info(std::ostream &, bool) override {}
        void test_unit_start(std::ostream &, boost::unit_test::test_unit const &) override {}
        void test_unit_finish(std::ostream &, boost::unit_test::test_unit const &tu, unsigned long) override {
            if (tu.p_type != boost::unit_test::TUT_CASE || !current) return;
            current->ended++;
            current->failed = !boost::unit_test::results_collector.results(tu.p_id).passed();
            current = nullptr;
        }
        void test_unit_skipped(std::ostream &, boost::unit_test::test_unit const &, boost::unit_test::const_string) override {}
        void log_exception_start(std::ostream &, boost::unit_test::log_checkpoint_data const &, boost::execution_exception const &e) override {
            if (current) current->got.push_back({std::string(e.what().begin(), e.what().end()), "", 0});
        }
        void log_exception_finish(std::ostream &) override {}
        bool wanted = false;
        void log_entry_start(std::ostream &, boost::unit_test::log_entry_data const &d, log_entry_types t) override {
            wanted = current && (t == BOOST_UTL_ET_ERROR || t == BOOST_UTL_ET_FATAL_ERROR);
            if (wanted) current->got.push_back({"", d.m_file_name, (int) d.m_line_num});
        }
        void log_entry_value(std::ostream &, boost::unit_test::const_string v) override { if (wanted) current->got.back().text.append(v.begin(), v.end()); }
        void log_entry_value(std::ostream &, boost::unit_test::lazy_ostream const &v) override { if (wanted) { std::ostringstream s; s << v; current->got.back().text += s.str(); } }
        void log_entry_finish(std::ostream &) override { wanted = false; }
        void entry_context_start(std::ostream &, boost::unit_test::log_level) override {}
        void log_entry_context(std::ostream &, boost::unit_test::log_level, boost::unit_test::const_string) override {}
        void entry_context_finish(std::ostream &, boost::unit_test::log_level) override {}
    };
    const bool located = true;
    bool initTests() {
        using namespace boost::unit_test;
        for (size_t i = 0; i < cases.size(); i++) framework::master_test_suite().add(make_test_case(boost::function<void()>(&nextBody), "t" + std::to_string(i), __FILE__, i + 1));
        return true;
    }
    void runAll() {
        char n0[] = "prog", n1[] = "--report_level=no", n2[] = "--result_code=no";
        char *argv[] = {n0, n1, n2, nullptr};
        boost::unit_test::framework::init(&initTests, 3, argv);
        boost::unit_test::unit_test_log.set_formatter(new Log());
        boost::unit_test::unit_test_log.set_threshold_level(boost::unit_test::log_all_errors);
        boost::unit_test::framework::finalize_setup_phase();
        boost::unit_test::unit_test_log.set_threshold_level(boost::unit_test::log_successful_tests);
        boost::unit_test::framework::run();
    }
#elif defined(FW_DOCTEST)
    struct Record : doctest::IReporter {
        explicit Record(const doctest::ContextOptions &) {}
        void report_query(const doctest::QueryData &) override {}
        void test_run_start() override {}
        void test_run_end(const doctest::TestRunStats &) override {}
        void test_case_start(const doctest::TestCaseData &) override {}
        void test_case_reenter(const doctest::TestCaseData &) override {}
        void test_case_end(const doctest::CurrentTestCaseStats &s) override { if (!current) return; current->ended++; current->failed = !s.testCaseSuccess; current = nullptr; }
        void test_case_exception(const doctest::TestCaseException &e) override { if (current) current->got.push_back({e.error_string.c_str(), "", 0}); }
        void subcase_start(const doctest::SubcaseSignature &) override {}
        void subcase_end() override {}
        void log_assert(const doctest::AssertData &a) override { if (current && a.m_failed) current->got.push_back({a.m_expr, a.m_file, a.m_line}); }
        void log_message(const doctest::MessageData &d) override { if (current && d.m_severity != doctest::assertType::is_warn) current->got.push_back({d.m_string.c_str(), d.m_file ? d.m_file : "", d.m_line}); }
        void test_case_skipped(const doctest::TestCaseData &) override {}
    };
    REGISTER_REPORTER("record", 1, Record);
    const bool located = true;
    void runAll() {
        static std::vector<std::string> titles;
        titles.reserve(cases.size());
        static doctest::detail::TestSuite suite;
        for (size_t i = 0; i < cases.size(); i++) {
            titles.push_back("t" + std::to_string(i));
            doctest::detail::regTest(doctest::detail::TestCase(&nextBody, __FILE__, (unsigned) i + 1, suite) * titles.back().c_str());
        }
        doctest::Context context;
        context.setOption("reporters", "record");
        context.setOption("order-by", "file");
        context.run();
    }
#else
    // frameworks in which a failure is an exception, or which are represented by the part of them the adapter uses
#if defined(FW_MSTEST) || defined(FW_QTEST) || defined(FW_NUNIT)
    const bool located = false;
#else
    const bool located = true;
#endif
    void runAll() {
        for (size_t i = 0; i < cases.size(); i++) {
            Case &c = cases[i];
            bool escaped = true;
            auto fail = [&](std::string text, std::string file, int line) { c.got.push_back({text, file, line}); };
            try { nextBody(); escaped = false; }
#if defined(FW_CUTE)
            catch (cute::test_failure &f) { fail(f.reason, f.filename, f.lineno); }
            catch (std::string &s) { fail(s, "", 0); }
#elif defined(FW_METTLE)
            catch (mettle::expectation_error &e) { fail(e.what(), "", 0); }
#elif defined(FW_MSTEST)
            catch (Microsoft::VisualStudio::CppUnitTestFramework::Failed &f) { fail(std::string(f.message.begin(), f.message.end()), "", 0); }
#elif defined(FW_NUNIT)
            catch (NUnit::Framework::AssertionException &e) { fail(e.message, "", 0); }
#elif defined(FW_TPUNIT)
            catch (std::exception &e) { fail(e.what(), "", 0); }
#elif defined(FW_STANDALONE)
            catch (fakeit::FakeitException &e) { fail(e.what(), "", 0); }
            catch (std::exception &e) { fail(e.what(), "", 0); }
#endif
            catch (...) { fail("caught unknown exception type", "", 0); }
#if defined(FW_QTEST)
            for (auto &f : QTest::failures()) fail(f.message, f.file, f.line);
            QTest::failures().clear();
#endif
            c.failed = c.failed || escaped || !c.got.empty();
            c.ended++;
        }
    }
#endif

    void prepare(int depth) {
        if (!cases.empty()) return;
        std::vector<std::vector<int>> level = {{}};
        for (int d = 0; d <= depth; d++) {
            std::vector<std::vector<int>> next;
            for (auto &ops : level) {
                if (d == depth) { cases.emplace_back(); cases.back().ops = ops; continue; }
                for (int op = 0; op < NOPS; op++) { next.push_back(ops); next.back().push_back(op); }
            }
            level.swap(next);
        }
        runAll();
    }
    void judge(const Case &c) {
        for (int i = 0; i < c.begun; i++) MC_LOG("%s", names[c.ops[i]]);
        for (auto &g : c.got) MC_LOG("failure: %s:%d %s", g.file.c_str(), g.line, g.text.substr(0, 300).c_str());
        MC_CHECK(c.ran && c.ended == 1, "the test case was %s", c.ran ? "not finished by the runner" : "not run");
        if (!c.finished) MC_CHECK(c.begun > 0 && c.lastHadEvent, "the test case was left after '%s', which reported nothing", c.begun ? names[c.ops[c.begun - 1]] : "nothing");
        MC_CHECK(c.failed == !c.want.empty(), "the test case %s with %d events", c.failed ? "failed" : "passed", (int) c.want.size());
        std::vector<bool> used(c.got.size());
        bool unexpected = false;
        for (auto &w : c.want) {
            unexpected = unexpected || w.unexpected;
            bool found = false, otherPlace = false;
            for (size_t i = 0; i < c.got.size() && !found; i++) {
                if (used[i] || c.got[i].text.find(w.message) == std::string::npos) continue;
                bool place = !w.located || !located || (c.got[i].file == w.file && c.got[i].line == w.line) || c.got[i].text.find(w.file + ":" + std::to_string(w.line)) != std::string::npos;
                if (!place) { otherPlace = true; continue; }
                used[i] = found = true;
            }
            MC_CHECK(found, "%s for '%s' (line %d)", otherPlace ? "the failure names another place" : "no failure", w.message.substr(0, 200).c_str(), w.line);
        }
        for (size_t i = 0; i < c.got.size(); i++) {
            if (used[i]) continue;
            for (auto &w : c.want) MC_CHECK(c.got[i].text.find(w.message) == std::string::npos, "more than one failure for '%s'", w.message.substr(0, 200).c_str());
            MC_CHECK(unexpected, "an additional failure: %s", c.got[i].text.substr(0, 200).c_str());
        }
        mc::outcome(c.want.empty() ? "passed" : unexpected ? "unexpected call" : "failed verification");
    }
}

#ifndef C23_LIB
int main(int argc, char **argv) {
    return mc::main(argc, argv, [] {
        mc::Options o;
        o.shardDepth = 1;
        o.mandatory = {"passed", "unexpected call", "failed verification"};
        o.bound = "all sequences of 3 (4) of 16 operations, each one test case of one run of the runner";
        mc::add("test cases", o, [] {
            int depth = mc::bound(3, 4);
            prepare(depth);
            size_t i = 0;
            uint64_t h = 0;
            for (int d = 0; d < depth; d++) { int op = mc::choose((int) NOPS); i = i * NOPS + op; h = mc::mix(h, op); mc::step(h); }
            judge(cases[i]);
        });
    });
}
#endif
