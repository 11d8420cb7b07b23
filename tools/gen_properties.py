#!/usr/bin/env python3
"""Source of properties.jsonl (kept as a script so that the lines stay well formed)."""
import json, sys, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mech, observe):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))
F = 'include/fakeit/'; M = 'include/mockutils/'

prop('C01', 'A call is answered by the newest stub whose argument condition accepts it',
 'A call to a mocked method is answered by the most recently registered stub of that method whose argument condition accepts the call arguments; if that stub has no actions left the call is unexpected and is not passed on to an older stub. Registering, calling or exhausting one stub never changes, reorders or removes the other stubs of that method, of other methods or of other mocks. This holds for every way of registering a stub (When, Fake, Spy, the assignment shorthand, arguments given in parentheses, with Using or with Matching).',
 ['histories', 'inputs', 'programs'],
 'All interleavings of stub registrations (any form, any condition) and calls on one or several methods and mocks.',
 'Tests try two or three hand-picked stub orders; overlap patterns x registration forms x already consumed prefixes grow combinatorially and only a few points are tried.',
 [F+'RecordedMethodBody.hpp', F+'MethodMockingContext.hpp', F+'WhenFunctor.hpp', F+'FakeFunctor.hpp', F+'SpyFunctor.hpp', F+'ActionSequence.hpp'],
 [('stub list', 'stubs of one method in registration order', F+'RecordedMethodBody.hpp'), ('remaining actions', 'unconsumed actions of a stub', F+'ActionSequence.hpp')],
 [('scan from newest to oldest stub', F+'RecordedMethodBody.hpp'), ('commit of a stubbing statement', F+'MethodMockingContext.hpp'), ('argument conditions', F+'invocation_matchers.hpp')],
 ['return value / exception of each call'])

prop('C02', 'The actions of a stub run in the written order, each the stated number of times',
 'The actions of one stub are used in the order written, each for exactly the number of calls its quantifier states (one without a quantifier, none at all for zero, every remaining call for an Always action), and the first call after the last use is an unexpected call. An action that throws, or that itself calls the same mocked method, consumes exactly one use; a nested call gets the next use of the script. The uses left do not depend on which overload, list or chain of Return/Throw/Do/Always calls produced the script, nor on its length.',
 ['histories', 'inputs', 'programs'],
 'All action scripts (kinds, quantifiers, lists, chains, nesting) and all numbers of calls up to and past exhaustion.',
 'Tests fix one script per test and stop at its end; zero quantifiers, re-entrant actions, mixed throwing/returning scripts and long scripts are not run.',
 [F+'ActionSequence.hpp', F+'Action.hpp', F+'StubbingProgress.hpp', F+'Quantifier.hpp'],
 [('pending actions', 'actions not used up yet', F+'ActionSequence.hpp'), ('repeat counter', 'uses left of one action', F+'Action.hpp')],
 [('take front action, drop it when done', F+'ActionSequence.hpp'), ('count down', F+'Action.hpp'), ('append one action per listed value', F+'StubbingProgress.hpp')],
 ['return value / exception of each call'])

prop('C03', 'Every unsupported call is reported once, raises, and leaves the state as it was',
 'Calling a method that has no stub, whose stubs all reject the arguments, or whose newest accepting stub is used up produces exactly one unexpected-call event naming the method and its arguments (just "unknown()" for a method without any stub), delivered to the listeners and the testing-framework adapter, and then (if the adapter returns) raises the unexpected-method-call exception carrying the formatted message. A rejected call is not added to the invocation history; no unsupported call changes what later calls to this or other methods return. A supported call never produces such an event.',
 ['histories', 'inputs', 'configurations'],
 'All histories of stubbing and calls in which some call is unsupported, for every method shape and every listener/adapter set-up.',
 'Tests check a handful of isolated unsupported calls as the last step; what happens afterwards, and in the middle of a longer history, is not covered.',
 [F+'RecordedMethodBody.hpp', F+'MockImpl.hpp', F+'FakeitContext.hpp', F+'FakeitExceptions.hpp'],
 [('invocation history', 'recorded calls of a method', F+'RecordedMethodBody.hpp')],
 [('report then throw', F+'RecordedMethodBody.hpp'), ('default body of unstubbed methods', F+'MockImpl.hpp')],
 ['exceptions', 'events seen by listener and adapter', 'later calls and verifications'])

prop('C04', 'The invocation history is complete and in call order across methods and mocks',
 'Every call accepted by a stub appears exactly once in the history of its mock with the argument values it was made with, whether it returned, threw or found its stub used up, and no other call appears. Histories of several methods and mocks are merged in the order in which the calls were made, a call made from inside an action coming after the call that triggered it. The order does not depend on the order in which mocks or methods are named, created or stubbed, nor on how many calls were made.',
 ['histories', 'programs'],
 'All histories of calls (plain, nested, throwing, rejected) over several methods and mocks, read back through every verification form.',
 'Tests use one or two mocks with short fixed histories; container iteration order and ordinal handling only show in larger mixed histories.',
 [F+'RecordedMethodBody.hpp', F+'Invocation.hpp', F+'SortInvocations.hpp', F+'ActualInvocationsSource.hpp', F+'MockImpl.hpp'],
 [('ordinal', 'global call number', F+'Invocation.hpp'), ('recorded invocations', 'per method list', F+'RecordedMethodBody.hpp')],
 [('record on match', F+'RecordedMethodBody.hpp'), ('collect and sort', F+'SortInvocations.hpp')],
 ['events of failing verifications (actual sequence)', 'verification verdicts'])

prop('C05', 'A verification passes exactly when the number of matches fits the stated count',
 'With n matches found, a plain verification or AtLeastOnce passes iff n>=1, Once iff n=1, Twice iff n=2, Never iff n=0, Exactly(k) iff n=k, AtLeast(k) iff n>=k and Any always, for every k>=0, with counts given as numbers or as quantities; negative counts are rejected with an invalid-argument exception and nothing is verified. A failing verification reports the kind of expectation, the expected count and the number of matches actually found.',
 ['inputs', 'histories'],
 'All match counts n, all k and all count forms, for single calls and patterns.',
 'Tests check a few (n,k) pairs near 1 and 2; the boundary k=0 and the full comparison table are not covered.',
 [F+'SequenceVerificationProgress.hpp', F+'SequenceVerificationExpectation.hpp', F+'Quantifier.hpp'],
 [('expected count', 'sign-coded expectation', F+'SequenceVerificationExpectation.hpp')],
 [('count comparison', F+'SequenceVerificationExpectation.hpp'), ('terminators', F+'SequenceVerificationProgress.hpp')],
 ['verdict', 'verification event'])

prop('C06', 'Sequence verification counts the disjoint ordered occurrences of the pattern',
 'Each comma-separated element of a verified pattern must match a run of adjacent invocations (a+b: a directly followed by b, s*n: s n times in a row, nested arbitrarily), and the elements must occur in the written order with any invocations in between; the number of matches is the largest number of complete occurrences that follow one another without sharing an invocation (found from the earliest call on). Adjacency is judged within the merged history of exactly the mocks named with Using, or otherwise of the mocks appearing in the pattern; invocations of other mocks are ignored.',
 ['histories', 'programs', 'inputs'],
 'All patterns over a small alphabet of conditions and all call histories, for every choice of sources.',
 'Tests hold some dozens of (pattern, history) pairs; pattern x history space is exponential and the interesting failures are overlaps and partial matches.',
 [F+'MatchAnalysis.hpp', F+'Sequence.hpp', F+'UsingFunctor.hpp', F+'UsingProgress.hpp', F+'VerifyFunctor.hpp', F+'SortInvocations.hpp'],
 [('current position', 'scan position in merged history', F+'MatchAnalysis.hpp')],
 [('find next match', F+'MatchAnalysis.hpp'), ('expand pattern', F+'Sequence.hpp')],
 ['verdict and actual count in the event'])

prop('C07', 'Only invocations covered by a successful verification count as verified',
 'After a passing verification exactly the invocations belonging to its complete matches are additionally marked verified, after a failing one none, and a mark never goes away while the invocation stays in the history. VerifyNoOtherInvocations over mocks or methods passes iff every invocation in its scope is marked and otherwise reports precisely the unmarked ones in call order; it marks nothing. Verification restricted to unverified invocations sees exactly the unmarked ones, and adjacency is judged among them.',
 ['histories', 'programs'],
 'All interleavings of calls, passing and failing verifications, unverified-only verifications and no-other checks.',
 'Tests do one or two verifications before the check; marks are history dependent state and wrong marks appear only after particular verification sequences.',
 [F+'SequenceVerificationExpectation.hpp', F+'MatchAnalysis.hpp', F+'VerifyNoOtherInvocationsVerificationProgress.hpp', F+'UnverifiedFunctor.hpp', F+'ActualInvocationsSource.hpp', F+'SortInvocations.hpp'],
 [('verified flag', 'per invocation mark', F+'Invocation.hpp')],
 [('mark matched', F+'SequenceVerificationExpectation.hpp'), ('filter unverified', F+'ActualInvocationsSource.hpp')],
 ['VerifyNoOtherInvocations verdict and its event', 'Unverified verdicts'])

prop('C08', 'A verification is judged once, reports once, and never disturbs the mock',
 'A verification statement is evaluated exactly once: used as a condition it only yields its verdict and reports nothing to listeners or the adapter; otherwise it reports exactly one event when it fails and none when it holds, with the file, line and function of the statement. Converting it to bool and negating it agree with each other and with the reporting form. It never changes stubs, arguments or history (apart from verified marks), so repeating it gives the same verdict, and it stays silent while an exception is propagating.',
 ['programs', 'histories', 'configurations'],
 'All forms of verification statements in all contexts (statement, condition, negation, during unwinding, repeated), after any history.',
 'Tests look at one form at a time; exactly-once behaviour depends on temporaries, copies and unwinding state.',
 [F+'SequenceVerificationProgress.hpp', F+'SequenceVerificationExpectation.hpp', F+'VerifyNoOtherInvocationsVerificationProgress.hpp', F+'VerifyNoOtherInvocationsFunctor.hpp', M+'smart_ptr.hpp', M+'Macros.hpp', F+'ThrowFalseEventHandler.hpp'],
 [('already verified flag', 'statement already judged', F+'SequenceVerificationExpectation.hpp')],
 [('verify in destructor', F+'SequenceVerificationExpectation.hpp'), ('bool conversion', F+'SequenceVerificationProgress.hpp')],
 ['events at listener and adapter', 'verdicts'])

prop('C09', 'Argument conditions accept exactly the values their definition says',
 'Eq, Ne, Gt, Ge, Lt and Le accept exactly the values for which the corresponding C++ comparison with the given value holds, ApproxEq exactly those within the stated margin, the StrXx forms exactly those ordered so as text (a null pointer only satisfies StrNe), Any/_ everything, a plain value exactly equal values, and a predicate exactly what it returns true for. A call satisfies a condition list iff every argument satisfies the condition at its position. The same answer is given whether the condition is used for stubbing or verifying and however often it is asked, and it depends on the value given when the condition was written, not on later changes to the variable it came from.',
 ['inputs', 'programs'],
 'All values of the argument types (boundary values included), all matchers, all argument positions and arities, both uses.',
 'Tests try two or three values per matcher at one position; equality and ordering boundaries, mixed positions, other argument types, null strings and temporaries are not covered.',
 [F+'argument_matchers.hpp', F+'MatchersCollector.hpp', F+'invocation_matchers.hpp', F+'MethodMockingContext.hpp'],
 [('expected value', 'copy held by the condition', F+'argument_matchers.hpp')],
 [('comparison matchers', F+'argument_matchers.hpp'), ('argument-wise conjunction', F+'invocation_matchers.hpp'), ('collect conditions', F+'MatchersCollector.hpp')],
 ['which stub answers', 'verification verdicts'])

prop('C10', 'Arguments reach actions, predicates and originals unchanged and in position',
 'An action, predicate or spied original receives the arguments of the call in their positions with the values the caller passed; reference parameters refer to the caller objects so that writes through them are seen by the caller, and move-only arguments are handed over at most once. Recording and matching a call does not modify, move from or lose its arguments, and recorded by-value arguments keep the value they had at the call.',
 ['inputs', 'programs', 'histories'],
 'All parameter kinds (value, lvalue/const/rvalue reference, pointer, move-only, non-copyable, large, long double) in all positions and arities, through every action kind.',
 'Tests check single parameters of few kinds; mixtures of kinds and positions go through recursive template code of which only some instantiations are run.',
 [M+'TupleDispatcher.hpp', F+'ActualInvocation.hpp', F+'RecordedMethodBody.hpp', M+'type_utils.hpp', F+'DomainObjects.hpp', M+'MethodProxyCreator.hpp'],
 [('argument tuple', 'arguments of a recorded call', F+'ActualInvocation.hpp')],
 [('tuple to call expansion', M+'TupleDispatcher.hpp'), ('proxy entry', M+'MethodProxyCreator.hpp')],
 ['values and addresses seen inside actions and by the caller'])

prop('C11', 'The caller gets exactly the result, exception or default the action specifies',
 'A returning action gives the caller the value it was given when it was written (for reference results the very object, for move-only results the moved object), a throwing action throws an exception of the same type and value, and an action body result or exception is passed through unchanged. Return without a value and Fake yield a value-initialised result for every copyable default-constructible type, nothing for void, a null reference for references to abstract or non-default-constructible types, and otherwise raise the default-value exception. Results do not depend on earlier calls, on other stubs or on what the caller did with earlier results returned by value.',
 ['inputs', 'programs', 'histories'],
 'All result types and all result-producing actions, at each use of a script.',
 'Tests check one value per type once; repeated use, aliasing of stored values and mixtures of result kinds are not covered.',
 [F+'StubbingProgress.hpp', F+'Action.hpp', M+'DefaultValue.hpp', F+'RecordedMethodBody.hpp', F+'StubbingImpl.hpp'],
 [('stored result', 'value captured by the action', F+'StubbingProgress.hpp')],
 [('Return/Throw/Do', F+'StubbingProgress.hpp'), ('default values', M+'DefaultValue.hpp')],
 ['result value, address, identity and exception at the caller'])

prop('C12', 'A spied object behaves as the original except for the stubbed methods',
 'Mocking an existing object leaves every method that is not stubbed running the original code on the original data, and a spied method runs the original exactly once per call with the same arguments, effects, result and exception while being recorded for verification. While a spied original runs, the object stays mocked: calls it makes to other stubbed methods are answered by their stubs and after it returns or throws the method is mocked again. Destroying the mock gives the object its complete original behaviour back, and Reset gives it back until methods are stubbed again.',
 ['histories', 'programs'],
 'All sequences of spy, stub, call, reset, destroy on an object whose methods call one another, throw, and change state.',
 'Tests spy single methods on one object; method subsets x lifecycle steps x nested calls is not enumerated.',
 [F+'SpyFunctor.hpp', F+'SpyWithoutVerifyFunctor.hpp', F+'MockImpl.hpp', M+'DynamicProxy.hpp', M+'gcc/VirtualTable.hpp'],
 [('object virtual table', 'original or cloned', M+'DynamicProxy.hpp')],
 [('temporary method swap', M+'DynamicProxy.hpp'), ('detach', M+'DynamicProxy.hpp')],
 ['results and side effects of calls on the spied object'])

prop('C13', 'Stubbing one method of one object affects that method of that object only',
 'Stubbing, calling or verifying a method affects exactly that method (that overload, that const/volatile/reference-qualified variant, declared or inherited, at whatever position in however large a class) of exactly that mock. Other methods, other mocks of the same or another type, and real objects of the same class keep behaving as before, and the order in which methods are stubbed or mocks created and destroyed is irrelevant.',
 ['programs', 'histories', 'configurations'],
 'All subsets and orders of stubbed methods of small and of very wide classes, with and without virtual destructors at various positions, several mocks alive at once.',
 'Tests stub one or two methods per class; the position arithmetic and id tables are exercised for single slots, not for subsets, orders and several live mocks.',
 [M+'VTUtils.hpp', M+'VirtualOffestSelector.hpp', M+'MethodProxyCreator.hpp', M+'DynamicProxy.hpp', M+'gcc/VirtualTable.hpp', F+'MockImpl.hpp', F+'Prototype.hpp', F+'Mock.hpp'],
 [('slot table', 'method bodies by virtual table slot', M+'DynamicProxy.hpp')],
 [('slot lookup', M+'VTUtils.hpp'), ('id to slot map', M+'DynamicProxy.hpp'), ('overload selection', F+'Prototype.hpp')],
 ['result of calling every method of every object'])

prop('C14', 'Reset makes a mock as good as new',
 'After Reset a mock has no stubs, no invocation history and no verified marks: every method is unexpected again (runs the original again when an existing object is mocked), and from then on the mock behaves in every respect as one freshly created, including its destructor and data members. Other mocks, their history and the global call order are unaffected. Reset may be repeated and may come after any history.',
 ['histories'],
 'All histories before Reset, all histories after Reset, several Resets, several mocks.',
 'Tests reset once after a short history and try one call; equivalence to a new mock is a statement about all continuations.',
 [F+'MockImpl.hpp', M+'DynamicProxy.hpp', M+'FakeObject.hpp', F+'Mock.hpp'],
 [('slot table and ids', 'what is stubbed', M+'DynamicProxy.hpp')],
 [('reset', F+'MockImpl.hpp')],
 ['all later calls and verifications'])

prop('C15', 'ClearInvocationHistory forgets exactly the history',
 'After ClearInvocationHistory no earlier invocation of that mock is visible to any verification, while every stub remains with exactly the actions it had left and stubbed data members keep their values. Other mocks keep their history. Later calls are recorded and verified as on a mock that never had the earlier ones.',
 ['histories'],
 'All histories before and after clearing, at any point of partly consumed scripts, repeated, with several mocks.',
 'Tests clear once after one call of an Always stub.',
 [F+'MockImpl.hpp', F+'RecordedMethodBody.hpp', M+'DynamicProxy.hpp'],
 [('recorded invocations', 'per method', F+'RecordedMethodBody.hpp')],
 [('clear', F+'MockImpl.hpp')],
 ['verification verdicts, call results and data members afterwards'])

prop('C16', 'Destructor mocking counts deletions and never destroys the mocked instance',
 'Deleting a mock instance runs the stubbed destructor behaviour exactly once per delete, or does nothing when the destructor is not stubbed, and never frees or damages the instance, so the mock and its other stubs stay usable. Stubbed destructor calls are scripted, recorded, counted and ordered like any other method call wherever the destructor is declared in the class. Destroying the mock itself never counts as a deletion, and after it the instance storage is released once.',
 ['histories', 'programs'],
 'All sequences of deletes, destructor stubbings, other calls, reset and mock destruction for several destructor positions.',
 'Tests delete once or twice for one class layout.',
 [F+'MockImpl.hpp', M+'DynamicProxy.hpp', M+'FakeObject.hpp', M+'gcc/VirtualTable.hpp', M+'VTUtils.hpp'],
 [('destructor slots', 'virtual table entries of the destructor', M+'gcc/VirtualTable.hpp')],
 [('destructor binding', M+'DynamicProxy.hpp'), ('ignored destructor', F+'MockImpl.hpp')],
 ['verification counts', 'actions run', 'memory checks'])

prop('C17', 'Each event reaches every listener in order and then the adapter in force',
 'Every unexpected call and every failing reported verification is delivered exactly once to each registered listener in registration order and after that to the testing-framework adapter in force, with the same event content. The adapter in force is the custom one while one is set and otherwise the default one; messages come from the custom formatter while one is set and otherwise from the default one. Adding, clearing, setting and resetting take effect for every later event and for all mocks, existing or new. The supplied logging listener (DefaultEventLogger) writes the message of each event it receives once.',
 ['histories', 'configurations'],
 'All sequences of configuration changes and event-producing actions.',
 'Tests install one listener or formatter and produce one event.',
 [F+'FakeitContext.hpp', F+'DefaultFakeit.hpp', F+'EventHandler.hpp', F+'EventFormatter.hpp', 'config/standalone/StandaloneFakeit.hpp'],
 [('listeners', 'registered listeners', F+'FakeitContext.hpp'), ('custom formatter/adapter', 'overrides', F+'DefaultFakeit.hpp')],
 [('fire then handle', F+'FakeitContext.hpp')],
 ['calls received by listeners, adapter, formatter'])

prop('C18', 'Failure messages describe the pattern, the counts and the calls truthfully',
 'The default message of a failing verification shows the expected pattern with its method names, argument conditions, + * and grouping, the expected and actual number of matches and the invocations of its scope in call order with their argument values; a failing no-other-invocations check lists exactly the unverified ones; an unexpected call message names the method and its arguments ("unknown()" if it has no stub) and says whether the method has no stub or no matching one. Lists are shown in full up to fifty invocations and otherwise cut after fifty with a mark; values are printed with their stream operator, quoted for characters and C strings, as true/false for bool and as ? if unprintable.',
 ['inputs', 'histories', 'programs'],
 'All patterns, argument types and values, and history lengths including those around the limit.',
 'Tests compare a few fixed messages; nesting, lengths around the limit and value kinds are not enumerated.',
 [F+'DefaultEventFormatter.hpp', M+'Formatter.hpp', M+'TuplePrinter.hpp', F+'ActualInvocation.hpp', F+'MethodMockingContext.hpp', F+'invocation_matchers.hpp', F+'argument_matchers.hpp'],
 [],
 [('formatting', F+'DefaultEventFormatter.hpp'), ('argument printing', M+'TuplePrinter.hpp')],
 ['message text received by the caller'])

prop('C19', 'Mocks neither leak nor free early anything handed to them',
 'Every value, callable, exception and condition handed to a mock, and every by-value argument it recorded, is destroyed exactly once, no later than when the mock is destroyed (for recorded arguments also when the history is cleared or the mock reset) and never while it can still be used. Stubbing statements abandoned by an exception, Method(...) objects that are never used and verifications retain nothing. The faked instance is released exactly once and mocked existing objects are never released.',
 ['histories', 'programs', 'fault_sequences'],
 'All histories of stubbing, calls, verification, clearing, reset and destruction in any order, including failing statements.',
 'Tests do not count objects and are not run with memory checking; wrong lifetimes depend on the order of operations.',
 [F+'RecordedMethodBody.hpp', F+'MethodMockingContext.hpp', F+'ActionSequence.hpp', F+'ActualInvocation.hpp', M+'smart_ptr.hpp', F+'MockImpl.hpp', M+'gcc/VirtualTable.hpp'],
 [('owned handlers', 'conditions and scripts owned by a method', F+'RecordedMethodBody.hpp')],
 [('ownership transfer on commit', F+'MethodMockingContext.hpp'), ('reference counts', M+'smart_ptr.hpp')],
 ['live instance counters', 'allocation counters', 'address sanitizer'])

prop('C20', 'An exception thrown by user code leaves the mock consistent',
 'An exception thrown by a user action, predicate, copy constructor of a value or argument, event listener, adapter or formatter reaches the caller unchanged and leaves the mock usable: stubs, remaining uses, histories and marks are those of either the completed or the not-started operation. A stubbing statement abandoned by an exception registers nothing. Later calls, stubbings and verifications behave accordingly.',
 ['fault_sequences', 'histories'],
 'All points at which user code can throw, once or repeatedly, in all short histories.',
 'Tests throw from actions only and look at the immediate result; nothing checks what follows a failure.',
 [F+'RecordedMethodBody.hpp', F+'ActionSequence.hpp', F+'WhenFunctor.hpp', F+'MethodMockingContext.hpp', M+'Finally.hpp', F+'SequenceVerificationExpectation.hpp'],
 [('script position', 'remaining uses', F+'ActionSequence.hpp')],
 [('finally clause', M+'Finally.hpp'), ('commit in destructor unless unwinding', F+'WhenFunctor.hpp')],
 ['exceptions and subsequent behaviour'])

prop('C21', 'ReturnAndSet writes exactly the listed out-parameters and returns the value',
 'ReturnAndSet and AlwaysReturnAndSet return the given value and assign the given values to the arguments in order from the first, or with placeholder form to exactly the named positions (the last one listed wins when a position is repeated); pointer arguments are written through, reference arguments are assigned, all other arguments are left untouched. Every use of the action writes the same values: those given when the stub was written (a named variable is read when the call is made).',
 ['inputs', 'programs'],
 'All subsets and orders of positions, parameter kinds and arities, void and non-void methods, single and repeated use.',
 'Tests cover some fixed position lists for one signature.',
 [F+'StubbingProgress.hpp', F+'Functional.hpp'],
 [('stored values', 'tuple of values to assign', F+'StubbingProgress.hpp')],
 [('walk positions', F+'StubbingProgress.hpp')],
 ['argument objects after the call, return value'])

prop('C22', 'Stubbed data members hold their value for the life of the stub',
 'Stubbing a data member constructs it on the mock instance with the given constructor arguments, leaves every other data member and every method alone, and the member can then be read and written freely through the instance; members that are not stubbed read as zero on a fresh mock. The stubbed object is destroyed exactly once, on Reset or when the mock is destroyed, and calls and verifications do not touch it.',
 ['programs', 'histories'],
 'All subsets and orders of stubbed members (plain and owning types) interleaved with calls, writes, clear, reset and destruction.',
 'Tests stub one member of each kind and read it once.',
 [M+'DynamicProxy.hpp', M+'FakeObject.hpp', F+'MockImpl.hpp', F+'Mock.hpp'],
 [('member wrappers', 'constructed members', M+'DynamicProxy.hpp')],
 [('placement construction', M+'DynamicProxy.hpp')],
 ['member values, live instance counters'])

prop('C23', 'Each framework adapter turns every event into one failure of that framework',
 'With each of the supplied test-framework configurations, every unexpected call and every failing verification makes the running test case fail through that framework exactly once with the formatted message (the custom formatter if set) and, for verifications, the file and line of the statement (except MSTest, NUnit and QTest, whose adapters report no place); passing verifications and supported calls report nothing. The test runner itself survives and later test cases run and are judged independently.',
 ['configurations', 'histories'],
 'All supplied configurations x all event kinds x contexts, in sequences of test cases in one run.',
 'The test suite runs with the stand-alone configuration only; the others are at most syntax checked.',
 ['config/gtest/GTestFakeit.hpp', 'config/catch/CatchFakeit.hpp', 'config/boost/BoostTestFakeit.hpp', 'config/doctest/DoctestFakeit.hpp', 'config/tpunit/TpUnitFakeit.hpp', 'config/standalone/StandaloneFakeit.hpp', 'config/cute/CuteFakeit.hpp', 'config/mettle/MettleFakeit.hpp', 'config/mstest/MsTestFakeit.hpp', 'config/qtest/QTestFakeit.hpp'],
 [],
 [('adapter handle methods', 'config/gtest/GTestFakeit.hpp')],
 ['failures recorded by the framework runner'])

prop('C24', 'Every single-header build behaves like the multi-header sources',
 'For every supplied configuration that has a single-header file, a program using that file behaves exactly as the same program using the multi-file headers with that configuration: the same results, exceptions, events, messages and verdicts.',
 ['configurations', 'programs', 'histories'],
 'All shipped single-header files x all histories of the reference scenario space.',
 'Tests are compiled against the multi-file headers only; the single headers are merely syntax checked.',
 ['single_header/standalone/fakeit.hpp', 'single_header/gtest/fakeit.hpp', 'single_header/catch/fakeit.hpp', 'single_header/boost/fakeit.hpp', 'single_header/doctest/fakeit.hpp', 'single_header/tpunit/fakeit.hpp', 'single_header/cute/fakeit.hpp', 'single_header/mettle/fakeit.hpp', 'single_header/mstest/fakeit.hpp', 'single_header/qtest/fakeit.hpp', 'generate_fakeit_single_header.py'],
 [],
 [('amalgamation', 'generate_fakeit_single_header.py')],
 ['trace of the reference scenarios'])

prop('C25', 'A mock instance has the run-time type identity of the mocked class',
 'For a mock created without an object, typeid of the instance names the mocked class and dynamic_cast from a base class reference or pointer to the mocked class succeeds and yields the same object, while casts to unrelated classes and to classes derived from it fail in the standard way. This holds for chains of declared base classes, before and after stubbing, calling, clearing and resetting, and for several mocks at once.',
 ['programs', 'histories'],
 'All (class, target) pairs of small single-inheritance hierarchies, with intermediate bases declared to the mock, after any short history.',
 'Tests perform one successful cast on a fresh mock.',
 [M+'gcc/VirtualTable.hpp', M+'FakeObject.hpp', F+'MockImpl.hpp', M+'gcc/is_simple_inheritance_layout.hpp'],
 [('type info entry', 'virtual table type information', M+'gcc/VirtualTable.hpp')],
 [('build virtual table', M+'gcc/VirtualTable.hpp')],
 ['typeid and dynamic_cast results'])

prop('C26', 'The single-header generator keeps the text of the headers it joins',
 'For every configuration it is asked for, generate_fakeit_single_header.py writes single_header/<configuration>/fakeit.hpp such that a compiler reads from it exactly the tokens it would read from the multi-file headers: the text of the configuration\'s fakeit.hpp with each quoted include replaced, where it first occurs, by the contents of that header (the configuration\'s own file before the common one) and left out afterwards; only comments, layout and the repeated #pragma once are lost, and the result can itself be included repeatedly. Each header depends only on the sources: not on the other configurations asked for, their order, the current directory or what an earlier run left. With -a all configurations are generated, with -c the named ones; no other file is changed, and with arguments that name no configuration nothing is written. Not claimed: comment markers or include lines inside literals and comments, conditional inclusion of one header in several places.',
 ['trees of headers', 'texts', 'command lines'],
 'All include graphs of a root and three headers, all sequences of short text fragments, all short command lines, over any earlier output.',
 'No test runs the generator; the committed single headers only show that some version of it once worked on one tree.',
 ['generate_fakeit_single_header.py'],
 [('processed_headers', 'headers already written', 'generate_fakeit_single_header.py')],
 [('write a header and what it includes', 'generate_fakeit_single_header.py'), ('remove comments', 'generate_fakeit_single_header.py')],
 ['tokens of the generated files', 'the other files of the tree'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
