From 73edaafe6cd0d058805bdcaad06933193f9f343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:06 +0000
Subject: [PATCH 01/10] fix: do not mark invocations of an incomplete pattern
 match as verified

When the tail of the history matched only the first part of a multi-part
pattern, those invocations were marked as verified together with the complete
matches, so VerifyNoOtherInvocations missed them.
---
 include/fakeit/MatchAnalysis.hpp    | 4 +++-
 single_header/boost/fakeit.hpp      | 4 +++-
 single_header/catch/fakeit.hpp      | 4 +++-
 single_header/cute/fakeit.hpp       | 4 +++-
 single_header/doctest/fakeit.hpp    | 4 +++-
 single_header/gtest/fakeit.hpp      | 4 +++-
 single_header/mettle/fakeit.hpp     | 4 +++-
 single_header/mstest/fakeit.hpp     | 4 +++-
 single_header/nunit/fakeit.hpp      | 4 +++-
 single_header/qtest/fakeit.hpp      | 4 +++-
 single_header/standalone/fakeit.hpp | 4 +++-
 single_header/tpunit/fakeit.hpp     | 4 +++-
 12 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/include/fakeit/MatchAnalysis.hpp b/include/fakeit/MatchAnalysis.hpp
index 8cac066..4ca1171 100644
--- a/include/fakeit/MatchAnalysis.hpp
+++ b/include/fakeit/MatchAnalysis.hpp
@@ -46,14 +46,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 06536e0..0024d1d 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -9379,14 +9379,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 1f35224..9cf18c3 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -9417,14 +9417,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 6465020..7962f7a 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -9344,14 +9344,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 7facb68..cb25399 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -9372,14 +9372,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 3fcd6a7..cf66c35 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -9344,14 +9344,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 31b4f52..07c2e3a 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -9366,14 +9366,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 8f5b59e..4c82b08 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -9368,14 +9368,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 31b5322..7525693 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -9351,14 +9351,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 51d2998..9e49285 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -9352,14 +9352,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 0484739..86e2835 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -9420,14 +9420,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index a56df19..56b88ad 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -9403,14 +9403,16 @@ namespace fakeit {
         static bool findNextMatch(std::vector<Sequence *> &pattern, std::vector<Invocation *> &actualSequence,
                                   int startSearchIndex, int &end,
                                   std::vector<Invocation *> &matchedInvocations) {
+            std::vector<Invocation *> matchedByPattern;
             for (auto sequence : pattern) {
                 int index = findNextMatch(sequence, actualSequence, startSearchIndex);
                 if (index == -1) {
                     return false;
                 }
-                collectMatchedInvocations(actualSequence, matchedInvocations, index, sequence->size());
+                collectMatchedInvocations(actualSequence, matchedByPattern, index, sequence->size());
                 startSearchIndex = index + sequence->size();
             }
+            matchedInvocations.insert(matchedInvocations.end(), matchedByPattern.begin(), matchedByPattern.end());
             end = startSearchIndex;
             return true;
         }
-- 
2.43.0


From 85a392ff81e9c73840bbeef4c3adaeab09d7e296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:45 +0000
Subject: [PATCH 02/10] fix: accept any number of matches in
 Verify(...).AtLeast(0)

The expected count of an at-least verification is stored negated, so zero was
taken for an exact count and AtLeast(0) failed as soon as there was a match.
---
 include/fakeit/SequenceVerificationProgress.hpp | 3 +++
 single_header/boost/fakeit.hpp                  | 3 +++
 single_header/catch/fakeit.hpp                  | 3 +++
 single_header/cute/fakeit.hpp                   | 3 +++
 single_header/doctest/fakeit.hpp                | 3 +++
 single_header/gtest/fakeit.hpp                  | 3 +++
 single_header/mettle/fakeit.hpp                 | 3 +++
 single_header/mstest/fakeit.hpp                 | 3 +++
 single_header/nunit/fakeit.hpp                  | 3 +++
 single_header/qtest/fakeit.hpp                  | 3 +++
 single_header/standalone/fakeit.hpp             | 3 +++
 single_header/tpunit/fakeit.hpp                 | 3 +++
 12 files changed, 36 insertions(+)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index 0c12d3a..a93fe4a 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -112,6 +112,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any(); // any number of matches is at least zero
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 0024d1d..d387a87 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -9698,6 +9698,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 9cf18c3..bd51b2f 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -9722,6 +9722,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 7962f7a..adecfde 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -9663,6 +9663,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index cb25399..ddd97c6 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -9677,6 +9677,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index cf66c35..ceaa88d 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -9663,6 +9663,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 07c2e3a..b372c61 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -9671,6 +9671,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 4c82b08..b7d5f96 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -9687,6 +9687,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 7525693..af553b9 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -9670,6 +9670,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 9e49285..7a8f14b 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -9671,6 +9671,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 86e2835..1272b77 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -9725,6 +9725,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 56b88ad..38cd5b9 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -9708,6 +9708,9 @@ namespace fakeit {
             if (times < 0) {
                 throw std::invalid_argument(std::string("bad argument times:").append(fakeit::to_string(times)));
             }
+            if (times == 0) {
+                return Any();
+            }
             verifyInvocations(-times);
             return Terminator(_expectationPtr);
         }
-- 
2.43.0


From 58061b77f724a3b06bcee4976457010f0022b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:58 +0000
Subject: [PATCH 03/10] fix: use every recorded action exactly as often as
 requested

An action repeated 0_Times was repeated forever. An action that invoked the
mocked method again was run once more by the nested call, and the actions
following it were dropped when both calls returned. Actions without uses left
are now skipped before an action is selected and each one is retired once.
---
 include/fakeit/ActionSequence.hpp   | 22 ++++++++++++++++++----
 single_header/boost/fakeit.hpp      | 22 ++++++++++++++++++----
 single_header/catch/fakeit.hpp      | 22 ++++++++++++++++++----
 single_header/cute/fakeit.hpp       | 22 ++++++++++++++++++----
 single_header/doctest/fakeit.hpp    | 22 ++++++++++++++++++----
 single_header/gtest/fakeit.hpp      | 22 ++++++++++++++++++----
 single_header/mettle/fakeit.hpp     | 22 ++++++++++++++++++----
 single_header/mstest/fakeit.hpp     | 22 ++++++++++++++++++----
 single_header/nunit/fakeit.hpp      | 22 ++++++++++++++++++----
 single_header/qtest/fakeit.hpp      | 22 ++++++++++++++++++----
 single_header/standalone/fakeit.hpp | 22 ++++++++++++++++++----
 single_header/tpunit/fakeit.hpp     | 22 ++++++++++++++++++----
 12 files changed, 216 insertions(+), 48 deletions(-)

diff --git a/include/fakeit/ActionSequence.hpp b/include/fakeit/ActionSequence.hpp
index b1f6018..c2617f3 100644
--- a/include/fakeit/ActionSequence.hpp
+++ b/include/fakeit/ActionSequence.hpp
@@ -39,14 +39,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+            // Skip actions that have no uses left: empty ones (0_Times) and the ones
+            // that are still running, when an action invokes the same method again.
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -72,6 +77,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index d387a87..41a6992 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -8031,14 +8031,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8064,6 +8069,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index bd51b2f..160b95b 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -8069,14 +8069,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8102,6 +8107,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index adecfde..978c8f2 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -7996,14 +7996,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8029,6 +8034,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index ddd97c6..a0abcfc 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -8024,14 +8024,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8057,6 +8062,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index ceaa88d..302574f 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -7996,14 +7996,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8029,6 +8034,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index b372c61..fe94bbf 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -8018,14 +8018,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8051,6 +8056,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index b7d5f96..d50aeb2 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -8020,14 +8020,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8053,6 +8058,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index af553b9..ad31b3f 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -8003,14 +8003,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8036,6 +8041,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 7a8f14b..f5fdbca 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -8004,14 +8004,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8037,6 +8042,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 1272b77..f728417 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -8072,14 +8072,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8105,6 +8110,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 38cd5b9..0edb9f2 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -8055,14 +8055,19 @@ namespace fakeit {
 
         virtual R handleMethodInvocation(ArgumentsTuple<arglist...> & args) override
         {
+
+
+            while (asAction(*_recordedActions.front()).isDone()) {
+                retireFrontAction();
+            }
+
             std::shared_ptr<Destructible> destructablePtr = _recordedActions.front();
             Destructible &destructable = *destructablePtr;
-            Action<R, arglist...> &action = dynamic_cast<Action<R, arglist...> &>(destructable);
+            Action<R, arglist...> &action = asAction(destructable);
             std::function<void()> finallyClause = [&]() -> void {
-                if (action.isDone())
+                if (action.isDone() && _recordedActions.front() == destructablePtr)
                 {
-                    _recordedActions.erase(_recordedActions.begin());
-                    _usedActions.push_back(destructablePtr);
+                    retireFrontAction();
                 }
             };
             Finally onExit(finallyClause);
@@ -8088,6 +8093,15 @@ namespace fakeit {
             }
         };
 
+        static Action<R, arglist...> &asAction(Destructible &destructable) {
+            return dynamic_cast<Action<R, arglist...> &>(destructable);
+        }
+
+        void retireFrontAction() {
+            _usedActions.push_back(_recordedActions.front());
+            _recordedActions.erase(_recordedActions.begin());
+        }
+
         void append(Action<R, arglist...> *action) {
             std::shared_ptr<Destructible> destructable{action};
             _recordedActions.insert(_recordedActions.end() - 1, destructable);
-- 
2.43.0


From 5277dd51b54e6d94979cbdc67149b30e6576f775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:30 +0000
Subject: [PATCH 04/10] fix: keep method slots unassigned after Reset

Reset filled the slot to method id table with zeros, but zero is the id of the
destructor. Deleting the instance after stubbing the destructor of a reset mock
looked up the first slot and dereferenced a null method.
---
 include/mockutils/DynamicProxy.hpp  | 2 +-
 single_header/boost/fakeit.hpp      | 2 +-
 single_header/catch/fakeit.hpp      | 2 +-
 single_header/cute/fakeit.hpp       | 2 +-
 single_header/doctest/fakeit.hpp    | 2 +-
 single_header/gtest/fakeit.hpp      | 2 +-
 single_header/mettle/fakeit.hpp     | 2 +-
 single_header/mstest/fakeit.hpp     | 2 +-
 single_header/nunit/fakeit.hpp      | 2 +-
 single_header/qtest/fakeit.hpp      | 2 +-
 single_header/standalone/fakeit.hpp | 2 +-
 single_header/tpunit/fakeit.hpp     | 2 +-
 12 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index 0d06a71..f7cea28 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -93,7 +93,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 41a6992..c6d8ec9 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -6074,7 +6074,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 160b95b..ba6c784 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -6112,7 +6112,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 978c8f2..782fe85 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -6039,7 +6039,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index a0abcfc..024a992 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -6067,7 +6067,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 302574f..70ce8f8 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -6039,7 +6039,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index fe94bbf..526acb3 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -6061,7 +6061,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index d50aeb2..4d445fe 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -6063,7 +6063,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index ad31b3f..2a999dd 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -6046,7 +6046,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index f5fdbca..f1e1346 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -6047,7 +6047,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index f728417..2e60cca 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -6115,7 +6115,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 0edb9f2..35776be 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -6098,7 +6098,7 @@ namespace fakeit {
             _methodMocks.resize(VTUtils::getVTSize<C>());
             _members = {};
 			_offsets = {};
-            _offsets.resize(VTUtils::getVTSize<C>());
+            _offsets.resize(VTUtils::getVTSize<C>(), std::numeric_limits<int>::max());
             _cloneVt.copyFrom(originalVtHandle.restore());
         }
 
-- 
2.43.0


From 92ade43d01bff2e07ae62bea84145feb71bcdbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:43 +0000
Subject: [PATCH 05/10] fix: do not crash in string matchers when the argument
 is a null pointer

StrEq and the other string matchers passed a null argument to strcmp. A null
pointer is now different from every string and not ordered relative to any.
---
 include/fakeit/argument_matchers.hpp | 17 +++++++++++------
 single_header/boost/fakeit.hpp       | 17 +++++++++++------
 single_header/catch/fakeit.hpp       | 17 +++++++++++------
 single_header/cute/fakeit.hpp        | 17 +++++++++++------
 single_header/doctest/fakeit.hpp     | 17 +++++++++++------
 single_header/gtest/fakeit.hpp       | 17 +++++++++++------
 single_header/mettle/fakeit.hpp      | 17 +++++++++++------
 single_header/mstest/fakeit.hpp      | 17 +++++++++++------
 single_header/nunit/fakeit.hpp       | 17 +++++++++++------
 single_header/qtest/fakeit.hpp       | 17 +++++++++++------
 single_header/standalone/fakeit.hpp  | 17 +++++++++++------
 single_header/tpunit/fakeit.hpp      | 17 +++++++++++------
 12 files changed, 132 insertions(+), 72 deletions(-)

diff --git a/include/fakeit/argument_matchers.hpp b/include/fakeit/argument_matchers.hpp
index 4a64866..615ad4e 100644
--- a/include/fakeit/argument_matchers.hpp
+++ b/include/fakeit/argument_matchers.hpp
@@ -56,6 +56,11 @@ namespace fakeit {
     };
 
     namespace internal {
+        // strcmp() must not be called with a null pointer, which is not equal to any string.
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -278,7 +283,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -308,7 +313,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -338,7 +343,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -368,7 +373,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -398,7 +403,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -428,7 +433,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index c6d8ec9..8df7eb8 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -6512,6 +6512,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6734,7 +6739,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6764,7 +6769,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6794,7 +6799,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6824,7 +6829,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6854,7 +6859,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6884,7 +6889,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index ba6c784..b0d5576 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -6550,6 +6550,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6772,7 +6777,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6802,7 +6807,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6832,7 +6837,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6862,7 +6867,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6892,7 +6897,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6922,7 +6927,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 782fe85..7c5e0aa 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -6477,6 +6477,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6699,7 +6704,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6729,7 +6734,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6759,7 +6764,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6789,7 +6794,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6819,7 +6824,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6849,7 +6854,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 024a992..8808a0b 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -6505,6 +6505,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6727,7 +6732,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6757,7 +6762,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6787,7 +6792,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6817,7 +6822,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6847,7 +6852,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6877,7 +6882,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 70ce8f8..e5d9f1a 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -6477,6 +6477,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6699,7 +6704,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6729,7 +6734,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6759,7 +6764,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6789,7 +6794,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6819,7 +6824,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6849,7 +6854,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 526acb3..2ed37f8 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -6499,6 +6499,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6721,7 +6726,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6751,7 +6756,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6781,7 +6786,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6811,7 +6816,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6841,7 +6846,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6871,7 +6876,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 4d445fe..fb8c9fb 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -6501,6 +6501,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6723,7 +6728,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6753,7 +6758,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6783,7 +6788,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6813,7 +6818,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6843,7 +6848,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6873,7 +6878,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 2a999dd..e3ac573 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -6484,6 +6484,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6706,7 +6711,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6736,7 +6741,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6766,7 +6771,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6796,7 +6801,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6826,7 +6831,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6856,7 +6861,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index f1e1346..e18c484 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -6485,6 +6485,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6707,7 +6712,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6737,7 +6742,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6767,7 +6772,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6797,7 +6802,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6827,7 +6832,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6857,7 +6862,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 2e60cca..5e89b1d 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -6553,6 +6553,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6775,7 +6780,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6805,7 +6810,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6835,7 +6840,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6865,7 +6870,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6895,7 +6900,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6925,7 +6930,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 35776be..d0a0e3e 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -6536,6 +6536,11 @@ namespace fakeit {
     };
 
     namespace internal {
+
+        inline bool isString(const char *str) {
+            return str != nullptr;
+        }
+
         struct AnyMatcherCreator{
             template <typename ActualT>
             struct IsTypeCompatible : std::true_type {};
@@ -6758,7 +6763,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) == 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) == 0;
                     }
                 };
 
@@ -6788,7 +6793,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) > 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) > 0;
                     }
                 };
 
@@ -6818,7 +6823,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) >= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) >= 0;
                     }
                 };
 
@@ -6848,7 +6853,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) < 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) < 0;
                     }
                 };
 
@@ -6878,7 +6883,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) <= 0;
+                        return isString(actual) && std::strcmp(actual, this->_expected.c_str()) <= 0;
                     }
                 };
 
@@ -6908,7 +6913,7 @@ namespace fakeit {
                     }
 
                     virtual bool matches(const ActualT &actual) const override {
-                        return std::strcmp(actual, this->_expected.c_str()) != 0;
+                        return !isString(actual) || std::strcmp(actual, this->_expected.c_str()) != 0;
                     }
                 };
 
-- 
2.43.0


From 782aa7e0c3b54abebb7f15988e2fbb399168f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 06/10] fix: keep data members in ClearInvocationHistory

Clearing the history also zeroed the data members of the fake instance. Stubbed
members lost their values, and members owning memory were destroyed later on in
that broken state.
---
 include/fakeit/MockImpl.hpp         | 1 -
 single_header/boost/fakeit.hpp      | 1 -
 single_header/catch/fakeit.hpp      | 1 -
 single_header/cute/fakeit.hpp       | 1 -
 single_header/doctest/fakeit.hpp    | 1 -
 single_header/gtest/fakeit.hpp      | 1 -
 single_header/mettle/fakeit.hpp     | 1 -
 single_header/mstest/fakeit.hpp     | 1 -
 single_header/nunit/fakeit.hpp      | 1 -
 single_header/qtest/fakeit.hpp      | 1 -
 single_header/standalone/fakeit.hpp | 1 -
 single_header/tpunit/fakeit.hpp     | 1 -
 12 files changed, 12 deletions(-)

diff --git a/include/fakeit/MockImpl.hpp b/include/fakeit/MockImpl.hpp
index c8d6e35..cc72ae6 100644
--- a/include/fakeit/MockImpl.hpp
+++ b/include/fakeit/MockImpl.hpp
@@ -72,7 +72,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 8df7eb8..7c80733 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -8639,7 +8639,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index b0d5576..c34924a 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -8677,7 +8677,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 7c5e0aa..05b5446 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -8604,7 +8604,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 8808a0b..d757cb2 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -8632,7 +8632,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index e5d9f1a..d9423b3 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -8604,7 +8604,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 2ed37f8..620eec3 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -8626,7 +8626,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index fb8c9fb..33636ce 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -8628,7 +8628,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index e3ac573..852f5d2 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -8611,7 +8611,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index e18c484..da526bc 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -8612,7 +8612,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 5e89b1d..2843d44 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -8680,7 +8680,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index d0a0e3e..db276d7 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -8663,7 +8663,6 @@ namespace fakeit {
 			for (ActualInvocationsContainer *s : vec) {
 				s->clear();
 			}
-			initDataMembersIfOwner();
         }
 
         virtual C &get() override {
-- 
2.43.0


From 3cb94744c49807f8d3aee70025298cc56626771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:58 +0000
Subject: [PATCH 07/10] fix: use the custom event formatter in Catch reports

The Catch adapter was bound to the default formatter, so a formatter installed
with setCustomEventFormatter was ignored, unlike in all other configurations.
---
 config/catch/CatchFakeit.hpp   | 2 +-
 single_header/catch/fakeit.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/config/catch/CatchFakeit.hpp b/config/catch/CatchFakeit.hpp
index 616a369..1261961 100644
--- a/config/catch/CatchFakeit.hpp
+++ b/config/catch/CatchFakeit.hpp
@@ -92,7 +92,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index c34924a..fc8fb86 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -1250,7 +1250,7 @@ namespace fakeit {
 
         virtual ~CatchFakeit() = default;
 
-        CatchFakeit() : _formatter(), _catchAdapter(_formatter) {}
+        CatchFakeit() : _formatter(), _catchAdapter(*this) {}
 
         static CatchFakeit &getInstance() {
             static CatchFakeit instance;
-- 
2.43.0


From ca033600ffabb8dc4c4427e705aa616ec00a0796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:16 +0000
Subject: [PATCH 08/10] fix: do not leak matchers when copying an expected
 value throws

---
 include/fakeit/MethodMockingContext.hpp | 9 ++++++++-
 single_header/boost/fakeit.hpp          | 9 ++++++++-
 single_header/catch/fakeit.hpp          | 9 ++++++++-
 single_header/cute/fakeit.hpp           | 9 ++++++++-
 single_header/doctest/fakeit.hpp        | 9 ++++++++-
 single_header/gtest/fakeit.hpp          | 9 ++++++++-
 single_header/mettle/fakeit.hpp         | 9 ++++++++-
 single_header/mstest/fakeit.hpp         | 9 ++++++++-
 single_header/nunit/fakeit.hpp          | 9 ++++++++-
 single_header/qtest/fakeit.hpp          | 9 ++++++++-
 single_header/standalone/fakeit.hpp     | 9 ++++++++-
 single_header/tpunit/fakeit.hpp         | 9 ++++++++-
 12 files changed, 96 insertions(+), 12 deletions(-)

diff --git a/include/fakeit/MethodMockingContext.hpp b/include/fakeit/MethodMockingContext.hpp
index bf1db0b..af4cc32 100644
--- a/include/fakeit/MethodMockingContext.hpp
+++ b/include/fakeit/MethodMockingContext.hpp
@@ -257,7 +257,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+                // copying an expected value failed. delete the matchers created so far.
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 7c80733..80b8151 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -8437,7 +8437,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index fc8fb86..843936c 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -8475,7 +8475,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 05b5446..603942e 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -8402,7 +8402,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index d757cb2..65c1e48 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -8430,7 +8430,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index d9423b3..5d1488c 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -8402,7 +8402,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 620eec3..15728cc 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -8424,7 +8424,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 33636ce..8d03305 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -8426,7 +8426,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 852f5d2..246419e 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -8409,7 +8409,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index da526bc..51ed1d3 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -8410,7 +8410,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 2843d44..80312fe 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -8478,7 +8478,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index db276d7..f8d5fbd 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -8461,7 +8461,14 @@ namespace fakeit {
             std::vector<Destructible *> matchers;
 
             MatchersCollector<0, arglist...> c(matchers);
-            c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            try {
+                c.CollectMatchers(std::forward<matcherCreators>(matcherCreator)...);
+            } catch (...) {
+
+                for (Destructible *matcher : matchers)
+                    delete matcher;
+                throw;
+            }
 
             MethodMockingContext<R, arglist...>::setMatchingCriteria(matchers);
         }
-- 
2.43.0


From cf13108a5066a5c72ef7f8ec8856fd0431fdecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:32 +0000
Subject: [PATCH 09/10] fix: destroy a stubbed data member before stubbing it
 again

---
 include/mockutils/DynamicProxy.hpp  | 21 +++++++++++++++++++--
 single_header/boost/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/catch/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/cute/fakeit.hpp       | 21 +++++++++++++++++++--
 single_header/doctest/fakeit.hpp    | 21 +++++++++++++++++++--
 single_header/gtest/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/mettle/fakeit.hpp     | 21 +++++++++++++++++++--
 single_header/mstest/fakeit.hpp     | 21 +++++++++++++++++++--
 single_header/nunit/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/qtest/fakeit.hpp      | 21 +++++++++++++++++++--
 single_header/standalone/fakeit.hpp | 21 +++++++++++++++++++--
 single_header/tpunit/fakeit.hpp     | 21 +++++++++++++++++++--
 12 files changed, 228 insertions(+), 24 deletions(-)

diff --git a/include/mockutils/DynamicProxy.hpp b/include/mockutils/DynamicProxy.hpp
index f7cea28..067f023 100644
--- a/include/mockutils/DynamicProxy.hpp
+++ b/include/mockutils/DynamicProxy.hpp
@@ -153,6 +153,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+            // if the member is already stubbed, its current object must be destroyed first.
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -188,8 +195,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -202,6 +214,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -211,7 +228,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
         //
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 80b8151..7cd6251 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -6134,6 +6134,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6169,8 +6176,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6183,6 +6195,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6192,7 +6209,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 843936c..43752fb 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -6172,6 +6172,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6207,8 +6214,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6221,6 +6233,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6230,7 +6247,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 603942e..6b4ae55 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -6099,6 +6099,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6134,8 +6141,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6148,6 +6160,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6157,7 +6174,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 65c1e48..8789de4 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -6127,6 +6127,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6162,8 +6169,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6176,6 +6188,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6185,7 +6202,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index 5d1488c..af016de 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -6099,6 +6099,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6134,8 +6141,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6148,6 +6160,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6157,7 +6174,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 15728cc..1962798 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -6121,6 +6121,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6156,8 +6163,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6170,6 +6182,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6179,7 +6196,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index 8d03305..cf90a34 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -6123,6 +6123,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6158,8 +6165,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6172,6 +6184,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6181,7 +6198,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 246419e..9926a83 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -6106,6 +6106,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6141,8 +6148,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6155,6 +6167,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6164,7 +6181,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 51ed1d3..28fef4a 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -6107,6 +6107,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6142,8 +6149,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6156,6 +6168,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6165,7 +6182,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 80312fe..9bce4cc 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -6175,6 +6175,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6210,8 +6217,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6224,6 +6236,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6233,7 +6250,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index f8d5fbd..5a625cd 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -6158,6 +6158,13 @@ namespace fakeit {
             DataType C::*theMember = (DataType C::*) member;
             C &mock = get();
             DataType *memberPtr = &(mock.*theMember);
+
+            for (auto it = _members.begin(); it != _members.end(); ++it) {
+                if ((*it)->getAddress() == memberPtr) {
+                    _members.erase(it);
+                    break;
+                }
+            }
             _members.push_back(
                     std::shared_ptr<DataMemeberWrapper < DataType, arglist...> >
                     {new DataMemeberWrapper < DataType, arglist...>(memberPtr,
@@ -6193,8 +6200,13 @@ namespace fakeit {
 
     private:
 
+        class DataMember : public Destructible {
+        public:
+            virtual const volatile void *getAddress() const = 0;
+        };
+
         template<typename DataType, typename ... arglist>
-        class DataMemeberWrapper : public Destructible {
+        class DataMemeberWrapper : public DataMember {
         private:
             DataType *dataMember;
         public:
@@ -6207,6 +6219,11 @@ namespace fakeit {
             {
                 dataMember->~DataType();
             }
+
+            const volatile void *getAddress() const override
+            {
+                return dataMember;
+            }
         };
 
         static_assert(sizeof(C) == sizeof(FakeObject<C, baseclasses...>), "This is a problem");
@@ -6216,7 +6233,7 @@ namespace fakeit {
         VirtualTable<C, baseclasses...> _cloneVt;
 
         std::vector<std::shared_ptr<Destructible>> _methodMocks;
-        std::vector<std::shared_ptr<Destructible>> _members;
+        std::vector<std::shared_ptr<DataMember>> _members;
         std::vector<unsigned int> _offsets;
         InvocationHandlers _invocationHandlers;
 
-- 
2.43.0


From d033652dad47fb3219f8592cb7c203cafb4fe606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:22:53 +0000
Subject: [PATCH 10/10] fix: a bool thrown by user code no longer decides a
 verification used as a condition

---
 .../fakeit/SequenceVerificationProgress.hpp    |  4 ++--
 include/fakeit/ThrowFalseEventHandler.hpp      | 10 ++++++++--
 ...yNoOtherInvocationsVerificationProgress.hpp |  4 ++--
 single_header/boost/fakeit.hpp                 | 18 ++++++++++++------
 single_header/catch/fakeit.hpp                 | 18 ++++++++++++------
 single_header/cute/fakeit.hpp                  | 18 ++++++++++++------
 single_header/doctest/fakeit.hpp               | 18 ++++++++++++------
 single_header/gtest/fakeit.hpp                 | 18 ++++++++++++------
 single_header/mettle/fakeit.hpp                | 18 ++++++++++++------
 single_header/mstest/fakeit.hpp                | 18 ++++++++++++------
 single_header/nunit/fakeit.hpp                 | 18 ++++++++++++------
 single_header/qtest/fakeit.hpp                 | 18 ++++++++++++------
 single_header/standalone/fakeit.hpp            | 18 ++++++++++++------
 single_header/tpunit/fakeit.hpp                | 18 ++++++++++++------
 14 files changed, 144 insertions(+), 72 deletions(-)

diff --git a/include/fakeit/SequenceVerificationProgress.hpp b/include/fakeit/SequenceVerificationProgress.hpp
index a93fe4a..5854e54 100644
--- a/include/fakeit/SequenceVerificationProgress.hpp
+++ b/include/fakeit/SequenceVerificationProgress.hpp
@@ -45,8 +45,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
diff --git a/include/fakeit/ThrowFalseEventHandler.hpp b/include/fakeit/ThrowFalseEventHandler.hpp
index 27cbc1d..265f56f 100644
--- a/include/fakeit/ThrowFalseEventHandler.hpp
+++ b/include/fakeit/ThrowFalseEventHandler.hpp
@@ -7,13 +7,19 @@
 
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+        // Has its own type so it is not confused with what user code throws.
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
diff --git a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
index d8a8014..11c0bc0 100644
--- a/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
+++ b/include/fakeit/VerifyNoOtherInvocationsVerificationProgress.hpp
@@ -101,8 +101,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/boost/fakeit.hpp b/single_header/boost/fakeit.hpp
index 7cd6251..72f594b 100644
--- a/single_header/boost/fakeit.hpp
+++ b/single_header/boost/fakeit.hpp
@@ -9610,13 +9610,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9673,8 +9679,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9938,8 +9944,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/catch/fakeit.hpp b/single_header/catch/fakeit.hpp
index 43752fb..cd49251 100644
--- a/single_header/catch/fakeit.hpp
+++ b/single_header/catch/fakeit.hpp
@@ -9648,13 +9648,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9697,8 +9703,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9962,8 +9968,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/cute/fakeit.hpp b/single_header/cute/fakeit.hpp
index 6b4ae55..02b398a 100644
--- a/single_header/cute/fakeit.hpp
+++ b/single_header/cute/fakeit.hpp
@@ -9575,13 +9575,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9638,8 +9644,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9903,8 +9909,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/doctest/fakeit.hpp b/single_header/doctest/fakeit.hpp
index 8789de4..9b83fc3 100644
--- a/single_header/doctest/fakeit.hpp
+++ b/single_header/doctest/fakeit.hpp
@@ -9603,13 +9603,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9652,8 +9658,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9917,8 +9923,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/gtest/fakeit.hpp b/single_header/gtest/fakeit.hpp
index af016de..b3bc287 100644
--- a/single_header/gtest/fakeit.hpp
+++ b/single_header/gtest/fakeit.hpp
@@ -9575,13 +9575,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9638,8 +9644,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9903,8 +9909,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/mettle/fakeit.hpp b/single_header/mettle/fakeit.hpp
index 1962798..77c8172 100644
--- a/single_header/mettle/fakeit.hpp
+++ b/single_header/mettle/fakeit.hpp
@@ -9597,13 +9597,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9646,8 +9652,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9911,8 +9917,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/mstest/fakeit.hpp b/single_header/mstest/fakeit.hpp
index cf90a34..d61a095 100644
--- a/single_header/mstest/fakeit.hpp
+++ b/single_header/mstest/fakeit.hpp
@@ -9599,13 +9599,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9662,8 +9668,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9927,8 +9933,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/nunit/fakeit.hpp b/single_header/nunit/fakeit.hpp
index 9926a83..a04cfd1 100644
--- a/single_header/nunit/fakeit.hpp
+++ b/single_header/nunit/fakeit.hpp
@@ -9582,13 +9582,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9645,8 +9651,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9910,8 +9916,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/qtest/fakeit.hpp b/single_header/qtest/fakeit.hpp
index 28fef4a..ff2c587 100644
--- a/single_header/qtest/fakeit.hpp
+++ b/single_header/qtest/fakeit.hpp
@@ -9583,13 +9583,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9646,8 +9652,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9911,8 +9917,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/standalone/fakeit.hpp b/single_header/standalone/fakeit.hpp
index 9bce4cc..1a49f95 100644
--- a/single_header/standalone/fakeit.hpp
+++ b/single_header/standalone/fakeit.hpp
@@ -9651,13 +9651,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9700,8 +9706,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9965,8 +9971,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
diff --git a/single_header/tpunit/fakeit.hpp b/single_header/tpunit/fakeit.hpp
index 5a625cd..56fcb27 100644
--- a/single_header/tpunit/fakeit.hpp
+++ b/single_header/tpunit/fakeit.hpp
@@ -9634,13 +9634,19 @@ namespace fakeit {
 }
 namespace fakeit {
     class ThrowFalseEventHandler : public VerificationEventHandler {
+    public:
+
+        struct VerificationFailed {
+        };
+
+    private:
 
         void handle(const SequenceVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
 
         void handle(const NoMoreInvocationsVerificationEvent &) override {
-            throw false;
+            throw VerificationFailed();
         }
     };
 }
@@ -9683,8 +9689,8 @@ namespace fakeit {
                     _expectationPtr->VerifyExpectation(eh);
                     return true;
                 }
-                catch (bool e) {
-                    return e;
+                catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                    return false;
                 }
             }
 
@@ -9948,8 +9954,8 @@ namespace fakeit {
                 _ptr->VerifyExpectation(ev);
                 return true;
             }
-            catch (bool e) {
-                return e;
+            catch (const ThrowFalseEventHandler::VerificationFailed &) {
+                return false;
             }
         }
 
-- 
2.43.0

