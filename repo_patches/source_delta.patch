From 84ec44f7ac172e8eefc4368257590e1a15b8f6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:17 +0000
Subject: [PATCH 01/26] fix: keep choices in the grid when the first reading is
 deleted

removeAffectedNodes(0) dropped every node of the new first span, including
the one carrying the user's choice, although no node can extend across
location 0.
---
 src/Engine/gramambular2/reading_grid.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/gramambular2/reading_grid.cpp b/src/Engine/gramambular2/reading_grid.cpp
index 65bbd63..a302fbf 100644
--- a/src/Engine/gramambular2/reading_grid.cpp
+++ b/src/Engine/gramambular2/reading_grid.cpp
@@ -372,12 +372,13 @@ void ReadingGrid::removeAffectedNodes(size_t loc) {
   //                XXXXX
   //            XXXXXXXXX
   //
-  if (spans_.empty()) {
+  // No node can start before, and hence extend across, the first location.
+  if (spans_.empty() || loc == 0) {
     return;
   }
   size_t affectedLength = kMaximumSpanLength - 1;
   size_t begin = loc <= affectedLength ? 0 : loc - affectedLength;
-  size_t end = loc >= 1 ? loc - 1 : 0;
+  size_t end = loc - 1;
   for (size_t i = begin; i <= end; ++i) {
     spans_[i].removeNodesOfOrLongerThan(loc - i + 1);
   }
-- 
2.43.0


From 071951d1415f809e4143f13d350e1dd17b426668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 02/26] fix: pin associated phrases at their own readings

The characters of the inserted readings were pinned one place too far, a
prefix that is only part of a longer phrase inserted nothing, and a reading
the language model lacks moved the cursor past the end.
---
 src/KeyHandler.cpp | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 7dff5cb..fe2b902 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -1574,41 +1574,49 @@ void KeyHandler::pinNodeWithAssociatedPhrase(
   // associated phrase.
   Formosa::Gramambular2::ReadingGrid::Candidate prefixCandidate{prefixReading,
                                                                 prefixValue};
-  if (!grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate)) {
-    return;
-  }
-  walk();
+  if (grid_.overrideCandidate(actualPrefixCursorIndex, prefixCandidate)) {
+    walk();
 
-  // Now we've set ourselves up. Because associated phrases require the strict
-  // one-reading-for-one-value rule, we can comfortably count how many readings
-  // we'll need to insert. First, let's move to the end of the newly overridden
-  // phrase.
-  nodeIter =
-      latestWalk_.findNodeAt(actualPrefixCursorIndex, &accumulatedCursor);
+    // Now we've set ourselves up. Because associated phrases require the strict
+    // one-reading-for-one-value rule, we can comfortably count how many
+    // readings we'll need to insert. First, let's move to the end of the newly
+    // overridden phrase.
+    latestWalk_.findNodeAt(actualPrefixCursorIndex, &accumulatedCursor);
+  } else {
+    // The prefix is only a part of a longer phrase, and is not itself in the
+    // language model. Its characters have been pinned one by one by the split
+    // override above, and the prefix ends right after its cursor index.
+    accumulatedCursor = actualPrefixCursorIndex + 1;
+  }
   grid_.setCursor(accumulatedCursor);
 
   // Compute how many more reading do we have to insert.
   std::vector<std::string> associatedPhraseValues =
       McBopomofo::Split(associatedPhraseValue);
 
-  size_t nodeSpanningLength = (*nodeIter)->spanningLength();
+  size_t prefixReadingsSize =
+      AssociatedPhrasesV2::SplitReadings(prefixReading).size();
   std::vector<std::string> splitReadings =
       AssociatedPhrasesV2::SplitReadings(associatedPhraseReading);
   size_t splitReadingsSize = splitReadings.size();
-  if (nodeSpanningLength >= splitReadingsSize) {
+  if (prefixReadingsSize >= splitReadingsSize) {
     // Shouldn't happen
+    walk();
     return;
   }
 
-  for (size_t i = nodeSpanningLength; i < splitReadingsSize; i++) {
-    grid_.insertReading(splitReadings[i]);
-    ++accumulatedCursor;
+  for (size_t i = prefixReadingsSize; i < splitReadingsSize; i++) {
+    if (!grid_.insertReading(splitReadings[i])) {
+      // The language model does not know this reading.
+      break;
+    }
     // For each node, we assign the value of the corresponding phrase.
     // If the phrase is not found in the phrase database, we perform a fallback
     // instead.
     if (i < associatedPhraseValues.size()) {
       grid_.overrideCandidate(accumulatedCursor, associatedPhraseValues[i]);
     }
+    ++accumulatedCursor;
     grid_.setCursor(accumulatedCursor);
   }
 
-- 
2.43.0


From 67e8a0e3b776826b7c7973869734677101ed4262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 03/26] fix: return to the empty state when a feature menu is
 cancelled

---
 src/KeyHandler.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index fe2b902..523be87 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -562,7 +562,8 @@ void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
                                          StateCallback stateCallback) {
-  if (inputMode_ == InputMode::PlainBopomofo) {
+  // The feature menus are shown when nothing is being composed.
+  if (inputMode_ == InputMode::PlainBopomofo || grid_.length() == 0) {
     reset();
     std::unique_ptr<InputStates::EmptyIgnoringPrevious>
         emptyIgnorePreviousState =
-- 
2.43.0


From 3f73ebcb6cb07d39da2aea1e4491844eb7ed0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 04/26] fix: keep the text on display when Shift+Space is hit

An unfinished reading alone was dropped, and in Plain Bopomofo mode the space
was put into the composition and lost with the next syllable.
---
 src/KeyHandler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index 523be87..f50a23c 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -240,12 +240,13 @@ bool KeyHandler::handle(Key key, McBopomofo::InputState* state,
 
   // Shift + Space.
   if (key.ascii == Key::SPACE && key.shiftPressed) {
-    if (putLowercaseLettersToComposingBuffer_) {
+    if (putLowercaseLettersToComposingBuffer_ &&
+        inputMode_ == InputMode::McBopomofo) {
       grid_.insertReading(" ");
       walk();
       stateCallback(buildInputtingState());
     } else {
-      if (grid_.length() != 0) {
+      if (grid_.length() != 0 || !reading_.isEmpty()) {
         auto inputtingState = buildInputtingState();
         // Steal the composingBuffer built by the inputting state.
         auto committingState = std::make_unique<InputStates::Committing>(
-- 
2.43.0


From dc04c2fb9ac621d6419710adb788fd1904ebc60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 05/26] fix: keep what follows the placeholder of a dictionary
 URL

---
 src/DictionaryService.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index 9cf8e18..b186228 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -93,7 +93,10 @@ class HttpBasedDictionaryService : public McBopomofo::DictionaryService {
               const McBopomofo::StateCallback& stateCallback) override {
     std::string url = urlTemplate_;
     std::string encoded = "(encoded)";
-    url.replace(url.find(encoded), url.length(), urlEncode(phrase));
+    size_t pos = url.find(encoded);
+    if (pos != std::string::npos) {
+      url.replace(pos, encoded.length(), urlEncode(phrase));
+    }
     fcitx::startProcess({"xdg-open", url});
     // Since the input method launches a web browser, we just
     // change the state to close the candidate window.
-- 
2.43.0


From d79deb57cc2c48cb10a304df8ff7c5ca6c45497e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 06/26] fix: skip malformed dictionary service entries

---
 src/DictionaryService.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/DictionaryService.cpp b/src/DictionaryService.cpp
index b186228..4a1f4b7 100644
--- a/src/DictionaryService.cpp
+++ b/src/DictionaryService.cpp
@@ -196,14 +196,17 @@ void McBopomofo::DictionaryServices::load() {
     return;
   }
   struct json_object* servicesArray;
-  if (json_object_object_get_ex(json_obj, "services", &servicesArray)) {
+  if (json_object_object_get_ex(json_obj, "services", &servicesArray) &&
+      json_object_is_type(servicesArray, json_type_array)) {
     array_list* list = json_object_get_array(servicesArray);
     for (size_t i = 0; i < array_list_length(list); i++) {
       auto* element = (struct json_object*)array_list_get_idx(list, i);
       struct json_object* name;
       struct json_object* url_template;
       if (json_object_object_get_ex(element, "name", &name) &&
-          json_object_object_get_ex(element, "url_template", &url_template)) {
+          json_object_object_get_ex(element, "url_template", &url_template) &&
+          json_object_is_type(name, json_type_string) &&
+          json_object_is_type(url_template, json_type_string)) {
         std::string name_str = std::string(json_object_get_string(name));
         std::string url_template_str =
             std::string(json_object_get_string(url_template));
-- 
2.43.0


From f11eee9647594c6a111ec12a12ce9e5dbe4dfe8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 07/26] fix: map the keypad 9 to 9

---
 src/McBopomofo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 9d5e77e..134731f 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -155,7 +155,7 @@ static Key MapFcitxKey(const fcitx::Key& key) {
     case FcitxKey_KP_8:
       return Key::asciiKey('8', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_9:
-      return Key::asciiKey('4', shiftPressed, ctrlPressed, true);
+      return Key::asciiKey('9', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Decimal:
       return Key::asciiKey('.', shiftPressed, ctrlPressed, true);
     case FcitxKey_KP_Add:
-- 
2.43.0


From 8d7b40cd0d862d1fbdf9dd537a587751ec0c6385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 08/26] fix: let keys through when CapsLock is on

---
 src/McBopomofo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 134731f..37b2cfc 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -624,9 +624,10 @@ void McBopomofoEngine::keyEvent(const fcitx::InputMethodEntry& /*unused*/,
   fcitx::InputContext* context = keyEvent.inputContext();
   fcitx::Key key = keyEvent.key();
 
+  // The normalized key carries no CapsLock state; only the raw key does.
   if (key.states() & fcitx::KeyState::Alt ||
       key.states() & fcitx::KeyState::Super ||
-      key.states() & fcitx::KeyState::CapsLock) {
+      keyEvent.rawKey().states() & fcitx::KeyState::CapsLock) {
     return;
   }
 
-- 
2.43.0


From ca7f0054072633afe2274a4a15f3e06ede1799e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 09/26] fix: move in vertical lists with the keypad arrows

---
 src/McBopomofo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 37b2cfc..d554227 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -987,12 +987,14 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
   bool isVertical = (layoutHint == fcitx::CandidateLayoutHint::Vertical);
 
   if (isVertical) {
-    if (key.check(fcitx::Key(FcitxKey_Down))) {
+    if (key.check(fcitx::Key(FcitxKey_Down)) ||
+        key.check(fcitx::Key(FcitxKey_KP_Down))) {
       candidateList->toCursorMovable()->nextCandidate();
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
     }
-    if (key.check(fcitx::Key(FcitxKey_Up))) {
+    if (key.check(fcitx::Key(FcitxKey_Up)) ||
+        key.check(fcitx::Key(FcitxKey_KP_Up))) {
       candidateList->toCursorMovable()->prevCandidate();
       context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
       return true;
-- 
2.43.0


From 200434f305662afad7f135a2798d5c3dc16082a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 10/26] fix: read the selected index before the state is
 destroyed

---
 src/McBopomofo.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index d554227..198824e 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -890,6 +890,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* choosing = dynamic_cast<InputStates::ChoosingCandidate*>(previous);
       if (choosing != nullptr) {
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
+        // The callback destroys the current state.
+        size_t index = selecting->selectedCandidateIndex;
         stateCallback(std::move(copy));
 
 #ifdef USE_LEGACY_FCITX5_API
@@ -899,7 +901,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = selecting->selectedCandidateIndex;
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
 #ifndef USE_LEGACY_FCITX5_API
         maybeCandidateList->setPage(static_cast<int>(index) /
@@ -925,6 +926,8 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       auto* inputting = dynamic_cast<InputStates::Inputting*>(previous);
       if (choosing != nullptr) {
         auto copy = std::make_unique<InputStates::ChoosingCandidate>(*choosing);
+        // The callback destroys the current state.
+        size_t index = associatedPhrases->selectedCandidateIndex;
         stateCallback(std::move(copy));
 
 #ifdef USE_LEGACY_FCITX5_API
@@ -934,7 +937,6 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
         auto* maybeCandidateList = dynamic_cast<fcitx::CommonCandidateList*>(
             context->inputPanel().candidateList().get());
 #endif
-        size_t index = associatedPhrases->selectedCandidateIndex;
 #ifndef USE_LEGACY_FCITX5_API
         // Make sure fcitx5 shows the candidate page; needed when page > 0.
         maybeCandidateList->setPage(static_cast<int>(index) /
-- 
2.43.0


From d19a5ae8d0c588e427bf041d90e42bba867cfb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 11/26] fix: look up the highlighted candidate on the last page

---
 src/McBopomofo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 198824e..8a6912b 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -797,7 +797,7 @@ bool McBopomofoEngine::handleCandidateKeyEvent(
       // Enter selecting dictionary service state.
       if (keyHandler_->hasDictionaryServices()) {
         int page = candidateList->currentPage();
-        int pageSize = candidateList->size();
+        int pageSize = candidateList->pageSize();
         int selectedCandidateIndex =
             page * pageSize + candidateList->cursorIndex();
         std::string phrase =
-- 
2.43.0


From a040917f24258f7c1a56dec4f44e714d8484fc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:30 +0000
Subject: [PATCH 12/26] fix: clear the input panel after a focus-out or a reset

---
 src/McBopomofo.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 8a6912b..26a371a 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -505,6 +505,12 @@ void McBopomofoEngine::reloadConfig() {
   fcitx::readAsIni(config_, kConfigPath);
 }
 
+static void clearInputPanel(fcitx::InputContext* context) {
+  context->inputPanel().reset();
+  context->updateUserInterface(fcitx::UserInterfaceComponent::InputPanel);
+  context->updatePreedit();
+}
+
 void McBopomofoEngine::activate(const fcitx::InputMethodEntry& entry,
                                 fcitx::InputContextEvent& event) {
   McBopomofo::InputMode mode = entry.uniqueName() == "mcbopomofo-plain"
@@ -518,6 +524,11 @@ void McBopomofoEngine::activate(const fcitx::InputMethodEntry& entry,
   chttrans();
 
   auto* inputContext = event.inputContext();
+  if (dynamic_cast<InputStates::Empty*>(state_.get()) != nullptr) {
+    // What was force-committed on focus-out may still be on the panel, and it
+    // would be committed again on the next focus-out.
+    clearInputPanel(inputContext);
+  }
   if (auto* action =
           instance_->userInterfaceManager().lookupAction("chttrans")) {
     inputContext->statusArea().addAction(fcitx::StatusGroup::InputMethod,
@@ -606,6 +617,12 @@ void McBopomofoEngine::reset(const fcitx::InputMethodEntry& /*unused*/,
     // commit of existing preedit buffer, resulting in double commit of the same
     // text.
     state_ = std::make_unique<InputStates::Empty>();
+
+    if (event.type() == fcitx::EventType::InputContextReset) {
+      // Nothing is committed here, and so what has been discarded must not
+      // stay on the panel.
+      clearInputPanel(event.inputContext());
+    }
   } else {
     enterNewState(event.inputContext(), std::make_unique<InputStates::Empty>());
   }
-- 
2.43.0


From 6c3020a35bcd1a59ffdf917a6e040fb3582891c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:53 +0000
Subject: [PATCH 13/26] fix: clear the composition after a dictionary lookup
 commits it

---
 src/KeyHandler.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/KeyHandler.cpp b/src/KeyHandler.cpp
index f50a23c..778929c 100644
--- a/src/KeyHandler.cpp
+++ b/src/KeyHandler.cpp
@@ -557,8 +557,15 @@ void KeyHandler::candidateAssociatedPhraseSelected(
 void KeyHandler::dictionaryServiceSelected(std::string phrase, size_t index,
                                            InputState* currentState,
                                            StateCallback stateCallback) {
-  dictionaryServices_->lookup(std::move(phrase), index, currentState,
-                              stateCallback);
+  dictionaryServices_->lookup(
+      std::move(phrase), index, currentState,
+      [this, &stateCallback](std::unique_ptr<InputState> next) {
+        if (dynamic_cast<InputStates::Empty*>(next.get()) != nullptr) {
+          // The text on display is committed, and so it must not come back.
+          reset();
+        }
+        stateCallback(std::move(next));
+      });
 }
 
 void KeyHandler::candidatePanelCancelled(size_t originalCursor,
-- 
2.43.0


From 1568422b16ddf6838b27794680d37cdbc4118cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 14/26] fix: ParselessPhraseDB misses matches when the last
 line is shorter than the key

---
 src/Engine/ParselessPhraseDB.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index 1d49e9f..055b7ec 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -23,6 +23,7 @@
 
 #include "ParselessPhraseDB.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 
@@ -115,13 +116,14 @@ const char* ParselessPhraseDB::findFirstMatchingLine(
     }
 
     // ptr is now in the "current" line we're interested in.
-    if (ptr + key.length() > end_) {
-      // not enough data to compare at this point, bail.
-      break;
+    size_t available = static_cast<size_t>(end_ - ptr);
+    int current_cmp =
+        memcmp(ptr, key.data(), std::min(available, key.length()));
+    if (current_cmp == 0 && available < key.length()) {
+      // The remaining data is a proper prefix of the key, so it sorts first.
+      current_cmp = -1;
     }
 
-    int current_cmp = memcmp(ptr, key.data(), key.length());
-
     if (current_cmp > 0) {
       bottom = mid - 1;
       continue;
-- 
2.43.0


From 44e9b63677d427288e652ec054d389053b22e5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 15/26] fix: findRows with an empty key returns an extra row
 for the end of the data

---
 src/Engine/ParselessPhraseDB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index 055b7ec..379d6d9 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -63,7 +63,7 @@ std::vector<std::string_view> ParselessPhraseDB::findRows(
     return rows;
   }
 
-  while (ptr + key.length() <= end_ &&
+  while (ptr != end_ && ptr + key.length() <= end_ &&
          memcmp(ptr, key.data(), key.length()) == 0) {
     const char* eol = ptr;
 
-- 
2.43.0


From 1b10fc1bf8631c217d852064f112c12625d7e763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 16/26] fix: reverseFindRows misses a match at the very end and
 crosses line ends

---
 src/Engine/ParselessPhraseDB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Engine/ParselessPhraseDB.cpp b/src/Engine/ParselessPhraseDB.cpp
index 379d6d9..a091a07 100644
--- a/src/Engine/ParselessPhraseDB.cpp
+++ b/src/Engine/ParselessPhraseDB.cpp
@@ -173,7 +173,7 @@ std::vector<std::string> ParselessPhraseDB::reverseFindRows(
     const char* ptr = recordBegin;
 
     // skip over the key to find the field separator
-    while (ptr < end_ && *ptr != ' ') {
+    while (ptr < end_ && *ptr != ' ' && *ptr != '\n') {
       ++ptr;
     }
     // skip over the field separator. there should be just one, but loop just in
@@ -188,7 +188,7 @@ std::vector<std::string> ParselessPhraseDB::reverseFindRows(
       ++recordEnd;
     }
 
-    if (ptr + value.length() < end_ &&
+    if (ptr + value.length() <= end_ &&
         memcmp(ptr, value.data(), value.length()) == 0) {
       // prefix match, add entire record to return value
       rows.emplace_back(recordBegin, recordEnd - recordBegin);
-- 
2.43.0


From 703f575b6afcd1a49d594ff7c963e78f2b9e6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 17/26] fix: hasUnigrams reports readings whose only entry is
 an unsupported macro

---
 src/Engine/McBopomofoLM.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Engine/McBopomofoLM.cpp b/src/Engine/McBopomofoLM.cpp
index f498ae3..61a32d0 100644
--- a/src/Engine/McBopomofoLM.cpp
+++ b/src/Engine/McBopomofoLM.cpp
@@ -170,10 +170,11 @@ bool McBopomofoLM::hasUnigrams(const std::string& key) {
     return true;
   }
 
-  if (!excludedPhrases_.hasUnigrams(key)) {
-    return userPhrases_.hasUnigrams(key) || languageModel_.hasUnigrams(key);
+  if (!userPhrases_.hasUnigrams(key) && !languageModel_.hasUnigrams(key)) {
+    return false;
   }
 
+  // Everything found may still be excluded or be an unsupported macro.
   return !getUnigrams(key).empty();
 }
 
-- 
2.43.0


From 69353e274feae18ca37fb83fe9846464d961d0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 18/26] fix: a moved-from MemoryMappedFile reports a bogus
 length

---
 src/Engine/MemoryMappedFile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index d6e8952..1d6c8aa 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -35,7 +35,7 @@ namespace McBopomofo {
 MemoryMappedFile::MemoryMappedFile(MemoryMappedFile&& other) noexcept
     : fd_(std::exchange(other.fd_, -1)),
       data_(std::exchange(other.data_, nullptr)),
-      length_(std::exchange(other.length_, -1)) {}
+      length_(std::exchange(other.length_, 0)) {}
 
 MemoryMappedFile& MemoryMappedFile::operator=(
     MemoryMappedFile&& other) noexcept {
-- 
2.43.0


From 22b32606d08c7ed82ca401f4e3f78db29cd82077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 19/26] fix: MemoryMappedFile treats a failed mmap as success

---
 src/Engine/MemoryMappedFile.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Engine/MemoryMappedFile.cpp b/src/Engine/MemoryMappedFile.cpp
index 1d6c8aa..7070b7c 100644
--- a/src/Engine/MemoryMappedFile.cpp
+++ b/src/Engine/MemoryMappedFile.cpp
@@ -68,7 +68,8 @@ bool MemoryMappedFile::open(const char* path) {
   length_ = static_cast<size_t>(sb.st_size);
 
   data_ = mmap(nullptr, length_, PROT_READ, MAP_SHARED, fd_, 0);
-  if (data_ == nullptr) {
+  if (data_ == MAP_FAILED) {
+    data_ = nullptr;
     ::close(fd_);
     fd_ = -1;
     length_ = 0;
-- 
2.43.0


From 8a299f194c93e3a471ae63c2278f8f9a9f6df105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:43 +0000
Subject: [PATCH 20/26] fix: the user data directory is never created on a
 first start

---
 src/LanguageModelLoader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 51d270d..0dc93af 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -76,7 +76,7 @@ LanguageModelLoader::LanguageModelLoader(
 
   [[maybe_unused]] std::error_code err;
   if (!std::filesystem::exists(userDataPath, err)) {
-    bool result = std::filesystem::create_directory(userDataPath, err);
+    bool result = std::filesystem::create_directories(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
           << "Created fcitx5 user data directory: " << userDataPath;
@@ -88,7 +88,7 @@ LanguageModelLoader::LanguageModelLoader(
   }
 
   userDataPath += "/mcbopomofo";
-  if (!std::filesystem::exists(userDataPath), err) {
+  if (!std::filesystem::exists(userDataPath, err)) {
     bool result = std::filesystem::create_directory(userDataPath, err);
     if (result) {
       FCITX_MCBOPOMOFO_INFO()
-- 
2.43.0


From 7918f1d5e71398d9cee3f7bfaa72e4fdb47ee49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 21/26] fix: phrases of a deleted user or excluded phrase file
 stay in use

---
 src/LanguageModelLoader.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 0dc93af..0ba69b3 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -150,15 +150,14 @@ void LanguageModelLoader::reloadUserModelsIfNeeded() {
   bool shouldReloadUserPhrases = false;
   bool shouldReloadPhrasesReplacement = false;
 
-  if (userPhrasesPath_.pathExists() &&
-      userPhrasesPath_.timestampDifferentFromLastCheck()) {
+  // This also holds when a file has disappeared since the last check.
+  if (userPhrasesPath_.timestampDifferentFromLastCheck()) {
     shouldReloadUserPhrases = true;
     userPhrasesPath_.checkTimestamp();
     FCITX_MCBOPOMOFO_INFO() << "Will load: " << userPhrasesPath_.path();
   }
 
-  if (excludedPhrasesPath_.pathExists() &&
-      excludedPhrasesPath_.timestampDifferentFromLastCheck()) {
+  if (excludedPhrasesPath_.timestampDifferentFromLastCheck()) {
     shouldReloadUserPhrases = true;
     excludedPhrasesPath_.checkTimestamp();
     FCITX_MCBOPOMOFO_INFO() << "Will load: " << excludedPhrasesPath_.path();
-- 
2.43.0


From 8484295aeb94855cfbf6069b1c4bbefaa582689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 22/26] fix: an added user phrase is glued to an unterminated
 last line

---
 src/LanguageModelLoader.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/LanguageModelLoader.cpp b/src/LanguageModelLoader.cpp
index 0ba69b3..a07705f 100644
--- a/src/LanguageModelLoader.cpp
+++ b/src/LanguageModelLoader.cpp
@@ -136,8 +136,21 @@ void LanguageModelLoader::addUserPhrase(const std::string_view& reading,
     return;
   }
 
-  // TODO(unassigned): Guard against the case where the last byte is not "\n"?
+  // If the last line is not terminated, do not append to that line.
+  bool needsNewline = false;
+  std::ifstream ifs(userPhrasesPath_.path(),
+                    std::ios_base::binary | std::ios_base::ate);
+  if (ifs && ifs.tellg() > 0) {
+    ifs.seekg(-1, std::ios_base::end);
+    int lastByte = ifs.get();
+    needsNewline = lastByte != '\n' && lastByte != '\r';
+  }
+  ifs.close();
+
   std::ofstream ofs(userPhrasesPath_.path(), std::ios_base::app);
+  if (needsNewline) {
+    ofs << "\n";
+  }
   ofs << phrase << " " << reading << "\n";
   ofs.close();
 
-- 
2.43.0


From e9b2d9155762e3262973ba149e363eacd219de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:06 +0000
Subject: [PATCH 23/26] fix: editing a user phrase or replacement file in place
 corrupts the loaded phrases

---
 src/Engine/PhraseReplacementMap.cpp | 5 ++---
 src/Engine/PhraseReplacementMap.h   | 3 ++-
 src/Engine/UserPhrasesLM.cpp        | 6 +++---
 src/Engine/UserPhrasesLM.h          | 3 ++-
 4 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/Engine/PhraseReplacementMap.cpp b/src/Engine/PhraseReplacementMap.cpp
index 9a4739a..d3f0a41 100644
--- a/src/Engine/PhraseReplacementMap.cpp
+++ b/src/Engine/PhraseReplacementMap.cpp
@@ -57,7 +57,7 @@ bool PhraseReplacementMap::load(const char* data, size_t length) {
   KeyValueBlobReader reader(data, length);
   KeyValueBlobReader::KeyValue keyValue;
   while (reader.Next(&keyValue) == KeyValueBlobReader::State::HAS_PAIR) {
-    keyValueMap_[keyValue.key] = keyValue.value;
+    keyValueMap_[std::string(keyValue.key)] = std::string(keyValue.value);
   }
   return true;
 }
@@ -65,8 +65,7 @@ bool PhraseReplacementMap::load(const char* data, size_t length) {
 std::string PhraseReplacementMap::valueForKey(const std::string& key) const {
   auto iter = keyValueMap_.find(key);
   if (iter != keyValueMap_.end()) {
-    const std::string_view& v = iter->second;
-    return std::string(v);
+    return iter->second;
   }
   return {};
 }
diff --git a/src/Engine/PhraseReplacementMap.h b/src/Engine/PhraseReplacementMap.h
index 1d2ce7b..ce15df4 100644
--- a/src/Engine/PhraseReplacementMap.h
+++ b/src/Engine/PhraseReplacementMap.h
@@ -50,7 +50,8 @@ class PhraseReplacementMap {
   std::string valueForKey(const std::string& key) const;
 
  protected:
-  std::map<std::string_view, std::string_view> keyValueMap_;
+  // These are copies, since the content of the mapped file may change.
+  std::map<std::string, std::string> keyValueMap_;
   MemoryMappedFile mmapedFile_;
 };
 
diff --git a/src/Engine/UserPhrasesLM.cpp b/src/Engine/UserPhrasesLM.cpp
index 7d6e57f..8e45d11 100644
--- a/src/Engine/UserPhrasesLM.cpp
+++ b/src/Engine/UserPhrasesLM.cpp
@@ -63,7 +63,7 @@ bool UserPhrasesLM::load(const char* data, size_t length) {
     // is the phrase (value) and the second column is the Bopofomo reading. The
     // KeyValueBlobReader::KeyValue's value is the second column, that's why
     // it's used as the key of the keyRowMap here.
-    keyRowMap[keyValue.value].emplace_back(keyValue.key);
+    keyRowMap[std::string(keyValue.value)].emplace_back(keyValue.key);
   }
   return true;
 }
@@ -73,9 +73,9 @@ UserPhrasesLM::getUnigrams(const std::string& key) {
   std::vector<Formosa::Gramambular2::LanguageModel::Unigram> v;
   auto iter = keyRowMap.find(key);
   if (iter != keyRowMap.end()) {
-    const std::vector<std::string_view>& values = iter->second;
+    const std::vector<std::string>& values = iter->second;
     for (const auto& value : values) {
-      v.emplace_back(std::string(value), kUserUnigramScore);
+      v.emplace_back(value, kUserUnigramScore);
     }
   }
 
diff --git a/src/Engine/UserPhrasesLM.h b/src/Engine/UserPhrasesLM.h
index e58e048..0e295df 100644
--- a/src/Engine/UserPhrasesLM.h
+++ b/src/Engine/UserPhrasesLM.h
@@ -58,7 +58,8 @@ class UserPhrasesLM : public Formosa::Gramambular2::LanguageModel {
 
  protected:
   MemoryMappedFile mmapedFile_;
-  std::map<std::string_view, std::vector<std::string_view>> keyRowMap;
+  // These are copies, since the content of the mapped file may change.
+  std::map<std::string, std::vector<std::string>> keyRowMap;
 };
 
 }  // namespace McBopomofo
-- 
2.43.0


From 94e0bef32a68f1dcd4f20eed5513b405e0d70e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 24/26] fix: BopomofoSyllable::FromComposedString reads past
 the end of truncated text

---
 src/Engine/Mandarin/Mandarin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Engine/Mandarin/Mandarin.cpp b/src/Engine/Mandarin/Mandarin.cpp
index e5a8152..df7acd2 100644
--- a/src/Engine/Mandarin/Mandarin.cpp
+++ b/src/Engine/Mandarin/Mandarin.cpp
@@ -603,7 +603,8 @@ const BPMF BPMF::FromComposedString(const std::string& str) {
     }
     // NOLINTEND(readability-magic-numbers)
 
-    if (iter + (utf8_length - 1) == str.end()) {
+    // Truncated.
+    if (str.end() - iter < utf8_length) {
       break;
     }
 
-- 
2.43.0


From 89bdf5dd66c875872d35ff8a760fd04646bebd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:10 +0000
Subject: [PATCH 25/26] fix: leaving the Pinyin layout keeps the reading buffer
 in Pinyin mode

---
 src/Engine/Mandarin/Mandarin.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Engine/Mandarin/Mandarin.h b/src/Engine/Mandarin/Mandarin.h
index b797e0a..d9af63f 100644
--- a/src/Engine/Mandarin/Mandarin.h
+++ b/src/Engine/Mandarin/Mandarin.h
@@ -375,9 +375,11 @@ class BopomofoReadingBuffer {
   void setKeyboardLayout(const BopomofoKeyboardLayout* layout) {
     layout_ = layout;
 
-    if (layout == BopomofoKeyboardLayout::HanyuPinyinLayout()) {
-      pinyin_mode_ = true;
-      pinyin_sequence_ = "";
+    bool pinyin_mode = layout == BopomofoKeyboardLayout::HanyuPinyinLayout();
+    if (pinyin_mode_ != pinyin_mode) {
+      // Pinyin letters and Bopomofo components cannot be carried over.
+      pinyin_mode_ = pinyin_mode;
+      clear();
     }
   }
 
-- 
2.43.0


From c4868e5cf7f140fd1ff049799e5503c23e825dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 26/26] fix: the number of selection keys is ignored

---
 src/McBopomofo.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/McBopomofo.cpp b/src/McBopomofo.cpp
index 26a371a..88f9665 100644
--- a/src/McBopomofo.cpp
+++ b/src/McBopomofo.cpp
@@ -1289,6 +1289,13 @@ void McBopomofoEngine::handleCandidatesState(fcitx::InputContext* context,
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_8);
       numpadSelectionKeys_.emplace_back(FcitxKey_KP_9);
     }
+    auto count = static_cast<size_t>(config_.selectionKeysCount.value());
+    if (selectionKeys_.size() > count) {
+      selectionKeys_.resize(count);
+    }
+    if (numpadSelectionKeys_.size() > count) {
+      numpadSelectionKeys_.resize(count);
+    }
     candidateList->setSelectionKey(selectionKeys_);
     candidateList->setPageSize(static_cast<int>(selectionKeys_.size()));
   }
-- 
2.43.0

