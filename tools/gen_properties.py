#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
E = "src/Engine/"
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

GRID = [E + "gramambular2/reading_grid.cpp", E + "gramambular2/reading_grid.h"]
KH = ["src/KeyHandler.cpp", "src/KeyHandler.h", "src/InputState.h"]
NOKH = ("No passing test reaches the key handler at all (its test binary needs a data file that is absent), "
        "and the property quantifies over every key history.")

prop("C01", "The composition offers exactly the phrases its readings have",
     "After any history of typing, deleting, cursor moves and choices, the composition holds, for every run of one to six consecutive readings, exactly the phrases the language model lists for that run: none missing, none left over from readings that were deleted or separated. A reading that has no phrase of its own is refused and leaves the composition unchanged.",
     ["histories", "inputs"], "every sequence of insert / delete-before / delete-after / cursor / choose operations over every language model",
     "The grid tests replay a handful of fixed edit scripts; the set of lattice cells after an arbitrary interleaving of insertions, deletions and cursor moves is never compared with the language model.",
     GRID, [("ReadingGrid::insertReading / deleteReading*Cursor / update / removeAffectedNodes", E + "gramambular2/reading_grid.cpp")],
     [("readings, cursor, spans of nodes", "the lattice", "ReadingGrid")], ["ReadingGrid public API: readings, candidatesAt, walk"])
prop("C02", "The conversion covers all readings and no better segmentation exists",
     "Whatever was typed, edited and chosen, the conversion splits the readings into consecutive phrases that cover every reading exactly once, and no other split into available phrases has a higher total score (an explicitly chosen phrase counting with its raised score). Each phrase shows its top-ranked value unless another value was chosen for it.",
     ["histories", "inputs"], "every edit history and every assignment of scores",
     "Tests walk a few sentences with one dictionary and compare with the expected sentence; optimality over all segmentations and all override combinations is not checked.",
     GRID, [("ReadingGrid::walk: topological sort and relaxation", E + "gramambular2/reading_grid.cpp")],
     observe=["ReadingGrid::walk result"])
prop("C03", "A chosen candidate stays until it is overwritten or its readings change",
     "Once a candidate has been chosen for some readings, the conversion keeps showing that value for those readings through any later typing, deletion, cursor movement or choice elsewhere. It is only given up when a later choice covers one of the same readings, or when a reading is inserted strictly inside it or one of its own readings is deleted.",
     ["histories"], "every interleaving of choices with edits before, after, inside and next to the chosen phrase",
     "Tests choose candidates in a fixed text and look at it right away; they do not vary where later edits happen (for example deleting the very first reading in front of a chosen phrase).",
     GRID, [("ReadingGrid::overrideCandidate resets overlapping nodes only; expandGridAt / shrinkGridAt drop only nodes that span the edit point", E + "gramambular2/reading_grid.cpp")],
     observe=["ReadingGrid::walk result after every operation"])
prop("C04", "The candidate list is complete, ordered, and every entry is selectable",
     "The candidates offered at a place are exactly all values of all available phrases that cover that place, longer phrases before shorter ones and by descending score within a phrase. Choosing any listed candidate makes precisely that value (with that reading) show up at that place, while an unlisted one is refused without effect; a choice by value alone succeeds exactly when some covering phrase has that value.",
     ["histories", "inputs"], "every lattice reachable by edits, every location, every listed and unlisted candidate",
     "Tests inspect candidate lists of two sentences and choose a few named candidates.",
     GRID, [("ReadingGrid::candidatesAt, overrideCandidate", E + "gramambular2/reading_grid.cpp")],
     observe=["ReadingGrid::candidatesAt, overrideCandidate, walk"])
prop("C05", "Displayed text and cursor always agree with what was typed",
     "After every key the composing text is the current conversion with the unfinished syllable inserted at the cursor, the reported cursor is on a character boundary of that text at the place that corresponds to the reading cursor, and the whole state is a function of the key history (typing a syllable, choosing, deleting and moving have exactly their documented effect). A cursor that falls inside a phrase with fewer characters than syllables is shown with a notice naming the two syllables around it.",
     ["histories", "inputs", "configurations"], "every key sequence in every setting of the options, over phrases whose character count equals, exceeds or falls short of their syllable count",
     NOKH, KH, [("KeyHandler::handle, getComposedString, buildInputtingState", "src/KeyHandler.cpp")],
     observe=["states passed to the state callback; KeyHandler public accessors"])
prop("C06", "Text is committed exactly once and never silently lost",
     "The text delivered to the application is exactly what was on display when the user confirmed it, in order, once: confirming commits the displayed text and leaves nothing behind, and an upper-case letter, Shift+Space or the feature menu key first delivers the pending text and then its own output. Pending text is dropped only by an explicit cancel or by deleting it, and after a commit or a cancel the next composition starts from nothing.",
     ["histories", "configurations"], "every key history and option setting, including commits triggered by letters, spaces, menus, and cancels in every state",
     NOKH, KH + ["src/McBopomofo.cpp"], [("Committing / EmptyIgnoringPrevious / Empty transitions, KeyHandler::reset", "src/KeyHandler.cpp"), ("McBopomofoEngine::enterNewState", "src/McBopomofo.cpp")],
     observe=["ledger of committed strings versus displayed text"])
prop("C07", "Keys are consumed while composing and passed through when idle",
     "When nothing is being composed, a key that does not start a composition (navigation, delete, Enter, Esc, Tab, unknown keys) is not consumed and changes nothing, so that the application receives it. While something is being composed every key is consumed, with the documented exceptions of Ctrl+Enter when that feature is off and of Ctrl combinations for which there is no punctuation, and an impossible action signals an error without changing the text.",
     ["histories", "configurations", "inputs"], "every key in every reachable state and option setting",
     NOKH, KH, [("KeyHandler::handle return values and error callback", "src/KeyHandler.cpp")],
     observe=["return value of the key handler, states and errors it reports"])
prop("C08", "Deletion and cursor keys edit exactly one reading at the cursor",
     "With no unfinished syllable, Backspace removes exactly the reading before the cursor and Delete exactly the one after it, Left/Right move by one reading and Home/End to the ends, all refusing at the edges; with an unfinished syllable Backspace removes its last component and the other editing keys are refused. When the last reading or component disappears the composition ends without committing anything.",
     ["histories", "inputs"], "every composition, cursor position and unfinished syllable",
     NOKH, KH, [("handleDeleteKeys, handleCursorKeys", "src/KeyHandler.cpp")], observe=["composing text, cursor and readings before and after the key"])
prop("C09", "Choosing or cancelling a candidate affects only what it should",
     "Opening the candidate list changes neither text nor readings; choosing a candidate shows it at that place and puts the cursor back, or after the chosen phrase when so configured; cancelling keeps the text and restores the cursor from before the list was opened (or leaves it where it was moved with the list open). Tab and Shift+Tab step through the same candidates in order, wrapping around, as if each were chosen in turn.",
     ["histories", "configurations"], "every composition, cursor position, candidate, and combination of the before/after-cursor and move-cursor options",
     NOKH, KH, [("buildChoosingCandidateState, candidateSelected, candidatePanelCancelled, pinNode, handleTabKey", "src/KeyHandler.cpp")],
     observe=["state callback sequence"])
prop("C10", "Marking selects exactly the readings it shows and adds exactly that phrase",
     "While marking, the text is always head + marked + tail for the readings between the anchor and the cursor, and the mark is acceptable exactly when it spans two to six readings and the phrase is not already known. Confirming an acceptable mark adds exactly the marked text with exactly the marked readings, once, and returns to composing the same text; confirming any other mark adds nothing.",
     ["histories", "inputs"], "every anchor, cursor movement and text, with phrases shorter or longer than their readings",
     NOKH, KH, [("buildMarkingState, handleCursorKeys, the Enter branch of handle", "src/KeyHandler.cpp")],
     observe=["Marking states, calls to the user phrase adder"])
prop("C11", "Inserting an associated phrase leaves the surrounding text alone",
     "The associated phrases offered are exactly those that extend a suffix of the phrase ending at the cursor, longest matching suffix first, each text once and only as far as the language model has its readings. Accepting one makes that phrase appear at the place of its prefix with the cursor after it, and the text before the prefix and after the cursor keeps its readings and, as far as phrases elsewhere were chosen or are single characters split off the prefix's phrase, its characters.",
     ["histories", "inputs"], "every composition, cursor position inside or at the end of a phrase, associated phrase table, including phrases or readings unknown to the language model",
     NOKH, KH, [("handleAssociatedPhrases, buildAssociatedPhrasesState, pinNodeWithAssociatedPhrase", "src/KeyHandler.cpp")],
     observe=["AssociatedPhrases states, composing text after selection"])
prop("C12", "Plain Bopomofo commits one character per syllable and keeps no text",
     "In plain mode a completed syllable or punctuation with one candidate is committed at once and one with several opens a candidate list; selecting commits exactly that candidate, cancelling commits nothing, and typing the next syllable commits the highlighted candidate first and then starts the new one. Nothing stays in the composition after a commit, nothing is learnt, and the follow-up list, when enabled, offers exactly the remainders of the associated phrases.",
     ["histories", "configurations"], "every key history in plain mode",
     NOKH, KH, [("PlainBopomofo branches of handle, candidateSelected, handleCandidateKeyForTraditionalBopomofoIfRequired, buildAssociatedPhrasesPlainState", "src/KeyHandler.cpp")],
     observe=["state callback sequence in plain mode"])
prop("C13", "Number input accepts only numbers and commits the right numeral",
     "In number entry only digits (and one decimal point after a digit, where decimals are allowed) up to the length limit are accepted, deletion removes the last one, Esc leaves without committing, and anything else is refused without effect. Confirming commits exactly the Chinese lower-case, financial or Suzhou numeral of the entered number, or the enclosed number, and confirming an empty entry commits nothing.",
     ["inputs", "histories"], "every key history in each number mode; every integer and decimal part up to the length limit",
     "The numeral tests sample about twenty numbers; zeros across four-digit groups, leading zeros and long decimals are unbounded, and the entry dialogue itself is reached by no passing test.",
     KH + ["src/ChineseNumbers/ChineseNumbers.cpp", "src/ChineseNumbers/SuzhouNumbers.cpp", "src/ChineseNumbers/StringUtils.h"],
     [("handleChineseNumber, handleEnclosingNumber", "src/KeyHandler.cpp"), ("ChineseNumbers::Generate, SuzhouNumbers::Generate", "src/ChineseNumbers")],
     observe=["number states and committed text"])
prop("C14", "Choices are learnt per context, bounded, and decay",
     "A choice is remembered for the context it was made in (the phrase and up to two phrases before it, punctuation counting as a sentence start) and is suggested exactly when that context recurs, the suggestion being the value with the highest frequency weighted by recency. Memory is bounded: beyond the capacity the least recently observed context is forgotten, nothing is learnt from phrases of more than three readings, and choices older than about twenty half-lives are not suggested.",
     ["histories"], "every sequence of observations and queries with arbitrary timestamps, contexts and capacities",
     "Tests observe one or two keys once or twice; eviction order, mixed ages and frequencies, and context formation from arbitrary walks are not covered.",
     [E + "UserOverrideModel.cpp", E + "UserOverrideModel.h", "src/KeyHandler.cpp"], [("UserOverrideModel::observe / suggest, LRU list and map", E + "UserOverrideModel.cpp")],
     [("lruList, lruMap", "contexts in order of recency", "UserOverrideModel")], ["suggest results"])
prop("C15", "Punctuation, letters and menu keys produce their configured output",
     "A punctuation key inserts the entry for its exact class: Ctrl variants first, then half-width for the layout and generic half-width when enabled, then the layout's own and finally the generic one, with nothing inserted while a syllable is unfinished. The symbol-list key offers that list, capital letters (when no candidate list is open) go to the application or, as lower-case letters, into the text according to the option, and Ctrl+Enter outputs the readings or ruby markup of the whole composition.",
     ["inputs", "configurations", "histories"], "every key, modifier, layout and width setting in every composition",
     NOKH, KH, [("handlePunctuation and its callers, getHTMLRubyText", "src/KeyHandler.cpp")], observe=["state callback sequence"])

prop("E01", "The candidate window always selects what it shows",
     "Paging, cursor and selection keys (including keypad digits and shifted digits for associated phrases) act on the candidates of the page on display: a selection key picks exactly the entry at that position and selects nothing beyond the end, Enter and dictionary lookup act on the highlighted entry. Leaving a lookup or an associated phrase list returns to the same list at the same entry, and leaving the list itself never commits anything.",
     ["histories", "configurations", "inputs"], "every key history with the window open, page counts including a short last page, all selection-key and layout settings",
     "No test instantiates the input method engine; page arithmetic and object lifetimes across state changes depend on the key history.",
     ["src/McBopomofo.cpp", "src/McBopomofo.h", "src/DictionaryService.cpp"], [("handleCandidateKeyEvent, handleCandidatesState", "src/McBopomofo.cpp")],
     observe=["fcitx input panel (candidate list, page, cursor), committed strings"])
prop("E02", "Focus changes, resets and mode switches neither lose nor duplicate text",
     "When a composition is interrupted by a focus change or reset, the engine itself commits nothing (the framework delivers the pre-edit once), and when it is interrupted by switching input methods the pending text is committed exactly once. Afterwards the engine is idle, no pre-edit or candidates of the old composition are shown when the context is next in use, and the next key starts a fresh composition.",
     ["histories", "schedules"], "every interruption point in every state",
     "No test instantiates the input method engine.",
     ["src/McBopomofo.cpp"], [("McBopomofoEngine::reset, activate, enterNewState, handleEmptyState", "src/McBopomofo.cpp")],
     observe=["committed strings, pre-edit"])
prop("E03", "Every physical key is interpreted as the key it is",
     "Each framework key event is handled as the character or function it denotes: digits and operators of the keypad act as those digits and operators, navigation and deletion keys keep their meaning on both blocks, and Shift/Ctrl are honoured. Key releases and Alt, Super or Caps Lock combinations are left to the application, and the pre-edit shown always equals the composing text with its cursor.",
     ["inputs", "histories"], "every key symbol with every modifier set in each state of the engine",
     "No test maps a framework key; the mapping has about fifty cases.",
     ["src/McBopomofo.cpp", "src/Key.h"], [("MapFcitxKey, keyEvent, updatePreedit", "src/McBopomofo.cpp")], observe=["engine output for framework key events"])

prop("K01", "Every setting is kept, takes effect when it should, and changes nothing else",
     "Changing some settings changes exactly those and leaves the text being typed alone; all of them are stored, are still there after a restart, and a missing or unreadable value means the documented default. Each one (keyboard layout, selection keys and their number, candidate side, cursor movement after selection, J/K, Esc, Shift+letter, Ctrl+Enter, half-width punctuation, associated phrases, list layout, hook script, editor) is in effect from the next activation on, those of the candidate window from the next list on. The two switches of the status menu take effect at once and flip only their own setting, the menu shows their current state, a notifier is told it, and in McBopomofo mode it opens the user's files with the configured program.",
     ["histories", "configurations", "fault_sequences"], "every interleaving of setting changes, menu actions, edits of the configuration file, restarts, focus changes and keys",
     "No test instantiates the engine or its configuration; which setting is in effect depends on the history of changes and activations.",
     ["src/McBopomofo.cpp", "src/McBopomofo.h"], [("McBopomofoEngine::activate, setConfig, reloadConfig, handleCandidatesState, the four status actions", "src/McBopomofo.cpp")],
     observe=["stored and current configuration, status menu, processes started, behaviour of every later key"])
prop("L01", "User, excluded, replaced and built-in phrases merge as documented",
     "For every reading the phrases offered are the user's phrases followed by the built-in ones, minus excluded ones, after replacement, macro expansion and conversion, without duplicate values; single-syllable user phrases are scored just above the best built-in one still offered and longer ones at the top. A reading is reported as known exactly when that list is not empty.",
     ["inputs", "configurations", "histories"], "every combination of user, excluded, replacement and built-in entries and every enabled feature",
     "The tests check one or two readings per feature; combinations (excluded after replacement, duplicates created by conversion, unsupported macros as the only entry) are not reached.",
     [E + "McBopomofoLM.cpp", E + "McBopomofoLM.h", E + "ParselessLM.cpp", E + "UserPhrasesLM.cpp", E + "PhraseReplacementMap.cpp"],
     [("McBopomofoLM::getUnigrams / hasUnigrams / filterAndTransformUnigrams", E + "McBopomofoLM.cpp")], observe=["getUnigrams, hasUnigrams"])
prop("L02", "User dictionary files are followed, and added phrases are durable",
     "A phrase the user adds is appended, as a line of its own, to the existing user file without disturbing what is already there and is offered from then on, also after a restart. External changes to the user, excluded and replacement files, deletion included, take effect at the next check and not before, the replacement feature being active exactly while its file exists, and missing files and directories are created on a first start.",
     ["histories", "fault_sequences"], "every sequence of additions, external edits, deletions and re-creations of each file, checks and restarts",
     "No test runs the loader; the outcome depends on the history of file operations between checks.",
     ["src/LanguageModelLoader.cpp", "src/LanguageModelLoader.h", "src/TimestampedPath.cpp", E + "UserPhrasesLM.cpp", E + "PhraseReplacementMap.cpp"],
     [("LanguageModelLoader::addUserPhrase, reloadUserModelsIfNeeded, populateUserDataFilesIfNeeded", "src/LanguageModelLoader.cpp")],
     observe=["file contents; unigrams offered by the loader's language model"])
prop("L03", "Dictionary lookup finds exactly the matching lines",
     "For any sorted dictionary file, looking up a key returns exactly the non-blank lines that begin with it, in file order, and reports absence exactly when there is none, for keys before, between, inside and after all entries, with or without a final newline. The readings found for a value are exactly those of the lines carrying it.",
     ["inputs"], "every sorted file content (including empty, one-line, unterminated and short last lines) and every key",
     "Tests look up a few keys in three tiny tables; the boundary arithmetic of the binary search depends on line lengths and positions.",
     [E + "ParselessPhraseDB.cpp", E + "ParselessPhraseDB.h", E + "ParselessLM.cpp"], [("ParselessPhraseDB::findFirstMatchingLine / findRows / reverseFindRows", E + "ParselessPhraseDB.cpp")],
     observe=["findRows, reverseFindRows, getUnigrams, hasUnigrams, getReadings"])
prop("L04", "User-editable files are parsed line by line without surprises",
     "Reading a user file yields exactly the first two blank-separated words of every line that is neither blank nor a comment, in order, whatever mixture of spaces, tabs and line endings is used, and stops with an error at the first line that has only one word. A NUL byte ends the file, and no content, including truncated or binary content, makes it read outside the file or loop.",
     ["inputs"], "every byte sequence",
     "Tests feed about twenty short literals.",
     [E + "KeyValueBlobReader.cpp", E + "KeyValueBlobReader.h", E + "UserPhrasesLM.cpp", E + "PhraseReplacementMap.cpp"], [("KeyValueBlobReader::Next", E + "KeyValueBlobReader.cpp")],
     observe=["sequence of states and pairs"])
prop("L05", "Associated phrase lookup returns exactly the true continuations",
     "For a phrase and its readings the lookup returns exactly the entries of the table that start with that phrase read that way and are longer than it, best score first, each once. Splitting and recombining readings are inverse to each other.",
     ["inputs"], "every table and prefix, including prefixes with several readings per character and entries that share characters but not readings",
     "Tests query five prefixes of one table.",
     [E + "AssociatedPhrasesV2.cpp", E + "AssociatedPhrasesV2.h"], [("AssociatedPhrasesV2::findPhrases", E + "AssociatedPhrasesV2.cpp")], observe=["findPhrases"])
prop("L06", "Files are opened, replaced and closed without stale or invalid data",
     "Opening succeeds exactly for readable, non-empty regular files, failing leaves the object closed, closing or re-opening leaves no data of the previous file visible, and moving transfers the contents once. No operation leaves a descriptor or mapping behind or closes a descriptor that is not its own. The change detector reports a change exactly when the file's timestamp differs from the one recorded at the last check, appearance and disappearance included.",
     ["histories", "fault_sequences"], "every sequence of open / close / move / reopen on existing, missing, empty and directory paths, and of checks interleaved with file changes",
     "Tests open two fixed files; failure paths and sequences of operations are hardly covered.",
     [E + "MemoryMappedFile.cpp", E + "MemoryMappedFile.h", "src/TimestampedPath.cpp", E + "ParselessLM.cpp", E + "UserPhrasesLM.cpp"], [("MemoryMappedFile::open / close / move, TimestampedPath::checkTimestamp", E + "MemoryMappedFile.cpp")],
     observe=["open results, data, length, timestamp answers"])

prop("M01", "Every keyboard layout composes every syllable it can spell",
     "For each Bopomofo layout, typing the keys of any syllable in order yields exactly that syllable (or, where keys are shared, one of the syllables written with the same keys), and where keys are not shared a typed component replaces the earlier component of the same kind. For Pinyin input every valid syllable spelling with an optional tone yields the corresponding syllable, and the printed form of a syllable parses back to it.",
     ["inputs", "configurations"], "all valid syllables and all key sequences up to a length, in all six layouts",
     "Tests try about twenty syllables in four layouts.",
     [E + "Mandarin/Mandarin.cpp", E + "Mandarin/Mandarin.h"], [("BopomofoKeyboardLayout::syllableFromKeySequence / keySequenceFromSyllable, BopomofoSyllable::FromHanyuPinyin / FromComposedString", E + "Mandarin")],
     observe=["reading buffer contents after each key"])
prop("M02", "The unfinished syllable behaves as an editable buffer under every layout switch",
     "The unfinished syllable only accepts keys of the active layout, Backspace removes its last component (the last key where components share keys, the last letter in Pinyin), clearing empties it, and it reports emptiness, tone marks and text consistently with its content. Switching the layout takes full effect for the next key in either direction, including to and from Pinyin, and leaves a consistent buffer.",
     ["histories", "configurations"], "every sequence of keys, backspaces, clears and layout switches",
     "Tests never switch layouts and never mix deletion with typing in all layouts.",
     [E + "Mandarin/Mandarin.h", E + "Mandarin/Mandarin.cpp"], [("BopomofoReadingBuffer", E + "Mandarin/Mandarin.h")], observe=["reading buffer accessors"])
prop("D01", "Dictionary lookups open the configured page for exactly the chosen phrase",
     "The lookup menu lists character information followed by exactly the configured services in order. Choosing a service opens its address with the phrase, percent-encoded as UTF-8, in place of the placeholder and the rest of the address intact, and choosing character information shows the phrase's own data; an absent, malformed or partial configuration never prevents input from working.",
     ["inputs", "configurations", "fault_sequences"], "every phrase, service table and menu index",
     "No test covers dictionary services.",
     ["src/DictionaryService.cpp", "src/DictionaryService.h", "data/dictionary_service.json"], [("DictionaryServices::load / lookup / menuForPhrase, urlEncode", "src/DictionaryService.cpp")],
     observe=["menu texts; the command line handed to the URL opener (a recording stand-in)"])
prop("I01", "Date and time macros expand to the right calendar values",
     "Each date macro expands to the value of the current, previous or next day or year it names in the calendar it names: dates, Minguo and western years, weekday names, sexagenary year and zodiac animal, also across month, year and leap-day boundaries. Text that is not a macro is returned unchanged.",
     ["inputs", "schedules"], "every macro at every day and second from 1900 to 2199, in time zones whose calendar skips no day",
     "No test covers the macros; they depend on the clock.",
     ["src/InputMacro.cpp", "src/InputMacro.h", "src/InputState.cpp"], [("InputMacroController::handle and the macro classes", "src/InputMacro.cpp")],
     observe=["macro expansion under a controlled clock"])
prop("T01", "Text is counted and cut at character boundaries for any bytes",
     "For any byte string, counting, cutting to a number of characters and splitting agree with UTF-8: exactly the well-formed characters up to the first byte that cannot belong to one are counted, a cut never falls inside a character, and the pieces of a split put together are that same text. No content makes these functions read outside the string or loop.",
     ["inputs"], "every byte string: overlong forms, surrogates, truncated and stray bytes included",
     "Tests try about fifteen literals.",
     [E + "UTF8Helper.cpp", E + "UTF8Helper.h"], [("CodePointCount, SubstringToCodePoints, GetCodePoint, Split", E + "UTF8Helper.cpp")],
     observe=["results of the four functions"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
