#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})

prop("C01", "Fuzzy dictionary lookup is exact: complete, sound, best error",
 "Looking a query up in a dictionary index with a maximum error returns every inserted word whose weighted edit distance to the query is at most that maximum, each exactly once, with precisely that distance as its error, and no other word. "
 "The distance is the cheapest sequence of insertions, deletions, substitutions and adjacent transpositions under the configured non-negative costs, including the separate costs for word letters skipped before the query starts and after it ends (substring mode). "
 "Matches are listed in order of non-decreasing error.",
 ["inputs", "configurations"],
 "for every dictionary, query, cost configuration with non-negative costs and maximum error",
 "levindex/levtrie check about a dozen hand-picked word pairs, nearly all with default costs; the guarantee is over every dictionary x query x cost table, where a wrong pruning rule or matrix cell only shows for particular combinations.",
 ["src/LevenshteinIndex.cc", "src/ErrorMatrix.cc", "src/IndexMatches.cc", "src/Trie.cc", "include/ErrorValues.hh"],
 [("depth-first dynamic programming over the trie with row pruning", "LevenshteinIndex::findWords / searchNode / findOptimalError"),
  ("cost rows", "ErrorMatrix"), ("ordering of matches", "IndexMatches::sort")],
 ["LevenshteinIndex::findWords", "IndexMatches::getMatch/getMatchError"])

prop("C02", "Substitution costs form a consistent, symmetric table",
 "The cost of substituting two letters is symmetric, zero for equal letters, and otherwise the cost last set for that pair, else the cost of the error group that contains both letters, else the default, independent of the letters' code points and of the order in which the entries were made. "
 "Clearing restores the defaults, a refused error group (one that claims an already grouped letter) changes nothing, and keyboard and number pad presets give the same cost to physically adjacent keys in every direction.",
 ["inputs", "histories"],
 "for every history of setError/setGroupError/preset/clear calls and every pair of letters",
 "error_values samples a few Latin letters after one or two settings; fast-table and slow-path agreement, override order and refused groups depend on call history and on code points the tests never combine.",
 ["src/ErrorValues.cc", "include/ErrorValues.hh"],
 [("small-letter lookup table", "ErrorValues::addToLUT / clearLUT"), ("slow path", "ErrorValues::substituteErrorSlow"),
  ("preset adjacency", "ErrorValues::addKeyboardErrors / addNumberpadErrors")],
 ["ErrorValues::getSubstituteError", "ErrorValues::isInGroup"])

prop("C03", "Ranked search returns exactly the relevant documents with right scores",
 "A search returns exactly the documents that have, in some searchable field, an indexed word within the allowed error of some query word (one default error for query words shorter than two letters and two otherwise, or two always when the dynamic error is off), each once. "
 "A document's relevancy is the sum, over its distinct matched (field, word) pairs, of 100/(100+smallest error) x (1 - occurrences of the word in the field's index/(occurrences of the field's commonest word + 1)) x the field's weight, and results come in non-increasing relevancy.",
 ["inputs", "configurations", "histories"],
 "for every set of indexed documents, field weights, error configuration and query",
 "matcher tests index two to five documents and mostly assert which document comes first; scores, multi-field accumulation, repeated words, best-error-per-word selection and large collections are not pinned.",
 ["src/Matcher.cc", "src/MatchResults.cc", "src/SearchParameters.cc", "src/IndexWeights.cc"],
 [("candidate gathering", "Matcher: matchIndexes/addMatches/gatherMatchedDocuments"), ("scoring", "Matcher: calculateRelevancy"), ("reverse index", "ReverseIndex")],
 ["Matcher::match"])

prop("C04", "Result filters and non-searchable fields select exactly",
 "A filtered search returns exactly those results of the unfiltered search, with unchanged relevancies, that satisfy at least one filter term, where a term is satisfied when for each of its (field, word) subterms the document holds that exact word in that field, so an empty term accepts everything. "
 "Fields marked non-searchable never contribute matches but can still be used in filters.",
 ["inputs", "configurations"],
 "for every indexed collection, query, filter (any number of terms and subterms, known or unknown fields and words) and set of non-searchable fields",
 "filtering covers three documents and four fixed filters; the or-of-ands semantics, unknown names and interaction with non-searchable fields are not quantified.",
 ["src/Matcher.cc", "src/ResultFilter.cc", "src/SearchParameters.cc"],
 [("filtering", "Matcher::match / subtermsMatch"), ("terms", "ResultFilter"), ("excluded fields", "SearchParameters::isNonsearchingField")],
 ["Matcher::match(query, SearchParameters)"])

prop("C05", "Indexing is incremental and order-free; searching changes nothing",
 "What a matcher answers depends only on the collection of documents indexed into it: indexing them in one corpus or several, in any order, interleaved with searches or not, gives the same documents with the same relevancies. "
 "Searching (filtered or not, successful or not) has no lasting effect: repeating a search gives an identical result list, and later searches are unaffected by earlier ones.",
 ["histories", "inputs"],
 "for every history of index and search calls and every permutation and partition of the same documents",
 "no existing test indexes the same data along two histories and compares, and only one indexes twice.",
 ["src/Matcher.cc", "src/WordStore.cc", "src/LevenshteinIndex.cc"],
 [("index building", "Matcher::buildIndexes"), ("word ids", "WordStore::getID")],
 ["Matcher::index", "Matcher::match", "Matcher::onlineMatch"])

prop("C06", "Online matching adds exact-word and perfect-match bonuses correctly",
 "Online matching returns every document the default search returns plus every document whose primary field holds a query word exactly, scored as the default relevancy (0 if not found by it) plus 2 for each query word present in the document's primary field, plus 100 when the primary field's text consists of exactly the query's words in any order. "
 "A primary field name that was never seen while indexing is refused with an invalid-argument error.",
 ["inputs", "configurations"],
 "for every indexed collection, query without repeated words and primary field",
 "one matcher test checks the first result for two queries; bonus arithmetic, merging of exact and fuzzy hits, and error configurations in which the exact word is filtered out are not covered.",
 ["src/Matcher.cc"],
 [("exact counting", "Matcher: countExacts"), ("merge", "Matcher::onlineMatch")],
 ["Matcher::onlineMatch"])

prop("C07", "Words hold exactly the lower-cased text given, or refuse it cleanly",
 "Constructing a word from text accepts exactly well-formed UTF-8 without whitespace and otherwise throws, never crashing; constructing one from letters accepts exactly sequences without whitespace or null letters (one final null is a terminator) and with properly paired surrogates. "
 "An accepted word holds the letters of its input (lower-cased letter by letter when built from text), and converting it back to UTF-8 yields that text in full, both as a string and into any buffer, into which nothing is ever written outside the stated size and an output with its terminator that does not fit is refused.",
 ["inputs"],
 "for every byte string, letter sequence and buffer size",
 "word tests a handful of strings; malformed UTF-8, lone and repeated surrogates, boundary buffer sizes and long texts are an unbounded input space.",
 ["src/Word.cc", "src/ColumbusHelpers.cc", "include/ColumbusCore.hh.in"],
 [("decoding and folding", "utf8ToInternal"), ("encoding", "internalToUtf8"), ("validation", "Word::hasWhitespace / hasBrokenSurrogates")],
 ["Word constructors", "Word::asUtf8/toUtf8/operator[]/length"])

prop("C08", "Words are proper values: comparison laws, copies, joins, assignment",
 "Word equality and ordering agree with letter-by-letter comparison of contents (a strict total order, shorter prefix first), equal words have equal hashes, and join concatenates. "
 "Copies are independent, moved-from words are empty and can be used again, self-assignment keeps the value, and an assignment that throws leaves a usable word, so that any history of these operations agrees with plain letter strings.",
 ["histories", "inputs"],
 "for every history of word constructions, copies, moves, assignments (including refused ones) and joins",
 "word tests each operator once on short ASCII words; aliasing, failed assignment and the order laws quantify over histories and triples of values.",
 ["src/Word.cc"],
 [("ownership", "Word::duplicateFrom / operator="), ("comparison", "Word::operator== / operator<"), ("hash", "Word::hash")],
 ["Word public interface"])

prop("C09", "Splitting text yields exactly its maximal separator-free runs",
 "Splitting a text returns, in order, one word for each maximal run of bytes between separators (space, tab, newline and carriage return for whitespace splitting, or the given ASCII separators) and nothing else, whatever the number, position or mix of separators. "
 "A text with an ill-formed run (or, for other separators, a run containing whitespace) is refused with an exception.",
 ["inputs"],
 "for every text and every set of ASCII separators",
 "helpers/wordlist split a few fixed sentences; run lengths, buffer growth and separators at either end form an unbounded space.",
 ["src/ColumbusHelpers.cc"],
 [("splitting", "split / splitToWords / isWhitespace")],
 ["splitToWords", "split", "isWhitespace"])

prop("C10", "The word store is a growing bijection between words and dense ids",
 "Asking for a word's id returns the same id for equal words and different ids for different words, ids are handed out densely from zero in first-seen order, and the id maps back to exactly that word for as long as the store lives, however large it grows. "
 "Membership answers (by word and by id) are true exactly for what was registered, asking about membership registers nothing, and an unknown id is refused with an out-of-range error.",
 ["histories", "inputs"],
 "for every history of registrations and look-ups, including dictionaries that force the backing storage to grow repeatedly",
 "wordstore/trie register three words; collisions of prefixes, storage growth at particular offsets and unusual words are never reached.",
 ["src/WordStore.cc", "src/Trie.cc"],
 [("trie storage and growth", "Trie::append / expand"), ("reverse mapping", "Trie::getWord")],
 ["WordStore::getID/getWord/hasWord"])

prop("C11", "Dictionary index membership and counters match its insert history",
 "After any history of insertions an index reports as present exactly the (non-empty) words inserted, counts for each id how often it was inserted (zero for others), reports the largest such count, the number of distinct words, and as node count one more than the number of distinct non-empty prefixes of its words. "
 "Inserting an empty word changes nothing, and searching changes none of these. The word statistics count for each id how often it was processed (zero for others).",
 ["histories", "inputs"],
 "for every history of insertions, with repeats and shared prefixes, of any size",
 "levindex/levtrie insert at most five words and look at one counter at a time.",
 ["src/LevenshteinIndex.cc", "src/Trie.cc", "src/MatcherStatistics.cc"],
 [("counting", "LevenshteinIndex::insertWord, MatcherStatistics::wordProcessed"), ("storage", "Trie::insertWord / findWord")],
 ["LevenshteinIndex::hasWord/wordCount/maxCount/numWords/numNodes"])

prop("C12", "Documents, corpora and word lists behave as independent values",
 "Word lists, documents and corpora behave like plain sequences, field-to-text maps and sequences of documents: contents, sizes, counts and field names always match what was added (re-adding a field replaces its text), and out-of-range or missing-field access is refused with an exception. "
 "Copies are deep: a later change to, or the end of life of, either side never shows in the other, and assignment works in any order including self-assignment and assignment to a moved-from list.",
 ["histories"],
 "for every history of additions, copies, moves, assignments, destructions and queries",
 "wordlist/document/corpus check fixed sequences of three to six calls.",
 ["src/WordList.cc", "src/Document.cc", "src/Corpus.cc"],
 [("value semantics", "WordList / Document copy and assignment"), ("field map", "Document::addText")],
 ["WordList, Document, Corpus public interfaces"])

prop("C13", "Result lists are stably sorted and lose, duplicate or mix nothing",
 "A result list always shows exactly the (document, relevancy) pairs added or copied into it, in non-increasing relevancy, with results of equal relevancy in the order in which they were added, however often and whenever it is read. "
 "Copying the i-th result of another list appends the pair that list shows at position i; copies and assignments (also to moved-from lists) are independent, and out-of-range access is refused with an exception.",
 ["histories"],
 "for every history of add, merge, copy-result, copy, move, assign and read operations on several lists",
 "matchresults adds three results in fixed orders; copying from a list that was not yet read, ties and aliasing need generated histories.",
 ["src/MatchResults.cc"],
 [("lazy sorting", "MatchResults::sortIfRequired"), ("copying", "MatchResults::copyResult / addResults")],
 ["MatchResults public interface"])

prop("C14", "The C interface mirrors the C++ one and never lets an error escape",
 "Every C function gives the same observable result as the corresponding C++ operation on the same history: lengths, texts, document ids, match counts, result ids and relevancies, weights and error presets. "
 "Where the C++ operation throws, the C function returns its documented failure value (null, 0, invalid id, -1.0 for relevancy, 1.0 for a weight) without letting an exception out and the handles stay usable.",
 ["histories", "inputs"],
 "for every history of C API calls with valid handles and arbitrary strings, ids and indices",
 "capi.c calls each function once or twice and never compares values such as relevancies with the C++ side.",
 ["src/ColumbusCAPI.cc", "include/columbus.h"],
 [("wrappers", "col_* functions")],
 ["col_* functions"])

prop("C15", "The Python module behaves like the C++ library it binds",
 "For any program using the Python module, words, word lists, documents, corpora, weights, error values and searches give the values the C++ library defines, errors surface as Python exceptions rather than crashes, and Unicode text round-trips in lower case. "
 "Objects obtained from other objects stay valid and keep their value for as long as Python holds them, regardless of later changes to, or the garbage collection of, where they came from.",
 ["histories", "inputs"],
 "for every Python program built from the module's classes and functions",
 "pythontest.py checks about twenty fixed calls; reference lifetimes, conversions of arbitrary text and numbers and agreement with the engine's results are not quantified.",
 ["python/columbus.cc", "src/Matcher.cc", "src/WordList.cc", "src/Document.cc"],
 [("bindings and call policies", "python/columbus.cc")],
 ["the columbus Python module"])

prop("C16", "No memory error, abort or leak for any history of valid calls",
 "Any history of public API calls, including ones whose arguments are refused with exceptions, executes without out-of-bounds access, use after free, undefined behaviour, assertion failure, crash or hang. "
 "When all objects are gone everything they acquired is released: heap memory, file descriptors and memory mappings return to their earlier level.",
 ["histories", "inputs"],
 "for every history of public API calls and every argument, well-formed or not",
 "the tests run without sanitizers, look at no resource counters and take few error paths.",
 ["src/Trie.cc", "src/Word.cc", "src/ColumbusHelpers.cc", "src/Matcher.cc", "src/ErrorMatrix.cc", "src/MatchResults.cc", "src/ErrorValues.cc"],
 [("resource ownership", "constructors/destructors"), ("storage mapping", "Trie::expand / ~Trie"), ("buffers", "split / utf8ToInternal / internalToUtf8")],
 ["sanitizer reports", "heap, descriptor and mapping counters"])

prop("C17", "Accent data is found, read whole, and maps letters to their variants",
 "Loading accent errors reads the data file from the directory named by the environment (with or without a trailing slash), or from the built-in one when none is named, and makes exactly the letters on each of its lines mutually substitutable at the group cost; a missing or unreadable file, malformed line or letter on two lines is reported by an exception. "
 "With the shipped data every lower-case accented Latin-1 or Latin Extended-A letter and accented Greek vowel (U+03AC to U+03CE), and every other listed letter, that Unicode decomposes to a plain base letter costs the group cost against that base letter and against its other variants, and the standard errors equal both accent sets plus the keyboard set.",
 ["inputs", "configurations"],
 "for every data file content and directory setting, and for all pairs of letters of the shipped files",
 "error_values spot-checks two or three accented letters of the shipped files from one directory.",
 ["src/ErrorValues.cc", "src/ColumbusSlow.cc", "share/latinAccentedLetterGroups.txt", "share/greekAccentedLetterGroups.txt"],
 [("file lookup", "findDataFile"), ("parsing", "ErrorValues::addAccents")],
 ["ErrorValues::addAccents/addStandardErrors/getSubstituteError"])

prop("C18", "Backing-storage failure is reported and loses nothing already stored",
 "When creating, growing or mapping the backing storage of a dictionary fails at any point, or the storage is as large as it can get, the operation in progress throws a standard exception instead of crashing, everything stored before it remains readable and correct, and nothing is leaked when the object is destroyed. "
 "Once storage is available again the same operation can be retried and succeeds.",
 ["fault_sequences", "histories"],
 "for every history of registrations/insertions/indexing and every placement and kind of storage failure in it",
 "no test injects a failure; each failing call site and its position in a history is a separate case.",
 ["src/Trie.cc", "src/WordStore.cc", "src/LevenshteinIndex.cc"],
 [("creation", "Trie::Trie"), ("growth", "Trie::expand")],
 ["WordStore, LevenshteinIndex"])

prop("C19", "Build options do not change what the library computes",
 "For text in the Basic Multilingual Plane the library computes the same words, ids, distances, matches, relevancies and filters whether letters are 16 or 32 bits wide, whichever hash container is used, and with or without assertions and optimisation.",
 ["configurations", "inputs"],
 "for every API history over such text and every pair of supported build configurations",
 "the suite runs in one configuration only; agreement is a relation between builds that no single run can see.",
 ["include/ColumbusCore.hh.in", "src/Word.cc", "src/Trie.cc", "src/Matcher.cc", "src/ErrorValues.cc", "CMakeLists.txt"],
 [("letter type", "ColumbusCore.hh.in"), ("hash containers", "Matcher.cc / LevenshteinIndex.cc / MatcherStatistics.cc")],
 ["all public classes, compiled per configuration"])

prop("C20", "Search is invariant under case, spacing, word order and renaming",
 "Changing the case of the query or documents, the amount and kind of whitespace, the order or repetition of query words, or consistently renaming document ids leaves the set of found documents and their relevancies unchanged (up to the renaming). "
 "Raising one field's weight never lowers a relevancy and scales exactly that field's contribution.",
 ["inputs"],
 "for every collection, query and such transformation",
 "tests check a single upper-case query; the relations quantify over all transformed pairs of inputs.",
 ["src/Matcher.cc", "src/ColumbusHelpers.cc", "src/Word.cc", "src/IndexWeights.cc"],
 [("folding", "utf8ToInternal"), ("query processing", "Matcher::match")],
 ["Matcher::match"])

prop("C21", "Separate objects are independent, also across threads",
 "Objects share no hidden state: using several matchers, stores, indexes and error tables interleaved, or concurrently with each used by one thread, gives each the results it would give alone, without data races.",
 ["histories", "schedules"],
 "for every interleaving of operations on distinct objects and every concurrent execution of them on distinct threads",
 "each test uses one object on one thread; hidden shared state only shows with several in flight.",
 ["src/Matcher.cc", "src/ColumbusHelpers.cc", "src/ErrorValues.cc", "src/Trie.cc"],
 [("absence of mutable static state", "src/*.cc")],
 ["Matcher, WordStore, ErrorValues, LevenshteinIndex"])

prop("C22", "Configuration objects report what was set and cannot corrupt memory",
 "Field weights (1 by default), filters, search parameters and error values always read back exactly what was last set, out-of-range filter access is refused with an exception, and setting one entry never changes another. "
 "A value-type configuration object either cannot be copied or copies into an independent one.",
 ["histories"],
 "for every history of configuration calls on several objects",
 "indexweights/searchparameters/filtering read back one or two values.",
 ["src/IndexWeights.cc", "src/ResultFilter.cc", "src/SearchParameters.cc", "src/ErrorValues.cc", "include/IndexWeights.hh", "include/SearchParameters.hh", "include/ErrorValues.hh", "include/Matcher.hh"],
 [("maps", "IndexWeights / ResultFilter / SearchParameters")],
 ["IndexWeights, ResultFilter, SearchParameters, ErrorValues getters"])

prop("C23", "A trie is exactly the walkable prefix tree of its words",
 "After any history of insertions a trie's nodes are the distinct prefixes of the inserted words, one node each: every node's sibling list holds each letter that can follow its prefix exactly once and leads to that child, parent links and sibling look-ups lead back, and a node carries a word's id exactly when its prefix is an inserted word. "
 "Finding a word and reading the word of a node are inverse, finding a string that is no prefix gives no node, word and node counts agree with the tree, a repeated insertion returns the same node, and node handles stay valid however large the trie grows.",
 ["histories", "inputs"],
 "for every history of insertions into any number of tries, of any size",
 "trietest inserts a handful of short words and never walks the tree or grows the storage more than once or twice.",
 ["src/Trie.cc", "include/Trie.hh"],
 [("storage", "Trie::append / expand / addNewNode / addNewSibling"), ("navigation", "Trie::insertWord / findWord / getSiblingTo / getWord")],
 ["the public navigation functions of Trie"])

prop("C24", "Running out of memory is reported, harmless to others and leaks nothing",
 "When a request for memory fails inside any operation, the caller gets a standard exception (in the C interface the failure value where there is one) or the operation succeeds all the same; every other object keeps its value, "
 "the object operated on stays a proper value that can be read, repeated on and destroyed, an addition or setting that failed leaves everything the object held before in place, and repeating the operation once memory is there gives exactly the result it would have given at first. What a word store, dictionary or matcher already held stays findable. "
 "Once all objects are gone, no memory, character converter, descriptor or mapping is left behind, however many operations failed.",
 ["faults", "histories"],
 "for every operation, every point in it at which a request for memory fails, and every history before and after",
 "no test makes an allocation fail; each operation has many failure points and each one leaves a different state.",
 ["src/Word.cc", "src/WordList.cc", "src/Document.cc", "src/Corpus.cc", "src/MatchResults.cc", "src/IndexMatches.cc", "src/ResultFilter.cc", "src/ErrorMatrix.cc", "src/ErrorValues.cc", "src/WordStore.cc", "src/LevenshteinIndex.cc", "src/Matcher.cc", "src/ColumbusHelpers.cc", "src/ColumbusCAPI.cc"],
 [("ownership while copying", "duplicateFrom and the copy constructors"), ("order of changes", "WordStore::getID, ErrorValues::setGroupError, Matcher::addToIndex"), ("conversion buffers", "ColumbusHelpers.cc")],
 ["every public operation of the C++ and C interfaces"])

prop("C25", "The tools show exactly what the library finds in their data",
 "Each program in tools/ reads every line of its data file whatever its length and line end (DOS line ends and a missing last newline included; empty lines hold no document) and shows, for each input given by typing, searching, pressing number pad keys or changing the error limit, exactly the words or documents the library finds with the tool's settings, "
 "each with its own text and error or relevancy, in order of error or relevancy, and their number. (hudtest splits a line at its first '>' into path, weight 0.3, and command; commands with \"Fuzzy Select\" also match \"magnetic lasso\", weight 0.8; sctest searches name, generic name (0.6) and comment (0.3); numberpad, hudtest and sctest search in substring mode.) "
 "Input the library refuses clears what is shown, data it refuses ends the program with a message, nothing crashes, and text that was typed or a file's name is never interpreted by a shell.",
 ["inputs", "histories"],
 "for every data file and every sequence of inputs, for each of the programs",
 "no test runs a tool; the graphical ones cannot even start without a display.",
 ["tools/queryindex.cc", "tools/singleword.cc", "tools/queryapp.cc", "tools/numberpad.cc", "tools/hudtest.cc", "tools/sctest.cc"],
 [("reading the data", "load_data / readData / build_matcher / buildCorpus"), ("showing results", "queryAndPrint / doSearch / updateModel"), ("exact matches", "doExactMatch in numberpad.cc")],
 ["standard output of queryindex; entry, table and labels of the graphical tools after every event"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
