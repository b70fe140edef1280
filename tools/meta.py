#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note, level="exploration"):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=[dict(name=n, where=w) for n, w in mechanism], observe=observe, technique=technique, note=note, level=level))

prop("C01", "Plain-text tokenization is lossless",
 "Concatenating the tokens of any text, in order, gives back exactly the bytes of that text, including white space, control characters and invalid UTF-8. This holds for a string and for a reader, however the reader chunks its data, and for every way of consuming the stream.",
 ["inputs", "configurations"], "all byte strings (without a word over the 64 KiB limit), all chunkings by the reader, all consuming methods",
 "The tests tokenize a handful of short, valid texts from readers that deliver everything at once; loss depends on rare characters, invalid bytes and where a read happens to end.",
 ["tokenizer.go", "tokenstream.go", "token.go"], [("scanner loop which turns every segment into a token", "tokenizer.go"), ("cached tokens for common single characters", "token.go")],
 ["Tokenize", "TokenizeString", "Next/Scan/String/WriteTo/ToSlice"],
 "runtime monitor: byte-identity oracle over observed token streams, instrumented readers",
 "Byte identity, checked online on each execution; all code points and all short strings over a hostile alphabet are enumerated, the rest is sampled.")

prop("C02", "Token boundaries are Unicode word boundaries, whatever the chunking",
 "The tokens of a text are exactly its Unicode (UAX #29) word segments, none of them empty. The result depends on the text alone: a string, and a reader delivering the same bytes in pieces of any size, yield the same tokens.",
 ["inputs", "configurations"], "all texts, all chunkings and buffer boundaries of the reader",
 "The tests check single examples read in one piece; a boundary decision which depends on lookahead goes wrong only when a read ends at that very byte.",
 ["tokenizer.go"], [("uax29 words scanner fed by the reader", "tokenizer.go"), ("buffering which does not let the scanner decide before it has seen what follows", "tokenizer.go")],
 ["Tokenize", "TokenizeString"],
 "runtime monitor: differential oracle (whole-text segmentation) over enumerated and random chunkings",
 "Trusts the pinned uax29 module's whole-text segmentation as the standard; chunk splits of short texts are enumerated, those of long texts sampled around buffer sizes.")

prop("C03", "Tokens are classified by their characters",
 "A token is reported as space exactly when all of its characters are white space, and as punctuation exactly when all are punctuation or line breaks and tabs (so a line break is both). Its value and lemma mark are those it was made with, and two tokens of equal value are classified alike, however they were made (markup aside, whose tokens are always punctuation).",
 ["inputs"], "all strings as token values, both lemma marks",
 "The tests cover a few characters; the classification has a special case per common character, and must agree with the general rule for every code point and mixture.",
 ["token.go", "punct.go", "tokenizer.go"], [("classification in the token constructor", "token.go"), ("cache of common tokens", "token.go")],
 ["NewToken", "IsPunct/IsSpace/IsLemma/String"],
 "runtime monitor: reference classification over all code points, pairs and observed streams",
 "Every code point alone is enumerated; longer values are sampled.")

prop("C04", "HTML tokenization is verbatim, with markup whole and text segmented",
 "Concatenating the tokens of any HTML document gives back exactly its bytes. Each tag, comment and doctype is a single token classified as punctuation; text between tags is segmented like plain text; the body of a script or style element is a single token, and text after it is segmented again.",
 ["inputs", "configurations"], "all documents, well-formed or not, and all chunkings",
 "The tests use one small document; losses come from entities, letter case, attribute quoting, unterminated markup and raw-text elements.",
 ["tokenizer_html.go"], [("x/net/html tokenizer, raw bytes of each token", "tokenizer_html.go"), ("switch between markup, raw text and text nodes", "tokenizer_html.go")],
 ["TokenizeHTML"],
 "runtime monitor: byte-identity and structural reference oracle over generated and mutated documents",
 "Trusts x/net/html for what is markup. The body after a self-closing script tag may be one token or segmented.")

prop("C05", "Errors of the input are never swallowed",
 "If the reader or an upstream stream fails, the consumer sees that error, through every tokenizer, filter and consuming method, and never a clean end of data. What came out before the error is a prefix of what would have come out without it; the plain tokenizer first delivers everything that was read.",
 ["fault_sequences", "inputs", "configurations"], "every position at which the input can fail, every filter, view and chain, every consuming method, every kind of error",
 "No test injects a failing reader into the filters; each filter and method has its own path by which an error can be lost.",
 ["tokenstream.go", "tokenizer.go", "tokenizer_html.go", "filters/synonyms/filter.go", "filters/sigil/filter.go", "filters/contractions/filter.go", "filters/mapper/filter.go"],
 [("error returned by next functions", "tokenstream.go and each filter"), ("Err after Scan", "tokenstream.go"), ("scanner error at the end of the text", "tokenizer.go")],
 ["Next/Scan+Err/ToSlice/String/WriteTo/Count"],
 "runtime monitor with fault injection: every failure position enumerated per input, prefix and error-identity oracle",
 "For each sampled input every failing position is enumerated; inputs, chains and chunkings are sampled.", "fault_enumeration")

prop("C06", "Streaming: bounded lookahead and memory",
 "Tokens are produced as input arrives: nothing is read until a token is asked for, and each token is available after a bounded number of words beyond it (for the plain tokenizer, a bounded amount of input), through every tokenizer and filter. Memory does not grow with the length of the input (other than for distinct values, when those are asked for) nor with the number of streams used so far, in the library and in the command.",
 ["inputs", "histories"], "all lengths of input, all pipelines, all points of a stream's life",
 "Tests use short inputs, on which reading everything first is indistinguishable from streaming.",
 ["tokenstream.go", "tokenizer.go", "tokenizer_html.go", "filters/synonyms/filter.go", "filters/sigil/filter.go", "tokenqueue/queue.go", "cmd/jargon/main.go"],
 [("pull-based streams", "tokenstream.go"), ("lookahead limited to the longest synonym", "filters/synonyms/filter.go"), ("queues which reuse their space", "tokenqueue/queue.go"), ("buffered reader and writer", "cmd/jargon/main.go")],
 ["reads of an instrumented reader between tokens", "live heap", "peak memory of the command"],
 "runtime monitor: read-ahead and live-heap observation on long and endless inputs",
 "Limits are constants well above what is observed (64 KiB and tens of tokens of lag, megabytes of heap) and well below any accumulation of the inputs used.")

prop("C07", "Consumption contract of a token stream",
 "All ways of consuming a stream agree: stepping, scanning, slicing, counting, joining and writing see the same tokens in the same order, and the number of bytes reported as written is the number written. They may be mixed, each token being delivered exactly once; after the end or an error, a stream stays at its end; a failing or short writer stops the writing and its error is reported.",
 ["histories", "inputs", "fault_sequences"], "all interleavings of consuming methods on all pipelines; all failure points of the writer",
 "Tests exercise each method once on its own; the contract is about mixing them, resuming after the end, and writers which fail part-way.",
 ["tokenstream.go"], [("Next/Scan/Token/Err", "tokenstream.go"), ("ToSlice, String, WriteTo, Count", "tokenstream.go")],
 ["return values of all methods over call histories"],
 "runtime monitor: model-based checking of random call histories on a stream",
 "Call histories are sampled; writer faults are enumerated per sampled text.")

prop("C08", "Selections keep exactly the tokens they promise",
 "Selecting by a predicate, words, lemmas or distinct values yields exactly the matching tokens, unchanged and in order: words are tokens that are neither space nor punctuation, lemmas are tokens marked as such, distinct keeps the first token of each value. Selections compose with each other and with filters in any order.",
 ["inputs", "configurations"], "all token sequences, all predicates and compositions",
 "Tests check one text per selection; order, duplicates and composition need many sequences.",
 ["tokenstream.go"], [("Where, Words, Lemmas, Distinct", "tokenstream.go")], ["tokens selected, by identity"],
 "runtime monitor: reference selection over observed token sequences", "Token identity and order compared on each execution; sequences sampled.")

prop("C09", "Synonyms are replaced leftmost-longest, and nothing else is touched",
 "Given a table of comma-separated synonyms, each run of words in the text which matches a synonym, ignoring case and the ignored characters as configured, is replaced by one lemma token with the canonical term: leftmost first, longest at each place, never across punctuation. All other tokens pass through unchanged and in order.",
 ["inputs", "configurations"], "all tables, ignore settings and texts",
 "Tests use two small tables; overlaps, near misses at the end of the text, ignored characters and long phrases interact.",
 ["filters/synonyms/filter.go", "filters/synonyms/trie/trie.go"], [("lookahead buffer of words", "filters/synonyms/filter.go"), ("longest-match search", "filters/synonyms/trie/trie.go")],
 ["tokens out of the filter"],
 "runtime monitor: independent leftmost-longest reference over dense random tables", "Reference shares no code; tables and texts are sampled, dense enough for overlaps to be common.")

prop("C10", "A synonym filter's behaviour is a function of its table",
 "Two filters built from the same table and settings give the same result on every text, in every process, whatever the order of map iteration. A table which cannot be built makes every use of the filter report the error, on the first use and on all later ones, and never passes tokens through silently.",
 ["configurations", "histories", "inputs"], "all tables including colliding ones, all numbers and orders of uses",
 "A test builds a filter once; map order and the lazily built state show only over repeated builds and uses.",
 ["filters/synonyms/filter.go"], [("lazy, once-only build in a stable order", "filters/synonyms/filter.go"), ("retained build error", "filters/synonyms/filter.go")],
 ["results of many filters built from one table", "errors of successive uses"],
 "runtime monitor: repeated builds compared, histories of uses of failing builds", "Map order is randomized by the runtime; collisions are generated on purpose.")

prop("C11", "Filters can be shared by goroutines",
 "Any number of goroutines may use the shipped filters, and filters built by the caller, at the same time on their own streams, including their very first use and over shared tokens: there is no data race, deadlock or crash. Each stream yields exactly what it would alone.",
 ["schedules", "inputs"], "all interleavings of uses, including first uses",
 "The tests run sequentially, without the race detector.",
 ["filters/synonyms/filter.go", "filters/synonyms/trie/trie.go", "token.go", "tokenstream.go"], [("once-only lazy build", "filters/synonyms/filter.go"), ("per-stream state", "each filter"), ("immutable tokens", "token.go")],
 ["race detector reports", "results per goroutine", "process exit"],
 "race detector over many processes with barrier-started first uses and injected delays; sequential reference oracle",
 "Data races in executed code are found by happens-before, not only when they manifest; interleavings are sampled over processes and GOMAXPROCS.")

prop("C12", "Every shipped Stack Overflow synonym is recognized",
 "Each synonym of the shipped Stack Overflow dictionary, in any letter case and with spaces, hyphens, dots and slashes varied within words, is replaced by its tag when it stands on its own, marked as a lemma. Text which contains no synonym is unchanged.",
 ["inputs", "configurations"], "all dictionary entries, spellings and surroundings",
 "Tests look up a dozen of several thousand entries.",
 ["filters/stackoverflow/filter.go", "filters/stackoverflow/generated.go", "filters/synonyms/filter.go"], [("synonyms filter over the generated table", "filters/stackoverflow/filter.go")],
 ["tokens out of the filter for each entry"],
 "runtime monitor: every dictionary entry exercised, reference table and matcher",
 "The dictionary is enumerated against a copy taken at the pinned commit. Entries which punctuation makes unreachable (such as those with a leading dot) are listed as known findings.")

prop("C13", "Every shipped NBA player is recognized",
 "Each name of the shipped list of players, in any letter case, with or without diacritics, and with spaces, hyphens, dots and apostrophes varied within the name, is replaced by one lemma token with the player's name. Text which contains no player is unchanged.",
 ["inputs", "configurations"], "all players, spellings and surroundings",
 "Tests look up a few of several hundred names.",
 ["filters/nba/filter.go", "filters/nba/generated.go", "filters/synonyms/filter.go"], [("synonyms filter over the generated table", "filters/nba/filter.go")],
 ["tokens out of the filter for each entry"],
 "runtime monitor: every dictionary entry exercised, reference table and matcher",
 "As C12; names with punctuation which breaks a run of words are listed as known findings.")

prop("C14", "Contractions expand, keeping case, and nothing else changes",
 "Each documented contraction, in lower, title, upper or mixed case and with a straight or a typographic apostrophe, expands to the tokens of its expansion in the corresponding case, all marked as lemmas. Every other token passes through unchanged and in order.",
 ["inputs"], "all contractions and casings, all texts",
 "Tests check a few contractions in a few casings.",
 ["filters/contractions/filter.go", "filters/contractions/generated.go"], [("table lookup, then lower-case lookup", "filters/contractions/filter.go"), ("queue of expanded tokens", "filters/contractions/filter.go")],
 ["tokens out of the filter"],
 "runtime monitor: reference expansion, all contractions and casings enumerated", "All entries and casings enumerated; texts sampled.")

prop("C15", "ASCII folding follows Lucene's table and preserves everything else",
 "Folding replaces each character of Lucene's ASCII folding table by its ASCII equivalent, and leaves every other character, including invalid bytes, as it is. A token is marked as a lemma exactly when folding changed it, folding is idempotent, and folding a single string agrees with folding tokens and reports correctly whether anything changed.",
 ["inputs"], "all code points and strings",
 "Tests fold a few dozen characters of over a thousand.",
 ["filters/ascii/filter.go", "filters/ascii/fold.go"], [("folding table", "filters/ascii"), ("fast path for ASCII", "filters/ascii"), ("mapper filter", "filters/mapper/filter.go")],
 ["Fold on streams", "FoldString"],
 "runtime monitor: every code point enumerated against an independent table", "Table taken at the pinned commit, corrected against Lucene; all code points enumerated, strings sampled.")

prop("C16", "Stemmers yield the Snowball stem of each word, one for one",
 "Each stemmer replaces every word by its Snowball stem in that language, as a lemma exactly when it differs, and keeps the word when the stem would be empty. Spaces and punctuation are untouched, and there is one token out for each token in.",
 ["inputs", "configurations"], "all words, texts and shipped languages",
 "Tests stem a few English words; the other languages are not covered.",
 ["filters/stemmer/filter.go", "filters/mapper/filter.go"], [("snowball stemmers wrapped as mappers", "filters/stemmer/filter.go")],
 ["tokens out of the filters"],
 "runtime monitor: reference stemming per token over words, code points and texts", "Trusts the pinned snowball module for the stems.")

prop("C17", "Normalization filters apply their Unicode form to every token",
 "Each of the four normalization filters replaces every token's value by its normal form (NFC, NFD, NFKC or NFKD, as golang.org/x/text computes it), as a lemma exactly when it changed, one for one. Applying a filter twice is the same as once, wherever the library's own form is stable.",
 ["inputs", "configurations"], "all tokens, all four forms",
 "Tests check one string per form.",
 ["filters/norm/filter.go"], [("x/text normalization forms as filters", "filters/norm/filter.go")], ["tokens out of the filters"],
 "runtime monitor: reference normalization per token over all code points and sequences", "Trusts the pinned x/text module for the forms.")

prop("C18", "Stop words are removed, and only those",
 "A stop word filter removes exactly the tokens whose value is one of the stop words, compared with or without regard to case as configured; all other tokens pass unchanged and in order. The filter is independent of later changes by the caller to the list it was built from.",
 ["inputs", "configurations", "histories"], "all stop lists, texts, and later changes to the caller's list",
 "Tests use one list and one text.",
 ["filters/stopwords/filter.go"], [("set of stop words built once", "filters/stopwords/filter.go")], ["tokens out of the filter"],
 "runtime monitor: reference removal over random lists and texts", "Case folding is by lower-casing, as documented; lists and texts sampled.")

prop("C19", "Handles and hashtags are joined exactly where they are legal",
 "A sigil such as @ or # at the start of the text or after a space or punctuation is joined with the next token into one lemma token when that token is legal (handles: at most 15 ASCII letters, digits or underscores; hashtags: letters, numbers and underscores, a single character being a letter). Otherwise the sigil and its neighbours pass through unchanged, nothing is lost or duplicated, and the text is preserved byte for byte.",
 ["inputs", "configurations"], "all texts, all adjacent and repeated sigils, all sigils and legality functions given by callers",
 "Tests cover a few handles and tags; runs of sigils, ends of text and non-ASCII neighbours are not.",
 ["filters/sigil/filter.go", "filters/twitter/filter.go"], [("one-token lookahead", "filters/sigil/filter.go"), ("legality rules", "filters/twitter")],
 ["tokens out of the filters"],
 "runtime monitor: reference joining and byte preservation; short sequences enumerated", "Short token sequences over an alphabet of sigils, words and separators are enumerated; texts sampled.")

prop("C20", "A mapper applies its functions to each token, in order",
 "A filter built from functions applies them to every token exactly once each, in the order given, and passes the results on one for one. With no functions it changes nothing; it keeps no state between streams.",
 ["inputs", "configurations", "histories"], "all function lists and streams",
 "Tests use one function.",
 ["filters/mapper/filter.go"], [("loop over functions per token", "filters/mapper/filter.go")], ["calls recorded by instrumented functions", "tokens out of the filter"],
 "runtime monitor: recorded call traces of instrumented functions against a trace specification", "Traces compared call by call; lists and streams sampled.")

prop("C21", "The command writes what the library computes",
 "For any input, from a file, pipe or redirection, the command writes exactly the tokens of the input after the filters named by its flags, applied in the order of the flags (repeats included), with a line break after each token if asked, or only their number if asked; the stemming language and HTML parsing are as asked. It writes to standard output or, replacing its content, to the output file (which is not the input itself), and exits with status 0.",
 ["inputs", "configurations"], "all inputs and sizes around the buffers, all flag combinations, orders and spellings",
 "Tests call internal functions with a few flags in memory; the process, its buffers and the flag order are not exercised.",
 ["cmd/jargon/main.go"], [("filters in argument order", "cmd/jargon/main.go"), ("sized buffers, flushed at the end", "cmd/jargon/main.go")],
 ["bytes on standard output or in the output file", "exit status"],
 "runtime monitor: real processes, output compared with composed reference models", "Every ordered pair of filters and every language enumerated; longer sequences, sizes and inputs sampled.")

prop("C22", "The command never reports success after a failure",
 "When an invocation cannot do what was asked (input missing or unreadable or failing, two inputs, unknown flag, value or language, a word too long to process, output which cannot be created or written in full), the command exits with a non-zero status and a message on standard error, without crashing. A run refused for its arguments or for a missing input leaves an existing output file as it was.",
 ["fault_sequences", "configurations", "inputs"], "every kind of failure, at every point of the output, with any flags",
 "Tests check two argument errors by calling functions; a failing write or read of a real process is never produced.",
 ["cmd/jargon/main.go"], [("error checks, flush before exit", "cmd/jargon/main.go"), ("order of opening input, checking filters, creating output", "cmd/jargon/main.go")],
 ["exit status", "standard error", "output file"],
 "runtime monitor with fault injection on real processes (full device, size limits, closed pipe, reset connection)", "Kinds of fault enumerated; positions, flags and inputs sampled.", "fault_enumeration")

prop("C23", "The web service marks up each request's own text, safely",
 "A request to /text or /html is answered with the request's own text, with each Stack Overflow term replaced by its tag in a lemma span and everything else escaped, so that no markup of the input survives as markup; concurrent requests do not affect each other. A body that fails or cannot be tokenized is answered with an error status, unknown routes with 404, and every response carries the cross-origin headers; the health route answers ok, and the server survives all of it without a data race.",
 ["inputs", "schedules", "fault_sequences"], "all bodies, routes and methods, all interleavings of requests, truncated bodies",
 "The one test calls the handler once, for a valid body.",
 ["web/main.go", "filters/stackoverflow/filter.go"], [("templates which escape", "web/main.go"), ("buffered response", "web/main.go"), ("cross-origin headers first", "web/main.go")],
 ["HTTP responses", "race detector reports", "life of the process"],
 "runtime monitor: real server (also race-instrumented) under concurrent load, responses parsed and compared with the reference", "Requests sampled; routes, methods and faults enumerated.")

prop("C24", "The token queue is first-in, first-out and conserves tokens",
 "Over any history of pushing, popping, dropping, clearing and moving one or all tokens between queues, tokens leave in the order they came, each exactly once, and queues do not affect each other. Its length, emptiness and contents always agree, and a queue used as a sliding window does not grow.",
 ["histories"], "all histories of operations on several queues",
 "There are no tests which mix operations over several queues; aliasing of the queues' storage shows only in particular histories.",
 ["tokenqueue/queue.go"], [("slice with in-place shifting", "tokenqueue/queue.go")], ["queue contents after each operation"],
 "runtime monitor: model-based checking of random histories, conservation and order", "Popping from an empty queue is outside of the contract.")

prop("C25", "Filters compose: a chain is the composition of its filters",
 "Applying filters together, one after another, or in nested calls gives the same tokens: those of the filters applied in order, each seeing only the previous one's output. A token is marked as a lemma exactly when some filter changed it or it was one already.",
 ["inputs", "configurations"], "all chains of shipped and built filters, all texts",
 "Tests apply single filters, or one chain.",
 ["tokenstream.go", "filters"], [("Filter method", "tokenstream.go"), ("lemma marks set by each filter", "filters")], ["tokens out of chains"],
 "runtime monitor: composed reference models over random chains", "Chains and texts sampled.")

prop("C26", "Streams are independent and filters stateless; tokens are immutable",
 "Streams made by the same filter or tokenizer do not affect each other, however their consumption is interleaved, and a filter behaves the same on its thousandth use, or after an abandoned or failed stream, as on its first. A token, once handed out, never changes, and callers' later changes to their own data do not alter a stream.",
 ["histories", "inputs"], "all interleavings of several streams in one goroutine, all histories of uses",
 "Tests use each filter on one stream at a time.",
 ["tokenstream.go", "token.go", "tokenizer.go", "filters"], [("state per stream, in closures", "each filter"), ("shared cached tokens which are never written", "token.go")], ["tokens of interleaved streams", "tokens re-read later"],
 "runtime monitor: interleaved histories compared with isolated runs, snapshots re-checked", "Interleavings sampled.")

prop("C27", "Total: no input crashes or hangs the library",
 "No text, markup or byte sequence makes tokenization or any shipped filter panic, recurse without bound, fail to end, or yield an empty token. An input without over-long words is never refused.",
 ["inputs", "configurations"], "all inputs and chains of filters",
 "Tests use friendly input.",
 ["tokenizer.go", "tokenizer_html.go", "token.go", "tokenstream.go", "filters"], [("loops rather than recursion", "tokenstream.go and each filter"), ("guards against empty results", "filters/stemmer, filters/mapper")], ["panics, fatal errors, watchdog, token counts"],
 "runtime monitor: hostile and stress workloads under panic, crash, memory and hang watchdogs", "Termination judged by token counts and a 240 s watchdog per case.")

prop("C28", "The contractions generator writes the documented dictionary",
 "Running the contractions generator writes a valid, formatted Go file of that package, the same on every run, whose table holds every contraction in lower, title and upper case and with both apostrophes, with the expansions which the shipped filter gives. If the file cannot be written in full, it does not report success.",
 ["configurations", "fault_sequences"], "all previous contents of the directory, all points at which writing fails",
 "Tests count the mappings, and never run the program.",
 ["filters/contractions/generate/main.go", "filters/contractions/generated.go"], [("case and apostrophe variations", "filters/contractions/generate/main.go"), ("formatting and writing", "filters/contractions/generate/main.go")], ["generated file", "exit status"],
 "runtime monitor: real generator in scratch directories, output parsed and compared; write faults injected", "The table is compared in full.")

prop("C29", "The tags generator turns the API's pages into a faithful dictionary",
 "Running the tags generator fetches the pages of tags in order until there are no more, and writes a valid, formatted Go file in which every synonym and every tag name (hyphens as spaces) maps to its tag, synonyms taking precedence over tags of the same name, without moderator tags and ignored terms. On any failure of the API or the transfer, at any page, it exits non-zero and leaves an existing dictionary untouched.",
 ["inputs", "fault_sequences"], "all tag data, numbers of pages, and failures at any page",
 "There are no tests of the generator.",
 ["filters/stackoverflow/generate/main.go"], [("page loop", "filters/stackoverflow/generate/main.go"), ("error checks before the file is created", "filters/stackoverflow/generate/main.go")], ["requests seen by the stand-in", "generated file", "exit status"],
 "runtime monitor: real generator against a local stand-in API with injected faults, output compared with a model", "Tag data sampled, kinds of fault enumerated. Covers up to the 20 pages which the generator asks for.")

prop("C30", "The players generator turns the roster page into a faithful dictionary",
 "Running the players generator reads each roster's player links and writes a valid, formatted Go file in which each player, first name first, and the spelling without diacritics where it differs, maps to the player's name, and nothing else on the page does. On a failing status, a truncated page, or a name which is not of the form last, first, it exits non-zero and leaves an existing dictionary untouched.",
 ["inputs", "fault_sequences"], "all roster pages and failures of the transfer",
 "There are no tests of the generator.",
 ["filters/nba/generate/main.go"], [("selector for roster links", "filters/nba/generate/main.go"), ("name splitting and folding", "filters/nba/generate/main.go"), ("error checks before the file is created", "filters/nba/generate/main.go")], ["generated file", "exit status"],
 "runtime monitor: real generator against a local HTTPS stand-in with injected faults, output compared with a model", "Pages sampled, kinds of fault enumerated.")

prop("C31", "The synonym trie finds the longest phrase that was added",
 "Over any history of additions and searches, a search of a token sequence finds the longest sequence of leading tokens which equals an added phrase up to case and ignored characters, as configured, and reports its latest canonical term and how many tokens it used. A phrase with nothing left after ignoring matches nothing, and searching changes nothing.",
 ["histories", "inputs", "configurations"], "all histories of additions and searches, all settings",
 "Tests add and look up a few phrases.",
 ["filters/synonyms/trie/trie.go"], [("rune trie with ignored characters", "filters/synonyms/trie/trie.go")], ["search results"],
 "runtime monitor: model-based checking of random histories against a table of normalized phrases", "Histories sampled; the shipped dictionaries enumerated.")

prop("C32", "The work is proportional to the input",
 "The processor time for tokenizing, filtering and consuming a text grows in proportion to the length of the text, whatever it consists of (runs of spaces, punctuation, sigils, markup, words of any kind), and the time for building a filter in proportion to its table. No input makes the work quadratic.",
 ["inputs", "configurations"], "all texts and their lengths, all filters and chains, all consuming methods",
 "Tests use short inputs, on which quadratic work is as fast as linear work.",
 ["tokenqueue/queue.go", "filters/synonyms/filter.go", "filters/synonyms/trie/trie.go", "filters/sigil/filter.go", "tokenizer.go", "tokenizer_html.go", "tokenstream.go"],
 [("queue which drops from the front", "tokenqueue/queue.go"), ("lookahead buffer", "filters/synonyms/filter.go"), ("scanner and pending tokens", "tokenizer.go")],
 ["processor time of the thread"],
 "runtime monitor: processor time per unit compared between n and 32 n units over families of repetitive inputs, re-measured before it counts",
 "Families of inputs sampled and in part enumerated; detects growth of the time per unit beyond sevenfold over a 32-fold increase.")

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=p["mechanism"], observe_at=p["observe"], hook_needed=None)), ensure_ascii=False) + "\n")
m = dict(version=1, setup_cmd="bash ./setup.sh", checks=[
    dict(property=p["id"], quick_cmd=f"bash ./run.sh {p['id']} quick", thorough_cmd=f"bash ./run.sh {p['id']} thorough",
         evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level=p["level"], level_note=p["note"]) for p in P],
    not_applicable=[],
    notes="No hooks: everything is observed through public interfaces, instrumented readers, writers and functions, the race detector, and the real binaries. See DESIGN.md.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write("\n")
