package main

// Spec says which harness runs decide a property.
type Spec struct {
	Pkg         string
	Quick       []string
	Thorough    []string
	Covers      []string
	Bounds      string
	Assumptions []string
	Solver      string
	QueryMS     int // time for a query, in milliseconds
	QuickBudget int
	MaxSteps    int64
}

var commonAssumptions = []string{
	"the executor's semantics of Go SSA and of the modelled library functions (DESIGN.md, engine) is trusted; witnesses of explored paths are replayed natively and compared",
	"x/tools/go/ssa translates the source faithfully; z3 is trusted for unsat answers",
}

var specs = map[string]*Spec{
	"C01": {
		Bounds:   "every byte string of up to 3 bytes given as a string (4 in the thorough tier), and of up to 2 (3) bytes through a reader in every division into reads, with an empty read and an end of input together with data; every one (two) Unicode character text; strings of up to 5 (8) characters of a set on which the word-break rules interact; texts around every integer constant of the code (4096, 65536 ...) with an arbitrary last character; long words and runs of spaces with any Unicode character inside; words of 65530 and 70000 characters; words that differ in one character; up to 600 tokens of sixteen kinds before two arbitrary ones. Outside: arbitrary longer texts. Readers of seven kinds (strings, bytes, bufio, limited ...), read from before.",
		Quick:    []string{"c01_kinds", "c01_string n=0..3", "c01_runes n=1", "c01_chunks n=1..2", "c01_classes n=1..5", "c01_long n=1", "c01_word", "c01_similar", "c01_many", "c01_huge"},
		Thorough: []string{"c01_chunks n=3", "c01_classes n=6..8", "c01_runes n=2", "c01_string n=4"},
		Covers:   []string{"kinds", "done", "several tokens", "word", "huge", "similar", "many"},
		MaxSteps: 120000000,
	},
	"C02": {
		Bounds:   "every byte string of up to 4 (6) bytes, every ASCII string of up to 7 (10), every string of up to 3 (5) Unicode characters, both lemma flags; every token of every text of up to 2 (3) bytes; long uniform texts with one arbitrary byte anywhere.",
		Quick:    []string{"c02_new n=0..4", "c02_ascii n=1..7", "c02_runes n=1..3", "c02_stream n=1..2", "c02_long"},
		Thorough: []string{"c02_stream n=3", "c02_new n=5..6", "c02_ascii n=8..10", "c02_runes n=4..5"},
		Covers:   []string{"empty", "space", "punct", "word", "stream"},
	},
	"C03": {
		Bounds:   "every input of up to 3 bytes; markup strings of up to 5 (6) characters over the characters HTML treats specially, alone, and of up to 3 (4) in each context (tag, attribute, comment, raw text, entity ...); in pieces; around the code's integer constants. Readers of seven kinds, read from before.",
		Quick:    []string{"c03_kinds", "c03_string n=0..2", "c03_markup n=3..5", "c03_context n=1..3", "c03_chunks n=1", "c03_long", "c03_string n=3"},
		Thorough: []string{"c03_chunks n=2", "c03_markup n=6", "c03_context n=4"},
		Covers:   []string{"kinds", "done", "several tokens"},
	},
	"C04": {
		Bounds:   "documents of up to 3 (4) pieces: text, any of ten tags, comment, attribute, script and style elements with arbitrary bodies; an element with any name of 4 to 6 letters over a set that spells script and style; every HTML element name in two letter cases with five attribute forms; texts and bodies of up to 3 (4) characters of white space, entities and punctuation in five places; long documents; up to 300 script and style elements with end tags of five forms.",
		Quick:    []string{"c04_pieces k=1..3", "c04_elements n=4..6", "c04_names", "c04_texts n=1..3", "c04_many", "c04_long"},
		Thorough: []string{"c04_texts n=4", "c04_pieces k=4"},
		Covers:   []string{"text", "markup", "body", "texts", "many"},
	},
	"C05": {
		Bounds:   "failing after any text of up to 2 (3) bytes in every division into reads, or HTML of up to 1 (2) characters after eleven prefixes; streams of up to 3 (4) tokens of nine behind each filter and view, two filters in a row, all six ways of consuming; eleven kinds of error value, including ones that resemble io.EOF; after 4 to 9000 bytes; a word beyond the scanner's limit. The error may come with the last token, and may be reported once only.",
		Quick:    []string{"c05_text n=0..2", "c05_html n=0..1", "c05_filters k=0..3", "c05_pipeline", "c05_kinds", "c05_long", "c05_toolong"},
		Thorough: []string{"c05_html n=2", "c05_filters k=4", "c05_text n=3"},
		Covers:   []string{"text", "html", "filter", "pipeline", "kinds", "long", "too long"},
	},
	"C06": {
		Bounds:   "streams of up to 4 (6) tokens with an arbitrary predicate; up to 3 (4) tokens of arbitrary bytes and flags; views of views and views of a stream read before; tokens that differ in one character; streams of up to 5000 distinct tokens with arbitrary last tokens. Two words of three or four arbitrary letters or digits.",
		QueryMS:  100000,
		Quick:    []string{"c06_pair n=3..4", "c06_where k=0..4", "c06_views k=1..2,n=2", "c06_views k=3,n=1", "c06_distinct k=2,n=2", "c06_distinct k=3,n=1", "c06_nested k=3", "c06_again k=3", "c06_similar", "c06_long"},
		Thorough: []string{"c06_where k=5..6", "c06_views k=3,n=2", "c06_distinct k=3,n=2", "c06_distinct k=4,n=1", "c06_nested k=4..5", "c06_views k=4,n=3"},
		Covers:   []string{"some match", "where", "words", "lemmas", "distinct", "nested", "long", "again", "similar"},
	},
	"C07": {
		Bounds:   "streams of up to 3 (4) tokens of arbitrary bytes, tokens of any text of up to 2 (3) bytes, any mixture of Next and Scan before any way of consuming the rest, a writer that fails after any number of bytes, also while accepting all of them; long streams. Four kinds of write error.",
		Quick:    []string{"c07_agree k=0..2,n=2", "c07_agree k=3,n=1", "c07_text n=1..2", "c07_mixed k=3", "c07_writer k=3", "c07_long"},
		Thorough: []string{"c07_agree k=3,n=2", "c07_agree k=4,n=1", "c07_text n=3", "c07_mixed k=5", "c07_writer k=5"},
		Covers:   []string{"agree", "text", "mixed", "fails", "long"},
	},
	"C08": {
		Bounds:   "up to 2 (3) of the provided filters in any order over several texts; recording filters; mappers of up to 4 functions that keep or replace, also by a token of the same text; many functions and tokens.",
		Quick:    []string{"c08_compose k=0..2", "c08_custom k=4,n=2", "c08_mapper k=3,n=2", "c08_long"},
		Thorough: []string{"c08_compose k=3", "c08_custom k=6,n=3", "c08_mapper k=4,n=3"},
		Covers:   []string{"compose", "custom", "mapper", "long"},
	},
	"C09": {
		Bounds:   "every history of up to 5 (6) operations over two queues, also on queues grown and shrunk to the sizes of the code's integer constants, and on queues filled from one slice. Pushes of up to six tokens, also to a queue in its zero value.",
		Quick:    []string{"c09_history k=1..5", "c09_long k=2", "c09_shared k=2..3"},
		Thorough: []string{"c09_history k=6", "c09_long k=4", "c09_shared k=4"},
		Covers:   []string{"history", "long", "shared"},
	},
	"C10": {
		Bounds:   "seventeen dictionaries over streams of up to 3 (4) arbitrary tokens, lemmas and other spaces among them, texts of 4 (5) characters, dictionaries of two arbitrary two-word phrases over streams of 2 (3), entries of up to 3 phrases with arbitrary spaces around commas, twenty letters of several scripts, titlecase and caseless ones among them, fifteen separators of which only the comma counts, long phrases. The oracle is an independent quadratic matcher. Canonical terms of seven kinds for phrases of up to four words, with a lemma among them; up to 300 spaces between words; a listed word with any byte before, after or within.",
		Quick:    []string{"c10_canon", "c10_dicts k=0..3", "c10_text n=2..4", "c10_phrases w=2,k=2", "c10_commas k=2..3", "c10_separators", "c10_bytes n=1", "c10_runes", "c10_long"},
		Thorough: []string{"c10_phrases w=2,k=3", "c10_dicts k=4", "c10_text n=5", "c10_bytes n=2", "c10_phrases w=3,k=4"},
		Covers:   []string{"kept", "replaced", "bytes", "done"},
	},
	"C11": {
		Bounds:   "the inputs of C10.",
		Quick:    []string{"c11_canon", "c11_dicts k=0..3", "c11_text n=2..4", "c11_phrases w=2,k=2", "c11_long"},
		Thorough: []string{"c11_phrases w=2,k=3", "c11_dicts k=4", "c11_text n=5", "c11_phrases w=3,k=4"},
		Covers:   []string{"removed", "replaced", "done"},
	},
	"C12": {
		Bounds:   "streams of up to 3 to 7 arbitrary tokens, counting the tokens read at every delivery; chains over a reader; long inputs.",
		Quick:    []string{"c12_mappers k=2", "c12_views k=4", "c12_sigil k=5", "c12_contractions k=3", "c12_synonyms k=5", "c12_chain", "c12_long", "c12_longsyn"},
		Thorough: []string{"c12_mappers k=3", "c12_views k=6", "c12_sigil k=7", "c12_contractions k=5", "c12_synonyms k=7"},
		Covers:   []string{"mappers", "views", "sigil", "contractions", "synonyms", "chain", "long", "long synonyms"},
	},
	"C13": {
		Bounds:   "27 filters, two streams of up to 2 (3) arbitrary tokens each, or of texts that expand and join, consumed in every interleaving; a stream abandoned after any number of tokens; every pair of six texts one after the other; up to 300 streams one after another; dictionaries with phrases of 70000 characters.",
		Quick:    []string{"c13_interleaved n=1..2", "c13_again n=2", "c13_words", "c13_many", "c13_after", "c13_unbuildable"},
		Thorough: []string{"c13_interleaved n=3", "c13_again n=3..4"},
		Covers:   []string{"interleaved", "again", "many", "after", "unbuildable"},
	},
	"C14": {
		Bounds:   "six dictionaries whose entries collide, every order of enumeration of their maps, texts of up to 2 (3) characters; two arbitrary keys in both orders of insertion; up to 400 colliding entries.",
		Quick:    []string{"c14_order n=1..2", "c14_same n=2", "c14_large"},
		Thorough: []string{"c14_order n=3", "c14_same n=3"},
		Covers:   []string{"order", "same", "large"},
	},
	"C15": {
		Bounds:   "lists of two arbitrary words, tokens of up to 2 (3) letters; streams of up to 3 (4) tokens; any letter outside ASCII; words of up to 8 letters each in either case; long lists; stop words with one character changed, added or left out. Stop words with up to 2 (3) arbitrary bytes before, after or within.",
		Quick:    []string{"c15_list n=1..2", "c15_words k=1..3", "c15_runes", "c15_text", "c15_case", "c15_near", "c15_bytes n=1..2", "c15_long"},
		Thorough: []string{"c15_list n=3", "c15_words k=4", "c15_bytes n=3"},
		Covers:   []string{"near", "kept", "stopped", "case", "bytes", "long"},
	},
	"C16": {
		Bounds:   "every known contraction with both apostrophes and every letter in either case; every contraction with one byte replaced by any other, added or left out; every token of up to 3 (5) bytes; sequences of up to 3 (4); every known contraction followed or preceded by other characters. Any character before, after or within seven contractions.",
		Quick:    []string{"c16_words", "c16_near", "c16_any n=1..3", "c16_rune", "c16_around", "c16_sequence k=1..3", "c16_long"},
		Thorough: []string{"c16_any n=4..5", "c16_sequence k=4"},
		Covers:   []string{"kept", "expanded", "long"},
	},
	"C17": {
		Bounds:   "every Unicode character alone and between others against Lucene's table (parsed from the ASCIIFoldingFilter.java the repository ships); every ASCII string of up to 4 (8) bytes; any character beside folded and kept ones; pairs from the Latin blocks; sequences of tokens.",
		Quick:    []string{"c17_rune", "c17_context", "c17_beside", "c17_ascii n=1..4", "c17_two", "c17_filter k=1..2", "c17_long"},
		Thorough: []string{"c17_filter k=3", "c17_ascii n=8"},
		Covers:   []string{"folded", "kept", "ascii", "filter", "long"},
	},
	"C20": {
		Bounds:   "streams of up to 5 (7) tokens, legality an arbitrary predicate, arbitrary sigils of up to 3 characters, tokenized text of up to 4 (5) characters; long streams.",
		Quick:    []string{"c20_tokens k=1..5", "c20_legal k=1..4", "c20_sigils k=2..3", "c20_text n=1..4", "c20_long"},
		Thorough: []string{"c20_tokens k=6..7", "c20_legal k=5", "c20_sigils k=4", "c20_text n=5"},
		Covers:   []string{"joined", "kept", "long"},
	},
	"C21": {
		Bounds:   "a sigil before every token of up to 3 (4) bytes, every Unicode character alone and in a token, lengths 13 to 17, streams of up to 4 (6) tokens.",
		Quick:    []string{"c21_bytes n=1..3", "c21_runes", "c21_length", "c21_tokens k=1..4", "c21_long"},
		Thorough: []string{"c21_bytes n=4", "c21_tokens k=5..6"},
		Covers:   []string{"joined", "kept", "long"},
	},
	"C18": {
		Bounds:   "every character of U+0000 to U+0FFF (the thorough tier: of the first 36 blocks of 1024) alone and in a word, pairs of a base and any combining mark U+0300 to U+036F; sequences; several words of 28 in a row, through several forms; long tokens. The oracle is x/text's normalizer itself: the property is about which form is used where.",
		Quick:    []string{"c18_rune range=0..3", "c18_pairs", "c18_ascii n=1..3", "c18_tokens k=1..2", "c18_mixed", "c18_long"},
		Thorough: []string{"c18_rune range=4..36", "c18_tokens k=3"},
		Covers:   []string{"kept", "normalized", "long", "mixed"},
	},
	"C19": {
		Bounds:   "words with up to 2 (3) arbitrary letters, ASCII tokens of up to 3 characters, any Latin-1 or Cyrillic character, words of several makes in mixed case, the same words through two languages, sequences, six languages. The oracle is the snowball stemmer itself.",
		Quick:    []string{"c19_letters n=1..2", "c19_short n=1..3", "c19_runes", "c19_words", "c19_tokens k=1..3", "c19_mixed", "c19_long"},
		Thorough: []string{"c19_letters n=3", "c19_tokens k=4"},
		Covers:   []string{"untouched", "kept", "stemmed", "long", "mixed"},
	},
	"C25": {
		Bounds: "every published term without inner punctuation tokens, every mixture of letter case, every subset of its inner spaces removed, alone and in nine contexts.",
		Quick:  []string{"c25_tags part=0..7,parts=8", "c25_players", "c25_context part=0..7,parts=8", "c25_context players=1"},
		Covers: []string{"recognized"},
	},
	"C26": {
		Bounds:   "two or three goroutines, one value or several of a kind, 26 kinds of words, every schedule with at most 2 (8) preemptions at synchronisation operations, happens-before race detection on every memory access in between. Two filters made from the same dictionary or list.",
		Quick:    []string{"c26_html", "c26_words preempt=1", "c26_tokens", "c26_filter", "c26_filter rounds=2,preempt=2", "c26_three preempt=2", "c26_shared preempt=2", "c26_functions preempt=2", "c26_unbuildable preempt=1"},
		Thorough: []string{"c26_functions preempt=4", "c26_three preempt=3", "c26_filter rounds=2,preempt=3", "c26_unbuildable preempt=3", "c26_filter preempt=8", "c26_shared preempt=4"},
		Covers:   []string{"html", "tokens", "filter", "three", "shared", "functions", "unbuildable"},
	},
	"C22": {
		Bounds:   "the real main on a model of the operating system: every text of up to 2 (3) bytes, HTML of 1 (3) characters with four continuations, two filters, four modes, both ways in and out; reads that fail after any of ten texts; destinations that accept 0, 1, half, all but one or all bytes; inputs about the sizes of buffers up to 65537 bytes. Words, tags and comments of up to 65537 bytes.",
		Pkg:      "./cmd/jargon",
		MaxSteps: 400_000_000,
		Quick:    []string{"c22_text n=0..2", "c22_html n=0..1", "c22_filters", "c22_read", "c22_write", "c22_long", "c22_long large=1", "c22_words"},
		Thorough: []string{"c22_text n=3", "c22_html n=2..3", "c22_write large=1"},
		Covers:   []string{"text", "html", "filters", "read", "write", "long", "words"},
	},
	"C23": {
		Bounds:   "every list of up to 2 (3) filter options in five forms, every list of 3 (4) in one form among other options; named pipes as input files; six languages and four unknown ones in five arrangements, a language anywhere among three filter options; files named like filter options; every combination of terminal or pipe, file or none; output named or not, existing shorter, longer or empty; inputs of sizes around every integer constant up to 1 MB + 70000. A word after the options.",
		Pkg:      "./cmd/jargon",
		MaxSteps: 400_000_000,
		Quick:    []string{"c23_filters k=2", "c23_order", "c23_langs", "c23_values", "c23_lang", "c23_fifo", "c23_input", "c23_output", "c23_sizes", "c23_sizes large=1"},
		Thorough: []string{"c23_filters k=3", "c23_order k=4"},
		Covers:   []string{"filters", "order", "fifo", "values", "lang", "unknown", "input", "output", "sizes"},
	},
	"C24": {
		Bounds:   "bodies of up to 2 (3) arbitrary bytes or 3 (4) special characters, up to 2 (3) dictionary terms side by side, every one-segment route of up to 6 letters, digits and -_.~ with several methods, bodies that fail after any text of 2 (3) characters, bodies about the sizes of buffers; sessions of two (three) requests, one after another or within another's body. The server and the template engine are models; natively a real server answers on the loopback interface. Bodies of up to 1.1 MB (4 MiB) of long words; bodies of unannounced length; queries and headers.",
		Pkg:      "./web",
		MaxSteps: 400_000_000,
		Quick:    []string{"c24_bytes n=0..2", "c24_markup n=1..3", "c24_lemmas k=1..2", "c24_routes", "c24_fails n=2", "c24_long", "c24_large", "c24_session"},
		Thorough: []string{"c24_bytes n=3", "c24_markup n=4", "c24_lemmas k=3", "c24_fails n=3", "c24_session k=3", "c24_large large=1"},
		Covers:   []string{"lemma", "answered", "found", "not found", "fails", "long", "large", "session"},
	},
	"C27": {
		Bounds:   "strings of up to 4 (5) characters of a set on which the word-break rules interact and any 2 (3) bytes, in every division into reads, compared with the string in one piece; every Unicode character in six surroundings; HTML of 1 (2) characters after prefixes; any place of a 60-character text; lines that fill buffers to about their size.",
		Quick:    []string{"c27_chunks n=1..4", "c27_bytes n=1..2", "c27_runes form=0..5", "c27_html n=1", "c27_place", "c27_where"},
		Thorough: []string{"c27_chunks n=5", "c27_bytes n=3", "c27_html n=2"},
		Covers:   []string{"alike", "runes", "place", "where"},
	},
	"C28": {
		Bounds:   "every token of up to 2 bytes and every text of up to 2 bytes, plain or HTML, through each of 27 filters and views; every Unicode character in five places through each; up to 2 tokens of nine through every pair of filters; words of 3 to 4 (5) letters of a set; twelve filters made with unusual arguments; long tokens and many tokens. A step limit decides non-termination, confirmed by a native run of 20 s.",
		Quick:    []string{"c28_token n=0..2", "c28_text n=1", "c28_rune", "c28_words n=3..4", "c28_tokens k=1..2", "c28_odd n=1..2", "c28_long", "c28_huge"},
		Thorough: []string{"c28_text n=2", "c28_token n=3", "c28_words n=5", "c28_odd n=3..4"},
		Covers:   []string{"token", "text", "rune", "tokens", "odd", "long", "words", "huge"},
	},
	"C29": {
		Bounds:   "up to 2 (3) tokens of eight or arbitrary characters through each of 27 filters; dictionaries, ignored characters, stop words, functions and filter lists used twice with texts of 2 (3) arbitrary characters.",
		Quick:    []string{"c29_tokens k=1..2", "c29_dictionary n=1..3", "c29_lists n=1..3", "c29_text"},
		Thorough: []string{"c29_tokens k=3", "c29_dictionary n=4", "c29_lists n=4"},
		Covers:   []string{"tokens", "dictionary", "lists", "text"},
	},
	"C30": {
		Bounds:   "every ASCII text of up to 3 (4) characters and every text of up to 4 (6) of fifteen characters that join words, against the rules of Unicode Standard Annex 29 written out over kinds of characters; every sequence of up to 3 (4) of twenty characters that stand for the kinds; every letter of nine alphabets and every combining mark of Unicode 13 below U+3000, every bracket, quotation mark, currency and mathematical sign, every character that joins words, each in several surroundings; words of lengths around every integer constant of the code.",
		Quick:    []string{"c30_ascii n=1..3", "c30_joins n=3..4", "c30_kinds k=1..3", "c30_kinds k=2 reader=1", "c30_middles", "c30_letters", "c30_marks", "c30_alone", "c30_long"},
		Thorough: []string{"c30_ascii n=4", "c30_joins n=5..6", "c30_kinds k=4"},
		Covers:   []string{"divided", "middles", "letters", "marks", "alone", "long"},
	},
}
