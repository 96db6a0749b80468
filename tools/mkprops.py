#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or []
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Plain-text tokenization is lossless",
"Tokenizing any text, whether given as a string or through a reader that delivers it in chunks of any size, yields non-empty, non-lemma tokens whose values concatenated in order equal the input byte for byte (including white space, punctuation and malformed UTF-8), after which the stream ends without error. A token already delivered never changes its value or flags as the stream advances.",
["inputs","schedules"],"all byte strings, all ways a reader may split them into reads",
"The one test checks one fixed paragraph read in a single read; it says nothing about malformed UTF-8, chunk boundaries inside a rune, or other texts.",
["tokenizer.go","token.go","tokenstream.go"],
[("Tokenize/TokenizeString","tokenizer.go"),("tokenizer.next","tokenizer.go"),("NewToken","token.go")],observe=["TokenStream.Next/Scan/ToSlice/String"])
p("C02","Token flags are a function of the token's text",
"A token made from non-empty text reports exactly that text and exactly the lemma flag it was made with; it is space if and only if every character is Unicode white space, and punctuation if and only if every character is Unicode punctuation or a line feed, carriage return or tab. Empty text makes no token.",
["inputs"],"all strings, both lemma flags",
"No test inspects the punct/space flags of arbitrary text; the pre-computed common tokens are never compared with freshly computed ones.",
["token.go","punct.go"],[("NewToken","token.go"),("common-token cache","token.go init"),("isPunct","punct.go")],observe=["Token.String/IsPunct/IsSpace/IsLemma"])
p("C03","HTML tokenization is lossless",
"Tokenizing any input as HTML yields non-empty tokens whose values concatenated in order equal the input byte for byte, after which the stream ends without error: text, tags, attributes, entities, comments, script and style bodies and unfinished trailing markup all come through verbatim.",
["inputs"],"all byte strings fed to the HTML tokenizer",
"The test looks for a dozen expected tokens in one well-formed document; it never reconstructs the input.",
["tokenizer_html.go"],[("htokenizer.next","tokenizer_html.go")],observe=["TokenizeHTML(...).String()"])
p("C04","HTML mode tokenizes text nodes only, and every text node",
"In HTML mode each tag, comment and doctype is exactly one token flagged punctuation and not space; the body of a script or style element is one token that is neither; and every other stretch of text, before or after any script or style element, is split exactly as plain-text tokenization splits it.",
["inputs","histories"],"all sequences of text, tags, comments, script and style elements",
"The test has one script and one style element followed by nothing but white space, so text after them is never examined.",
["tokenizer_html.go"],[("htokenizer.next","tokenizer_html.go")],[("parent","whether we are inside script/style","tokenizer_html.go htokenizer")],["TokenizeHTML"])
p("C05","Read errors always surface and are never mistaken for end of input",
"If the source of a stream fails after any amount of input, every way of consuming it (Next, Scan then Err, ToSlice, String, Count, WriteTo), directly or behind any of the provided filters and views, reports that error instead of a clean end. What was delivered before the error is a prefix of what the same input, ending at that point without an error, would have delivered.",
["fault_sequences","inputs"],"all inputs, all failure points, all provided filters, views and consumers",
"No test uses a failing reader or a failing upstream stream.",
["tokenizer.go","tokenizer_html.go","tokenstream.go","filters/synonyms/filter.go","filters/contractions/filter.go","filters/sigil/filter.go","filters/mapper/filter.go","filters/stopwords/filter.go"],
[("error returns of every next()","all filters"),("Scan/Err","tokenstream.go")],observe=["Next, Scan/Err, ToSlice, String, Count, WriteTo"])
p("C06","Stream views deliver exactly the matching tokens, in order",
"Where delivers exactly the tokens satisfying its predicate, Words exactly those that are neither punctuation nor space, Lemmas exactly those flagged lemma, and Distinct exactly the first token of each distinct text, each as the very tokens of the underlying stream in their original order. The predicate is asked once per token, and views pull from their source only as far as needed.",
["inputs","histories"],"all token sequences and predicates",
"Only Distinct is tested, on one sentence.",
["tokenstream.go"],[("Where/Words/Lemmas/Distinct","tokenstream.go"),("where.next","tokenstream.go")],observe=["Where, Words, Lemmas, Distinct"])
p("C07","All ways of consuming a stream agree",
"For the same stream, repeated Next, Scan with Token, ToSlice, String, WriteTo and Count see the same tokens: String and WriteTo give the concatenated values, Count their number. Scan is true exactly when Token is a new token, a stream stays ended (nil, no error) after its end, and WriteTo reports exactly the bytes the writer accepted and stops at the writer's first error, returning it.",
["inputs","fault_sequences"],"all token sequences, all mixes of Next and Scan, all writer failure points",
"Tests consume fully successful streams one way at a time; WriteTo and Count are untested.",
["tokenstream.go"],[("Next/Scan/Token/Err","tokenstream.go"),("ToSlice/String/WriteTo/Count","tokenstream.go")],observe=["TokenStream methods"])
p("C08","Filters compose left to right, one pass, nothing lost",
"Applying several filters in one call equals applying them one after another in the given order, and applying none leaves the stream unchanged. A filter built from mapping functions (that each return a token) passes every token through all its functions in order, delivering one result per token, in order, and hands each function the previous function's result.",
["inputs","programs"],"all token sequences, all lists of filters and mapping functions",
"Tests apply one filter and one mapping function at a time.",
["tokenstream.go","filters/mapper/filter.go"],[("TokenStream.Filter","tokenstream.go"),("mapper.NewFilter","filters/mapper/filter.go")],observe=["TokenStream.Filter, mapper.NewFilter"])
p("C09","Token queue is first-in first-out under every operation history",
"Through any sequence of push, pop, drop, clear, pop-to and flush-to over queues, each queue holds exactly the tokens put into it and not yet removed, in arrival order; pop returns the oldest; length and emptiness agree with the contents; moving tokens from one queue to another neither loses, duplicates nor reorders them, and changing one queue never alters another.",
["histories"],"all sequences of queue operations",
"The queue has no tests of its own.",
["tokenqueue/queue.go"],[("Push/Pop/Drop/Clear/PopTo/FlushTo","tokenqueue/queue.go")],[("Tokens","queue contents, front first","tokenqueue/queue.go")],["TokenQueue methods"])
p("C10","Synonym filter replaces the longest listed phrase, left to right",
"Reading left to right, at each word the synonym filter finds the longest listed phrase that is spelled by the words and spaces starting there (up to the next punctuation, and at most as many words as any listed phrase has), ignoring the configured characters, and letter case when configured. It replaces just the tokens that spell it with a single lemma token holding that phrase's canonical term, or with nothing when the canonical term is empty. It never replaces text that spells no listed phrase. Phrases listed together separated by commas all count, with leading spaces and spaces after a comma ignored.",
["inputs","configurations"],"all dictionaries, case/ignore settings and token sequences",
"Tests use one four-entry dictionary and one sentence.",
["filters/synonyms/filter.go","filters/synonyms/trie/trie.go"],[("tokens.next/fill/wordrun","filters/synonyms/filter.go"),("RuneTrie.Add/SearchCanonical","filters/synonyms/trie/trie.go"),("build, maxWords","filters/synonyms/filter.go")],observe=["synonyms.NewFilter(...)(stream)"])
p("C11","Synonym filter passes everything else through untouched",
"Every token that is not part of a replaced phrase, including all white space and punctuation, comes out of the synonym filter exactly once, unchanged and in its original position relative to the replacements. A replacement never starts at a space or punctuation token, never spans a punctuation token, and never swallows white space after the phrase.",
["inputs","configurations"],"all dictionaries and token sequences",
"The pass-through test uses an empty dictionary and one sentence.",
["filters/synonyms/filter.go","tokenqueue/queue.go"],[("tokens.next/fill/wordrun","filters/synonyms/filter.go")],[("buffer, outgoing","lookahead and pending output","filters/synonyms/filter.go tokens")],["synonyms.NewFilter(...)(stream)"])
p("C12","Filters stream: bounded lookahead, constant memory",
"No filter or view reads more of its source than it needs to decide its next token: the synonym filter reads at most the current run of space and punctuation plus as many words as its longest phrase has, the handle/hashtag filter one token ahead, and the other filters and views none. So output appears before the input ends, and what is held back does not grow with the length of the input.",
["inputs","histories"],"all streams of any length, all provided filters",
"Tests drain small in-memory strings completely and cannot see when input is read.",
["filters/synonyms/filter.go","filters/sigil/filter.go","filters/contractions/filter.go","filters/stopwords/filter.go","filters/mapper/filter.go","tokenstream.go"],[("tokens.next/fill","filters/synonyms/filter.go"),("stream.next/try","filters/sigil/filter.go")],observe=["number of source reads when each output token is delivered"])
p("C13","A filter value can be reused for any number of streams",
"Applying the same filter value to several streams, one after another or with their consumption interleaved in any order, gives each stream exactly the output it would get from a freshly made filter. If a synonym filter's dictionary cannot be built, every use of it reports that error; none panics or silently passes text.",
["histories","fault_sequences"],"all interleavings of consumption of streams sharing a filter value",
"Tests apply each filter value to a single stream at a time.",
["filters/synonyms/filter.go","filters/sigil/filter.go","filters/stopwords/filter.go","filters/mapper/filter.go","filters/contractions/filter.go"],[("filter.Filter / once","filters/synonyms/filter.go")],[("once, trie, maxWords","lazily built dictionary","filters/synonyms/filter.go filter")],["filter values applied twice"])
p("C14","Filter output does not depend on dictionary iteration order",
"The same synonym dictionary, settings and input always produce the same output, whatever order the dictionary's entries happen to be enumerated in, including when several entries spell the same phrase after case and ignored characters are discounted.",
["configurations","schedules"],"all dictionaries and all map enumeration orders",
"Map order is random per run; a test samples one order and the shipped dictionaries happen to have no clashes.",
["filters/synonyms/filter.go","filters/synonyms/trie/trie.go"],[("build","filters/synonyms/filter.go")],observe=["synonyms.NewFilter output across runs"])
p("C15","Stop-word filter removes exactly the stop words",
"The stop-word filter delivers, in order and unchanged, exactly the tokens whose text is not in the given list, comparing letter case exactly or ignoring it as configured.",
["inputs","configurations"],"all stop lists, both case modes, all token sequences",
"Two tests with a fixed three-word list.",
["filters/stopwords/filter.go"],[("NewFilter/tokens.next","filters/stopwords/filter.go")],observe=["stopwords.NewFilter(...)(stream)"])
p("C16","Contraction filter expands exactly the known contractions",
"Each token that is a known English contraction, with a straight or typographic apostrophe and in lower, Title, UPPER or any mixed case, is replaced in place by the tokens of its expansion (in matching case for lower, Title and UPPER; lower case for mixed). Every other token is delivered unchanged, in order, exactly once.",
["inputs"],"all token sequences",
"One test with seven contractions.",
["filters/contractions/filter.go","filters/contractions/generated.go"],[("tokens.next/tryExpansion","filters/contractions/filter.go"),("mappings","filters/contractions/generated.go")],observe=["contractions.Expand(stream)"])
p("C17","ASCII folding follows the Lucene table for every character",
"Folding a string (of valid UTF-8) replaces each character that has an entry in Lucene's ASCIIFoldingFilter table by that entry and keeps every other character, and reports a fold exactly when at least one character had an entry. As a filter it delivers one token per token, in order: a lemma token with the folded text where something folded, otherwise the original token.",
["inputs"],"all strings over all Unicode code points",
"The test counts words and checks the folded flag for 60 Latin-1 words; it never compares the folded text.",
["filters/ascii/fold.go","filters/ascii/filter.go"],[("FoldString","filters/ascii/fold.go"),("Fold/folder","filters/ascii/filter.go")],observe=["ascii.FoldString, ascii.Fold"])
p("C18","Normalization filters normalize every token to their own form",
"The NFC, NFD, NFKC and NFKD filters deliver one token per token, in order: where the text is not already in that normalization form, a lemma token holding the text normalized to exactly that form; otherwise the original token.",
["inputs"],"all token sequences, the four forms",
"The package has no tests.",
["filters/norm/filter.go"],[("newFilter","filters/norm/filter.go")],observe=["norm.NFC/NFD/NFKC/NFKD"])
p("C19","Stemming filters stem words only and never drop a token",
"Each stemming filter delivers one token per token, in order: space and punctuation tokens untouched, a word whose stem in that filter's language is not empty and differs from its text as a lemma token holding the stem, any other word as the original token. The stream never ends early because of a word's stem.",
["inputs","configurations"],"all token sequences, all six languages",
"One test with two English sentences; the other languages are untested.",
["filters/stemmer/filter.go"],[("newStemmer","filters/stemmer/filter.go")],observe=["stemmer.English ... stemmer.Swedish"])
p("C20","Sigil filter joins a leading sigil with a legal following token",
"A token equal to the sigil is joined with the token right after it into one lemma token exactly when that next token is legal and the token delivered just before the sigil is absent, space or punctuation (a joined token counts by its own flags). All other tokens are delivered unchanged, in order, exactly once.",
["inputs","configurations","histories"],"all sigils, legality rules and token sequences",
"The sigil package's only test is empty.",
["filters/sigil/filter.go"],[("stream.next/try","filters/sigil/filter.go")],[("previous","last delivered token","filters/sigil/filter.go stream")],["sigil.NewFilter(...)(stream)"])
p("C21","Twitter handles and hashtags follow their legality rules",
"The handle filter joins \"@\" with a following token exactly when that token has at most 15 characters, all ASCII letters, digits or underscore; the hashtag filter joins \"#\" with a following token exactly when it is a single letter, or two or more characters that are all Unicode letters, numbers or underscore; both only when not directly preceded by a word.",
["inputs"],"all strings following @ or #",
"One example per filter; the 15-character limit and character classes are untested.",
["filters/twitter/filter.go","filters/sigil/filter.go"],[("legalHandle/legalHashtag","filters/twitter/filter.go")],observe=["twitter.Handles, twitter.Hashtags"])
p("C22","Command line output equals the library pipeline",
"For any input the command writes exactly the concatenated token values of the tokenized input (as HTML when asked) after the chosen filters in order, with a line feed after each token in lines mode, or just the number of tokens and a line feed in count mode. It reports success only if all input was read and every output byte was accepted by the destination.",
["inputs","fault_sequences","configurations"],"all inputs, mode combinations, and read/write failure points",
"The execution function has no test.",
["cmd/jargon/main.go"],[("execute","cmd/jargon/main.go"),("setWriter","cmd/jargon/main.go")],observe=["execute: bytes written, error returned"])
p("C23","Command line options select input, filters and output as given",
"Filter options take effect exactly once per mention and in the order given, with the stemmer of the chosen language, and an unknown language is an error. The input is the named file or else the pipe: giving both, or neither, is refused, an unopenable file is an error, and the whole of the chosen input is read whatever its size; output goes to the named file or else standard output.",
["configurations","inputs"],"all argument lists, file sizes, terminal modes",
"Tests cover three argument lists and compare filters by code pointer, which cannot tell stemmers apart; buffer selection is untested.",
["cmd/jargon/main.go"],[("setInput/setFilters/setOutput/setReader/setWriter","cmd/jargon/main.go")],observe=["config after setup; filter behaviour"])
p("C24","Web endpoint escapes text, marks lemmas, and reports failures",
"A request to the text or html route is answered with the request body after Stack Overflow tagging, every token HTML-escaped and every lemma wrapped in a lemma span, in order; any other route is not found. If the body cannot be read the response status is an error, and every response to the main handler allows cross-origin use.",
["inputs","fault_sequences"],"all bodies, routes, methods and body read failures",
"One test posts one well-behaved text and looks for two substrings.",
["web/main.go"],[("mainHandler/jargonHandler","web/main.go")],observe=["HTTP status, headers and body"])
p("C25","Shipped dictionaries recognize every listed term in any letter case",
"Every Stack Overflow tag synonym and NBA player name in the shipped dictionaries that tokenizes into words and spaces alone, apart from leading punctuation (which passes through), is recognized by its filter when written in any mixture of upper and lower case and with any of its inner spaces removed, and is replaced by its published canonical term.",
["inputs"],"all listed terms, all letter-case mixtures, all subsets of inner spaces",
"Tests try fewer than ten of several thousand terms.",
["filters/stackoverflow/generated.go","filters/stackoverflow/filter.go","filters/nba/generated.go","filters/nba/filter.go","filters/synonyms/filter.go"],[("mappings","generated.go"),("synonyms.NewFilter","filters/synonyms/filter.go")],observe=["stackoverflow.Tags, nba.CurrentPlayers"])
p("C26","Filters and tokens are safe to share between goroutines",
"Goroutines that each consume their own stream may share filter values and call any of the package's functions concurrently, including the very first use of a filter: there is no data race, and each gets the same output as it would alone.",
["schedules"],"all interleavings of concurrent users of shared filters",
"No test is concurrent; a race on lazily built or cached state needs a particular interleaving.",
["filters/synonyms/filter.go","token.go","filters/stopwords/filter.go","filters/sigil/filter.go","filters/mapper/filter.go"],[("sync.Once around build","filters/synonyms/filter.go"),("read-only shared tables","token.go common")],[("once, trie, config","lazily built dictionary","filters/synonyms/filter.go")],["concurrent use under race detection"])
p("C27","Tokens depend on the text alone, not on its delivery",
"The tokens of a text are the same whether it is given as a string or read from a reader in pieces of any size, split anywhere (in the middle of a character, a word, a number or a tag), and a line of text has the same tokens wherever in a longer text it stands.",
["inputs","schedules"],"all byte strings, all ways a reader may split them into reads, all positions relative to internal buffers",
"Tests deliver each short text in one read; a boundary that depends on where a read or a buffer ends needs a particular split or a text longer than the buffer.",
["tokenizer.go","tokenizer_html.go"],
[("Tokenize","tokenizer.go"),("split","tokenizer.go"),("TokenizeHTML","tokenizer_html.go")],observe=["TokenStream.Next"])
p("C28","No text makes the library panic, hang or fail",
"Any text, valid UTF-8 or not, of any length, tokenized plain or as HTML, or any tokens, passed through any one or two of the provided filters and views, gives a stream that ends, without an error and without a panic, and stays ended. So does any text through filters made with unusual arguments: no or empty dictionaries, phrases, lists, sigils and functions, repeated or odd ignored characters.",
["inputs","configurations"],"all texts and token sequences, all provided filters and pairs of them, unusual filter arguments",
"Tests use well-formed English text and ordinary arguments; a panic or an endless loop needs one particular token after another in one filter.",
["tokenizer.go","tokenizer_html.go","tokenstream.go","token.go","filters"],[("TokenStream.Next/Filter","tokenstream.go"),("NewFilter","filters/synonyms/filter.go"),("tokens.next","filters/contractions/filter.go")],observe=["TokenStream.Next until nil"])
p("C29","Filters leave what they are given alone",
"No filter or view alters a token it is given or one it has delivered, nor the dictionary, the list of ignored characters, the stop words, the functions or the list of filters it is made from. So a slice of tokens, a dictionary or a list may be used again, for any number of streams and filters, with the same result.",
["inputs","histories"],"all token sequences, all provided filters, dictionaries and lists used again",
"Tests use every token and every dictionary once, and look at outputs only.",
["tokenstream.go","token.go","filters/synonyms/filter.go","filters/stopwords/filter.go","filters/mapper/filter.go","tokenqueue/queue.go"],[("NewToken (shared tokens)","token.go"),("Filter","tokenstream.go"),("NewFilter","filters/synonyms/filter.go")],observe=["tokens and arguments before and after use"])
p("C30","Text is divided at Unicode word boundaries",
"The tokens of a plain text are exactly its words by the rules of Unicode Standard Annex 29: letters, digits and underscores stay together, with an apostrophe, full stop or colon between letters, or an apostrophe, full stop, comma or semicolon between digits; combining marks stay with what they follow; spaces stay together, as do carriage return and line feed; every other character, every other line break included, is a token of its own. A word of any length is one token.",
["inputs"],"all texts",
"Tests look for some tokens of a few English texts; the rules interact over pairs and triples of character kinds, marks between them included.",
["tokenizer.go"],[("Tokenize/TokenizeString/split","tokenizer.go")],observe=["TokenStream.Next"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
