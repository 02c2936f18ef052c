#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays readable)."""
import json, os
R = "terminal/runes/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

ANSI="terminal/ansi/ansi.go"; FIELDS=R+"fields.go"; WIDTH=R+"width.go"; LOOK=R+"lookup.go"; TAB=R+"runes_tables.go"
SR=R+"runesio/slice_reader.go"; WR=R+"runesio/writer.go"
HY="wordbreak/hyphenator/hyphenator.go"; DI="wordbreak/hyphenator/dictionary.go"; LA="wordbreak/hyphenator/languages.go"; CA="wordbreak/hyphenator/cache.go"
TR="wordbreak/hyphenator/internal/trie/rune_trie.go"; TK="wordbreak/tokenizer/tokenizer.go"; PU="wordbreak/punctuator/punctuator.go"
AT="attributes/attribute.go"; AI="attributes/iface.go"; AS="attributes/state.go"
LB="linebreak/linebreaker.go"; KP="linebreak/knuth_plass.go"; KT="linebreak/knuth_plass_types.go"

p("C01","No input makes the text primitives panic or loop for ever",
"Width, Widths, StringWidth, IsAmbiguous, FieldsFunc, the tokenizer, the punctuator, SplitWord, IsHyphen, IsPunctuation, a hyphenator built with non-negative limits, StripANSIFromRunes, StripToken, the cursor operations of a SliceReader (ReadRune, Runes, Seek) and the runes writer return normally for every input. Inputs include nil and empty ones, truncated escape sequences, invalid UTF-8 and values that are not valid code points. None of them panics and none of them fails to terminate.",
["inputs","configurations"],"every rune slice / string / rune value, every option value (hyphenation limits non-negative), every supported or unsupported language",
"The tests run a few dozen well formed inputs; an index that is out of range only on a truncated sequence, a one rune word or a word longer than a preallocated buffer is not among them (two such panics were found and repaired).",
[ANSI,SR,WR,FIELDS,WIDTH,LOOK,HY,TR,TK,PU],
[("slicing arithmetic of the ANSI decoder",ANSI),("merge and split of break positions",HY),("binary search and lookup of widths",LOOK)],
["return of each exported function"])
p("C02","Stripping ANSI sequences loses nothing",
"For every slice of runes, StartSequence, Text, StopSequence and Remainder as returned by StripANSIFromRunes, concatenated in that order, are exactly the input. For every token, the StartSequence, Text and StopSequence of the successive pieces returned by StripToken, concatenated in order, are exactly the token.",
["inputs"],"every slice of runes, with any number of well formed, chained, truncated or unknown escape sequences",
"Losing or repeating a rune only shows on particular chains of sequences (start/other/stop/start...), of which the tests sample about twenty.",
[ANSI,SR],[("decoding with rewinds of the reader","StripANSIFromRunes, decodeANSISequence, decodeText"),("loop over remainders","StripToken")],["results of StripANSIFromRunes, StripToken"])
p("C04","Start and stop sequences are complete and correctly told apart",
"Whenever StripANSIFromRunes returns a non-empty StartSequence, it is ESC, '[', then only digits, ';' or ':', then a final 's', 'h' or 'm'; a non-empty StopSequence is ESC, '[', then only digits, ';' or ':', then a final 'u', 'l' or 'm'. A sequence with final 'm' is a stop exactly when its first parameter is absent or made of zeros only, and is a start otherwise.",
["inputs"],"every slice of runes",
"Tests list a dozen sequences; the classification must hold for every parameter list and length (three digit parameters were misclassified before being repaired).",
[ANSI],[("classification of the final rune","decodeANSISequence"),("assignment to start/stop","StripANSIFromRunes")],["results of StripANSIFromRunes"])
p("C05","Breaking a word loses, adds and reorders nothing",
"For every word, the concatenation, in order, of the parts returned by Hyphenator.BreakWord and BreakWordString, Punctuator.BreakWord and BreakWordString, and SplitWord is exactly the word.",
["inputs","configurations"],"every word, every language and every non-negative hyphenation limit",
"Tests compare parts on about a hundred words; a dropped head or tail only shows for particular positions of a separator or break point.",
[HY,PU],[("cutting at positions","Hyphenator.BreakWord, splitAtPositions"),("retaining separators","breakAtFunc, SplitWord")],["results of the word breakers"])
p("C06","Separators are isolated, other parts are free of separators",
"In the parts returned by Punctuator.BreakWord every punctuation rune (unicode punctuation that is not an hyphen, or '|') makes up a part of its own; in the parts returned by SplitWord every hyphen makes up a part of its own. All other parts are non-empty and contain no such separator, and IsPunctuation (resp. IsHyphen) is true exactly of the slices of length one that hold such a separator.",
["inputs"],"every slice of runes",
"Adjacent, heading and trailing separators combine in unbounded ways; tests sample a few.",
[PU,HY],[("splitting function","punctSplitFunc, breakAtFunc"),("hyphens","SplitWord, IsHyphen, containsHyphen")],["results of Punctuator.BreakWord, SplitWord, IsPunctuation, IsHyphen"])
p("C07","Tokens are exactly the maximal runs of non-blank runes",
"For every text, the tokenizer (BreakWord, BreakWordString) returns, in order, exactly the maximal runs of runes that are not unicode.IsSpace: no token is empty or contains a blank, and every rune left out is a blank. FieldsFunc has the same property for its split function.",
["inputs"],"every slice of runes and every (pure) split function",
"Tests tokenize two sentences; the guarantee is about every placement of blanks.",
[FIELDS,TK],[("scan with a sentinel start","FieldsFunc")],["results of FieldsFunc, Tokenizer.BreakWord"])
p("C08","Hyphenation honours the configured limits",
"Whenever Hyphenator.BreakWord returns two parts or more for a hyphenator with non-negative limits, the word has at least the minimum length and contains no hyphen, every part but the last has at least the minimum number of runes to the left, and the last part has at least the minimum number of runes to the right of a hyphenation point. With the limits left to their defaults, these minimums are 4, 2 and 2.",
["inputs","configurations"],"every word, every rule file (in particular every combination of pattern values) and every non-negative limits",
"Limits interact with the values found in rule files at run time; tests sample a few words with default limits.",
[HY,"wordbreak/hyphenator/options.go"],[("limits tested at each position","splitAtPositions"),("eligibility","BreakWord")],["results of Hyphenator.BreakWord"])
p("C09","Hyphenation does not depend on letter case",
"Two words that only differ by the case of their letters (they are equal, rune by rune, under unicode.ToLower) are cut at the same positions by Hyphenator.BreakWord, whether their hyphenation comes from rule patterns or from the exceptions of the rule file.",
["inputs"],"every pair of words equal up to case, every language",
"A test covers one capitalized word; the property is about pairs of executions over all words (exceptions were case sensitive before being repaired).",
[HY],[("lower-casing before each lookup","isPattern, isException")],["results of Hyphenator.BreakWord"])
p("C10","Every supported language gets its own, existing rule file",
"A hyphenator uses the bundled rule file of the language its tag is matched to by the language matcher: en-US (which a plain en is matched to, and anything unmatched) gets ushyphmax.tex, en-GB hyph-en-gb.tex, French (fr, fr-CA) hyph-fr.tex, German hyph-de-1996.tex, Spanish (es, es-ES, es-419) hyph-es.tex. This holds for regional variants matched to these languages as well, and every such file is bundled, so a hyphenator never lacks its dictionary.",
["configurations"],"every language tag or language string given to the options",
"Tests use five tags; any BCP 47 tag may be given and is matched to one of the supported ones (regional variants such as de-AT fell back to English before being repaired).",
[LA,"wordbreak/hyphenator/embedded.go",HY],[("dispatch over matched languages","langToPattern"),("embedded files","texFS")],["Dictionary of New(WithLanguage...), WithLanguageTag"])
p("C11","The bundled rule files are the upstream rule files",
"Every bundled hyphenation file holds exactly the rules of its upstream TeX source kept in the repository, in order, with only comments and blank lines stripped. Every rule line the loader reads as patterns only consists of well formed patterns, and every exception is a word of letters, with hyphens, if any, between two letters only.",
["configurations"],"every line of every bundled rule file",
"No test reads the tables beyond a few words: one lost or mangled line among 14 000 changes the hyphenation of words no test looks at.",
["wordbreak/hyphenator/languages/hyph-de-1996.tex","wordbreak/hyphenator/languages/hyph-en-gb.tex","wordbreak/hyphenator/languages/hyph-es.tex","wordbreak/hyphenator/languages/hyph-fr.tex","wordbreak/hyphenator/languages/ushyphmax.tex",DI],[("stripping of comments","wordbreak/hyphenator/languages/strip_comments.go"),("loading","LoadPatterns")],["LoadPatterns"])
p("C12","Width gives every code point its Unicode 15 terminal width",
"For every rune and every combination of options, Width returns: 0 for values that are not valid code points, U+FFFD, control, non-printable and combining runes; 4 for U+2E3B and 3 for U+2E3A; 2 for East Asian wide and fullwidth runes; 1 for all others. With East Asian mode enabled only, runes that Unicode 15 lists as ambiguous (and that are neither narrow, wide nor combining) have the configured ambiguous width (2 by default), and neutral emoji have width 2 when SkipStrictEmojiNeutral is set.",
["inputs","configurations"],"all 2^32 rune values, both modes, all option values and combinations",
"Tests sample about thirty runes out of 1.1 million code points, times the options.",
[WIDTH,LOOK,TAB,R+"options.go"],[("classification",WIDTH),("tables",TAB),("packed lookup",LOOK)],["Width"],
[("lookupTable","2 bits of width per code point","terminal/runes/lookup.go")])
p("C13","The width of a text is the sum of the widths of its runes",
"For every slice of runes and every set of options, Widths returns the sum of Width over the runes with the same options, and StringWidth does the same for the runes of the string.",
["inputs","configurations"],"every slice of runes, every string and every set of options",
"Two implementations (fast lookup and tables) have to agree on every code point; they did not for U+2E3B before being repaired.",
[WIDTH],[("two modes of summation","Widths"),("delegation","StringWidth")],["Widths, StringWidth vs Width"])
p("C14","Inputs are never modified",
"No function or method of the wordbreak, terminal, and attributes packages writes to the runes of a slice it was given as input, nor to the spare capacity behind it: after any call, the caller's slices (and arrays they are cut from) hold what they held before.",
["inputs","histories"],"every input slice, with any spare capacity behind it",
"A write through append lands beyond the length of the input, where no test looks (one was found and repaired).",
[ANSI,SR,HY,PU,FIELDS,AT],[("capped sub-slices before appending","StripANSIFromRunes"),("fresh buffers","isPattern, isException")],["the caller's slices after each call"])
p("C15","Package-level functions and word breakers are safe for concurrent use",
"Functions of these packages, and a single Hyphenator, Punctuator or Tokenizer, may be used by any number of goroutines at once without a data race: state shared between calls (the width lookup table, the dictionary cache, package variables, cached dictionaries) is only written under its once or mutex, is only read after that, and is immutable once published. Word breakers never write to themselves while breaking words.",
["schedules"],"every interleaving of concurrent calls, including first uses",
"Tests are sequential; a race needs two first calls at the same time.",
[LOOK,WIDTH,CA,HY,DI,TR,R+"options.go"],[("sync.Once around the lookup table",LOOK),("mutex around the dictionary cache",CA),("copy of default options",R+"options.go")],["concurrent calls of the public API"],
[("loadedPatterns","dictionary cache",CA),("lookupTable","width cache",LOOK),("defaultOptions","shared defaults",R+"options.go")])
p("C16","SliceReader is a faithful cursor over its runes",
"A SliceReader yields its runes in order, each exactly once, then io.EOF (with utf8.RuneError and size 0), and reports for each its UTF-8 length; Runes returns exactly the runes not yet read. Seek moves to offset relative to start, current position or end when that lies within [0, number of runes] and returns it, and otherwise returns ErrSeekOutOfRange and leaves the position unchanged; Slice and Slices return exactly the requested ranges from any position without moving it.",
["inputs","histories"],"every slice of runes, every sequence of operations, every offset and the three defined values of whence",
"Tests perform a handful of seeks; off by one positions and moves on error depend on the history of operations.",
[SR],[("cursor","ReadRune, Seek, Runes"),("sub-slices","Slice, Slices")],["results of SliceReader methods"],
[("offset","number of runes already read",SR)])
p("C17","The runes writer writes the UTF-8 encoding of its runes, in one write",
"WriteRunes and WriteRune perform exactly one Write on the underlying writer, with exactly the UTF-8 encoding of the runes in order (values that are not valid code points are encoded as U+FFFD), and return the byte count and the error of that Write unchanged.",
["inputs"],"every slice of runes and every underlying writer, failing ones included",
"Tests write three short strings to a writer that never fails.",
[WR],[("encoding loop","writeRunes, writeRune")],["bytes received by, and results of the underlying io.Writer"])
p("C18","Attributes render in order, once",
"Rendering an Attribute writes its start sequence, its text and its stop sequence, in that order, each exactly once and unchanged, and nothing for those that are empty; HasStart and HasStop tell whether the sequence is not empty. Start, Stop and Render of a collection of renderers call the same method of each non-nil element exactly once, in order, and State.Push appends non-nil renderers (only) at the end of the sequence its iterators walk over, one by one from the first, with no item past the last.",
["inputs"],"every attribute, every collection with or without nil elements",
"Tests render two nested attributes.",
[AT,AI,AS],[("rendering","Attribute.Start, Stop, Render"),("collections","Renderers")],["runes written to the runesio.Writer"])
p("C19","Results are deterministic",
"No result of any exported function or method depends on map iteration order, time, randomness, the scheduling of goroutines, the environment or memory addresses: the same inputs and options give the same results, in any process.",
["inputs","schedules","histories"],"every pair of executions with the same inputs and options",
"Map order changes from run to run: a test that passes once may fail next time (line breaks depended on map order before being repaired).",
[KP,HY,TR,CA,LOOK],[("ordered iteration over candidates","insertNewActiveBreak")],["all results"])
p("C20","A line breaker has no memory of earlier paragraphs",
"The result of LineBreaker.LeftAlignUniform only depends on the options of the line breaker and on the arguments of the call: earlier calls on the same LineBreaker, whether they succeeded or failed, have no influence on it.",
["histories"],"every sequence of calls on one LineBreaker",
"Tests build a new line breaker for each paragraph (attributes leaked from one paragraph to the next before being repaired).",
[LB,KP],[("state rebuilt at each call","LeftAlignUniform, breakPoints")],["result of LeftAlignUniform"],
[("LineBreaker fields","nodes, widths, sums, active nodes and attributes of the paragraph being set",LB)])
p("C21","A soft hyphen is rendered only where a word was broken, if enabled",
"LeftAlignUniform adds a hyphen that is not in the text only at the end of a line, where the line ends at a hyphenation point within a word, and only when rendering hyphens is enabled; lines that end at a space, at a punctuation mark, at an explicit hyphen or at the end of the paragraph get none. This holds whatever the value of the penalties.",
["inputs","configurations"],"every paragraph, width and penalty",
"Tests use default penalties; other values confused soft hyphens with other breaks before being repaired.",
[LB,KT],[("soft hyphen mark","pushHyphen, render")],["lines returned by LeftAlignUniform"])
p("C22","Breaking tokens into nodes keeps all of their text, in order",
"For every token, when the punctuator and the hyphenator in use lose nothing, the nodes the line breaker makes of it carry the complete text of the token (ANSI start and stop sequences set apart) in order, each rune exactly once, and each piece is measured with the configured measurer. The nodes of a paragraph are those of its tokens, all of them, in order.",
["inputs","configurations"],"every token, every lossless punctuator and hyphenator",
"Depends on the combination of punctuation marks, explicit and soft hyphens and escape sequences in a token.",
[LB],[("tokens to nodes","boxNodes, leftAlignedNodes")],["text of the lines returned by LeftAlignUniform"])
p("C23","A paragraph is either set or refused",
"LeftAlignUniform returns either lines and a nil error, or no lines and ErrCannotBeSet; it never returns both lines and an error.",
["inputs","configurations"],"every paragraph, width and option",
"Tests check the error for one impossible width.",
[LB,KP],[("check of the list of breaks","LeftAlignUniform")],["results of LeftAlignUniform"])
p("C30","Lines never exceed the maximum width",
"With the default options, no line returned by LeftAlignUniform is wider than maxWidth.",
["inputs"],"every paragraph and width","widths depend on floating point ratios over all break points",[KP,LB],[("adjustment ratio","adjustmentRatio")],["lines"])
p("C31","Chosen line breaks minimize demerits",
"LeftAlignUniform chooses the feasible breaks with the least total demerits, as defined by Knuth and Plass.",
["inputs"],"every paragraph","optimality over all sequences of breaks",[KP],[("active breaks","mainLoop")],["lines"])
p("C32","Hyphenation points are those of Liang's algorithm",
"A word that is not an exception is cut exactly where the maximum over all matching patterns is odd.",
["inputs"],"every word and rule file","depends on the numeric content of all rule files",[HY,DI],[("merging of positions","mergeBreakPoints")],["parts"])
p("C33","The trie behaves as a map from rune keys to values",
"After any history of Put and Delete, Get returns the value last put under the key and not deleted since.",
["histories"],"every sequence of operations","histories are unbounded",[TR],[("trie walk","Get, Put, Delete")],["Get"])
p("C34","Attributes are closed at line ends and resumed at line starts",
"Every line rendered closes all attributes in force at its end and the next line starts with the same attributes in force.",
["inputs"],"every sequence of attributes","depends on the history of nesting",[AS],[("backtrack by level","StartOfLine, EndOfLine")],["lines"])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
