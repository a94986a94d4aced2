AI = 'abstract interpretation of the LLVM IR to a finite-state machine'
TRUST = ' Trusted: clang/LLVM IR as the meaning of the source, the IR abstract interpreter in engine/, and the confirmed reference.'
PIPE = 'abstract interpretation of the IR of the whole front end over token lists with finite value sets; a written specification is evaluated on every resulting parse tree'
PIPEN = 'Exhaustive over the choices inside each family; sentences outside the families are outside the bound.' + TRUST

PROPS = [
 {'id': 'M01', 'title': 'Every letter string gets its one correct word class',
  'statement': "For every string of Lojban letters, the word classifier shared by the parser and the word-checking tool answers with exactly one class (root word, compound, one of the borrowed-word types, particle sequence, name, bad capitals, or not a word), and it is the class the language's morphology gives that string. Consonant-cluster, hyphen, stress-capital, apostrophe and comma rules all take part, with and without the option that permits cultural rafsi.",
  'quant': "all finite strings over a-z, A-Z, apostrophe and comma, for both settings of the cultural-rafsi switch",
  'why': 'The test corpus samples a few hundred words; the classifier is a table-driven machine with thousands of states, and a wrong table cell or driver branch shows only on words that visit it.',
  'files': ['morf.c', 'morf_nfa.in', 'mk_fetab.pl', 'mk_vfetab.pl', 'mk_enctab.pl', 'morf.h', 'morf_dfa.h', 'dfasyn'],
  'mech': [('scanning loop over consonant/vowel equivalence tables', 'morf.c: morf_scan, char_attr tables'), ('word-shape automaton', 'morf_nfa.in via dfasyn')],
  'observe': ['vlatai output', 'jbofihe token classes'], 'technique': AI + ', equivalence with the confirmed machine by product fixpoint',
  'note': 'All words of every length: the fixpoint covers the whole reachable state space, and machine equivalence is decided by product reachability, not by sampling. The reference machine was confirmed against the published gismu/cmavo definitions (rule R2 re-checks it each run).' + TRUST},
 {'id': 'M02', 'title': 'Run-together words are divided at the correct places',
  'statement': 'When a written word is really several words run together (leading particles before a root word, compound, borrowed word or other particles), the places where it is divided are the ones the morphology rules give, including the rules about stress capitals and about clusters that force or forbid splitting off a leading particle.',
  'quant': 'all finite letter strings', 'why': 'Split points depend on unbounded look-back over the word; tests cover a few dozen compounds.',
  'files': ['morf.c', 'morf_nfa.in'], 'mech': [('word-start tracking during the scan', 'morf.c: morf_scan start array'), ('stress and cluster driven fix-up of the start points', 'morf.c')],
  'technique': AI.replace('machine', 'transducer') + ', equivalence with the confirmed transducer', 'note': 'All words of every length.' + TRUST},
 {'id': 'M03', 'title': 'Names that swallow la, lai or doi are detected and split correctly',
  'statement': 'A consonant-final word is accepted as one name exactly when no name-marker (la, lai, doi and their relatives) occurs inside it at the start or after a vowel. When one does, the word is flagged, and if it can be divided, the marker and the remainder begin at the correct letters. Every name receives a verdict.',
  'quant': 'all consonant-final letter strings', 'why': 'Tests hold a handful of names; the check is a look-up machine whose cells are reached only by particular letter sequences.',
  'files': ['bccheck.c', 'bctables.in', 'morf.c'], 'mech': [('table-driven scan', 'bccheck.c: is_bad_cmene'), ('generated tables', 'bctables.in via dfasyn')],
  'technique': AI + ' over words with one marked position', 'note': 'All names of every length, all split positions.' + TRUST},
 {'id': 'M04', 'title': 'Borrowed words are divided from their classifier at the right letter',
  'statement': 'For every borrowed word that carries a classifier, the hyphen letter separating classifier from borrowed part, and therefore the classifier reported and glossed, is found at the position the morphology fixes.',
  'quant': 'all letter strings classified as borrowed words with a classifier', 'why': 'Only a few borrowed words occur in the tests; the position depends on the shape of the whole prefix.',
  'files': ['morf.c', 'morf_nfa.in'], 'mech': [('hyphen candidate tracking', 'morf.c: morf_scan, morf_xtra')],
  'technique': AI + ' with a marked position', 'note': 'All words of every length.' + TRUST},
 {'id': 'C01', 'title': "Every particle is recognised as itself, with its grammatical class",
  'statement': "Every particle in the language's inventory, written in any of its accepted spellings, is turned into a token that carries its own text and the grammatical class (selma'o) the language assigns it; every other particle-shaped word is reported as unknown and fails the parse instead of passing as some particle.",
  'quant': "all particle-shaped words (every consonant, vowel-group and apostrophe combination)", 'why': 'The inventory has several hundred members in a compiled look-up; tests use perhaps a third of them, and none of the absent ones.',
  'files': ['lex1.c', 'cmavotab.h', 'cmavotab.c', 'rpc2x.y'], 'mech': [('spelling to code computation and table look-up', 'lex1.c: process_cmavo and its tables'), ('table of text and token per code', 'cmavotab.c')],
  'technique': 'abstract interpretation of the IR with finite value sets over the whole particle space, compared with the confirmed lexicon', 'note': 'Exhaustive over the finite space of particle shapes.' + TRUST},
 {'id': 'W01', 'title': 'Text is cut into words and positions exactly as specified',
  'statement': 'For every input text, the words handed to the classifier are the maximal runs of word characters with separators, digits, stress and comment conventions applied as documented; each word is reported at the line and column where it starts, every word of the text is handed over exactly once, and reading always ends at end of file.',
  'quant': 'all character streams', 'why': 'The reader is a character-driven state machine with comments, digits, line ends and end of file in every state; tests contain ordinary text.',
  'files': ['lex1.c'], 'mech': [('character loop with position counters', 'lex1.c: parse_file')],
  'technique': 'extraction of the reader as a character-driven transducer by abstract interpretation; product check against a written specification', 'note': 'All texts; buffer capacity is outside the property (see DESIGN). ' + TRUST},
 {'id': 'W02', 'title': 'A word becomes exactly its tokens; foreign quotations stay whole',
  'statement': "A classified word becomes the tokens of its pieces, in order, each with its own text and position, with no letter lost or repeated; a rejected word gives a diagnostic and fails the run, and never a token. A zoi or la'o quotation takes the next word as delimiter and becomes one token with every word up to the recurrence of that delimiter; text ending inside one is reported.",
  'quant': 'all word classes, all numbers of leading pieces, all quotation histories', 'over': ['inputs', 'histories'], 'why': 'Tests show whole parses of valid text; piece positions, rejected words and unterminated quotations are not looked at.',
  'files': ['lex1.c'], 'mech': [('word to token conversion', 'lex1.c: process_word'), ('quotation state', 'lex1.c: zoi handling in process_word and parse_file')],
  'technique': 'abstract interpretation of the IR (effect sequence per word class)', 'note': 'Letters of the word are opaque to the code analysed, so one representative word per class and split stands for all; quotation bodies checked as state machine steps.' + TRUST},
 {'id': 'T01', 'title': 'Logical connectives are glossed with their true truth function',
  'statement': 'Every logical connective, in every position it can take (between sumti, bridi tails, tanru parts, and the forethought forms) and with every combination of na, se and nai on it, is explained with the truth function the language gives it: the basic function of its vowel, arguments exchanged by se, first argument negated by na (or nai on the first part), second by nai. Question connectives are explained as questions.',
  'quant': 'all connective words x positions x modifier combinations', 'why': 'The combinations number in the hundreds; tests display few, and a wrong entry gives a plausible but false gloss.',
  'files': ['connect.c'], 'mech': [('connective word to function', 'connect.c: connectives_processing'), ('modifier application', 'connect.c')],
  'technique': 'abstract interpretation of the IR over abstract parse trees with the connective word as a finite value set', 'note': 'Exhaustive over connectives, positions and modifiers for the tree shapes the grammar produces without attached indicators.' + TRUST},
 {'id': 'G01', 'title': 'The parser accepts exactly the confirmed Lojban grammar',
  'statement': 'The grammar the parser is generated from is the confirmed Lojban grammar: the same start symbol and the same set of productions over phrase kinds and token classes, without reduce/reduce conflicts or precedence tricks that would make the choice depend on rule order; and the parser tables compiled into the program are the ones that grammar determines. So a text is accepted exactly when the grammar derives its token sequence, and it gets the phrase structure of that derivation.',
  'quant': 'all token sequences', 'why': 'Tests hold some 200 sentences; the grammar has over 900 productions, many reached only by rare constructions.',
  'files': ['rpc2x.y', 'action.perl'], 'mech': [('grammar with elided-terminator productions', 'rpc2x.y'), ('expansion into actions', 'action.perl'), ('generated parser', 'rpc2x_act.tab.c')],
  'technique': 'query over the grammar as bison reads it (production-set equality with the confirmed grammar) and table equality for the compiled parser', 'note': 'Decides the language and the shape of every parse, for every token sequence, given bison. A different but equivalent grammar would have to be confirmed anew.' + TRUST},
 {'id': 'G02', 'title': 'Strict mode is the same grammar with no terminator left out',
  'statement': 'The strict parser (used to check texts in which every elidable terminator is written out) has exactly those productions of the normal parser that leave no terminator out, the same token classes and start symbol, and builds the same tree: a text strict mode accepts is accepted normally with the same structure, and strict mode rejects every derivation that leaves out a terminator.',
  'quant': 'all token sequences', 'why': 'Strict mode is derived by a filter script; the tests run it on very few texts.',
  'files': ['rpc2x.y', 'terminator.pl'], 'mech': [('strict grammar generation', 'terminator.pl'), ('strict parser', 'rpc2x_full_act.tab.c')],
  'technique': 'query over both grammars as bison reads them, with the action of every production evaluated by abstract interpretation of the IR', 'note': 'All productions; decided on grammar sets, so for every token sequence.' + TRUST},
 {'id': 'G03', 'title': 'The parse tree holds every word once, in order, with elisions marked',
  'statement': 'For every production, the node built is labelled with the phrase kind, has exactly the matched words and phrases as children in text order, linked to their parent and positioned at the first of them; and when the production leaves out a terminator and display of elisions is on, that terminator (right word, right class, marked as supplied) stands exactly where writing it out would be grammatical, while with display off nothing else changes.',
  'quant': 'all productions, all parses', 'why': 'A wrong argument in one action silently drops or reorders words only in texts using that production.',
  'files': ['rpc2x.y', 'action.perl', 'functions.c', 'elide.c', 'nodes.h'], 'mech': [('production actions', 'rpc2x.y via action.perl'), ('node building', 'functions.c: new_node_1..'), ('supplied terminators', 'rpc2x.y: new_elidable actions')],
  'technique': 'abstract interpretation of the generated parser\'s action code per production; rules over the resulting trees', 'note': 'All productions of both parsers. Productions where the language treats the word as an optional separator (cu in sei phrases) are not elisions.' + TRUST},
 {'id': 'P01', 'title': 'Tense phrases are recognised exactly as the grammar defines them',
  'statement': "The run of words taken together as one tense (or modal, or simple tag) before parsing is the longest one starting there that the published grammar's simple tense-modal allows: time, space, interval, actuality and ki parts in their order, numbers with roi, nai and se where permitted, and nothing else.",
  'quant': 'all sequences of token classes, any length', 'why': 'The recogniser is a generated machine over 25 classes; tests use short tenses.',
  'files': ['stag_nfa.in', 'categ.c', 'dfasyn'], 'mech': [('tense machine', 'stag_nfa.in via dfasyn'), ('class mapping and longest match', 'categ.c: map_stag_token, categorize_tenses')],
  'technique': 'regular-language equality by product fixpoint between the generated machine (tables read from the IR) and the grammar definition', 'note': 'All lengths. The longest-match loop around the machine is decided by P02 on bounded lists.' + TRUST},
 {'id': 'P02', 'title': 'Look-ahead markers stand exactly where the grammar needs them',
  'statement': 'Constructs the one-token parser cannot see ahead for (connectives followed by an optional tense and bo or ke, i with a connective or bo, forethought connectives starting with a tense or joik, tense phrases, numbers before mai/roi/moi, nahe bo, na ku, words followed by a free modifier) are announced by a marker in front of the construct, nested correctly, exactly when the construct is there; no word is lost, moved or changed, and the pass always completes.',
  'quant': 'all lists of up to 3 tokens of any class (thorough: 4), and all longer lists of the connective, tense and number shapes listed in the check', 'why': 'Markers depend on unbounded context; a missing one makes a valid text a syntax error only in the rare combination.',
  'files': ['categ.c', 'rpc2x.y'], 'mech': [('marker insertion passes', 'categ.c: categorize_tokens')],
  'technique': 'abstract interpretation of the IR over token lists whose classes are finite value sets, compared with a declarative specification', 'note': 'Exhaustive over classes within the list shapes. Longer lists are outside the bound.' + TRUST},
 {'id': 'P03', 'title': 'Quotation, erasure, compound, emphasis and letter words act correctly',
  'statement': "Before parsing, in this order: zo quotes the next word whatever it is; lo'u quotes up to le'u; si erases the preceding word (a quotation counts its words, and an incomplete erasure stays visible as an error); sa erases back to the nearest word of the class of the word after it; su back to a paragraph, quotation, group or parenthesis start, su su everything; zei makes one word of its neighbours; ba'e belongs to the next word; bu makes a letter word of the previous word; indicators with their nai and cai belong to the word before them, or to the whole text at its start; nothing is read after fa'o. Words not covered reach the parser unchanged with their positions. Quotations without an end, and zei or bu without a neighbour, are reported and fail the run instead of crashing.",
  'quant': 'all word sequences of up to 3 words (thorough: 4) over the classes the pass distinguishes, and all sequences of the longer quotation, erasure, compound and indicator shapes listed in the check', 'why': 'The constructs interact (quoted erasure words, erased quotations, compound of quotations); tests show each alone at most.',
  'files': ['lex2.c', 'erasure.c'], 'mech': [('preprocessing passes', 'lex2.c: preprocess_tokens'), ('si/sa/su', 'erasure.c: do_erasures'), ('token hand-over', 'lex2.c: yylex1')],
  'technique': 'abstract interpretation of the IR over token lists whose classes are finite value sets, compared with a declarative specification', 'note': 'Exhaustive over classes within the list shapes; memory errors (use after free included) on these paths are violations too.' + TRUST},
 {'id': 'T02', 'title': 'Conversions are folded into the right word, and the gloss form fits the role',
  'statement': "The gloss of every selbri word is taken for the place that the conversions (se, te, ve, xe, jai) applying to that word put first, over any chain and grouping of conversions, tanru, ke, bo, and connectives; a conversion is left without its own gloss exactly when its effect is in the gloss of the word it applies to; a word heading a sumti is glossed as a noun and a word of a sentence's selbri as a predicate; the conversion of a modal (se BAI) goes to that modal. Indicators and emphasis change none of this.",
  'quant': 'all sentences of the families in the check (built from the grammar: every production in a shortest sentence, every pair of adjacent choices up to 12 tokens, plus the listed long shapes), with conversion words as finite value sets', 'why': 'Conversions reach through unbounded nesting; a wrong link yields a fluent but false gloss that only appears for that shape.',
  'files': ['conversion.c', 'memorycollection.c', 'nodes.h', 'properties.c'], 'mech': [('conversion collection', 'conversion.c: do_conversions')],
  'technique': PIPE, 'note': PIPEN},
 {'id': 'T03', 'title': 'Every term is tagged with the place it fills',
  'statement': "Every sumti of a bridi, description, abstraction, relative clause or linked-argument list is tagged with the selbri words and the place number it fills in each of them: positional order starting at x1 (or x2 when nothing stands before the selbri), fa/fe/fi/fo/fu jumping and continuing, linked be/bei arguments, conversion and jai, shared terms of connected bridi tails and selbri; tagged and floating terms take no place; a place already taken is passed over, and no tag refers to a phrase that is not shown with its number. Indicators change none of this.",
  'quant': 'all sentences of the families in the check (see T02), with FA and SE words as finite value sets', 'why': 'Place structure depends on every earlier term, conversion and connective of the bridi; tests sample a few shapes.',
  'files': ['terms.c', 'memorycollection.c', 'properties.c', 'functions.c'], 'mech': [('term collection and place assignment', 'terms.c: term_processing')],
  'technique': PIPE, 'note': PIPEN},
 {'id': 'T05', 'title': 'Tenses and modals are glossed for the context they stand in',
  'statement': "Every tense, aspect, distance, direction and modal word carries the context of the nearest construct it serves: tagging a term, linking (connectives with a tense, i + tense + bo), inside a description, on a selbri or floating, inside a jai tag, or as a forethought connective; outside such constructs it carries none; no other word carries one.",
  'quant': 'all sentences of the families in the check (see T02), with every kind of tense in every position', 'why': 'Each tense word has several glosses; the wrong context gives a false translation only in that combination.',
  'files': ['tenses.c', 'properties.c'], 'mech': [('tense context propagation', 'tenses.c: tense_processing')],
  'technique': PIPE, 'note': PIPEN},
 {'id': 'T06', 'title': "Relative clauses and ke'a point to the right antecedent",
  'statement': "Every relative clause is linked to the phrase it is about, every ke'a to the innermost relative clause it stands in, the phrase referred to by a ke'a is shown with a number so that the printed reference exists, a clause is marked as containing ke'a exactly when it does, and a goi-word is left without its own gloss exactly when a tag says the relation.",
  'quant': 'all sentences of the families in the check (see T02), every kind of relative clause on every kind of antecedent', 'why': 'Ten antecedent positions times nested clauses; tests show few.',
  'files': ['relative.c', 'output.c', 'properties.c'], 'mech': [('clause linking', 'relative.c: relative_clause_processing'), ('numbering', 'output.c: add_bracketing_tags')],
  'technique': PIPE, 'note': PIPEN},
 {'id': 'O01', 'title': 'Brackets in the output pair up, are numbered in order, and references resolve',
  'statement': "In the gloss output of every parse, brackets open and close in pairs of the same kind and number, properly nested; their numbers run 1, 2, 3, ... in the order they open, and every numbered phrase is shown; every number the output refers to (#n in place tags and ke'a) is the number of a bracket that is shown; place tags stand inside a tag list in front of their term; the output driver is started and finished exactly once.",
  'quant': 'all sentences of the families in the check (see T02; all long shapes of the place, conversion, tense and relative clause checks)', 'why': 'References and bracket numbers depend on the whole nesting; tests compare a few fixed outputs.',
  'files': ['output.c', 'nodes.h', 'output.h'], 'mech': [('bracket numbering', 'output.c: add_bracketing_tags'), ('output traversal', 'output.c: do_output')],
  'technique': PIPE, 'note': PIPEN + ' The drivers behind the driver interface are a separate property.'},
 {'id': 'O02', 'title': 'The gloss shows every word of the text once, in order, as written',
  'statement': "The words handed to the output driver are the words of the parsed text, each once, in text order, in their own spelling (with the pause dot before a vowel and after a name); indicators keep their nai and intensity word, quotations and compounds their parts; terminators the parser supplied are shown only when asked for, in capitals, exactly where the tree has them. The one exception is nai after cu'i, which has no meaning and is dropped.",
  'quant': 'all sentences of the families in the check (see T02), with and without supplied terminators, and indicators with every suffix at every place of five sentences', 'why': 'Special treatment of ten phrase kinds could lose or repeat a word in rare combinations only.',
  'files': ['output.c', 'lex2.c', 'tree.c'], 'mech': [('output traversal', 'output.c: do_output'), ('indicator suffixes', 'lex2.c: preprocess_tokens')],
  'technique': PIPE, 'note': PIPEN},
 {'id': 'O03', 'title': "Every word is glossed with the dictionary's entry for its use",
  'statement': "After each word the output gives the gloss taken from the dictionary entry for that word in its use: selbri words by the place put first and by use as predicate, noun or modifier; tense, interval and modal words by the context they stand in; converted modals by the converted form; connectives by their truth function; ke'a with the number of its antecedent; indicators with their negation and intensity; compounds and quotations as one word; and fixed explanations ([is, does], [type-of], (of), [of]) stand exactly where the structure calls for them. Place tags name the word, the place and its meaning.",
  'quant': 'all sentences of the families in the check (see T02), with every kind of word and context', 'why': 'The choice of entry depends on several earlier passes; tests compare a few fixed outputs.',
  'files': ['output.c', 'properties.c'], 'mech': [('gloss choice', 'output.c: do_output')],
  'technique': PIPE, 'note': PIPEN + ' The dictionary is represented by a stub that names the entry asked for; what the dictionary answers is covered by the translation properties.'},
 {'id': 'D01', 'title': 'A word missing from the dictionary never stops or distorts the gloss',
  'statement': "Whatever entries the dictionary lacks (plain words, contextual forms, everything), the output of every parse is completed, with the same words, brackets and tags as with a full dictionary; a missing contextual form is replaced by the word's plain gloss, a missing part by a question mark, and otherwise the word stands without a gloss.",
  'quant': 'all sentences of the families in the check (see T02) under five patterns of missing entries', 'why': 'Tests run with one fixed dictionary.',
  'files': ['output.c'], 'mech': [('fallback glosses', 'output.c: do_output')],
  'technique': PIPE, 'note': PIPEN},
 {'id': 'D02', 'title': 'A word is glossed from the right dictionary entry, in the right English form',
  'statement': "For every word, place and use (noun, verb, qualifier, tag) and whatever the dictionary contains: an entry for that use of that place is used as it stands in preference to the entry for the place; an entry for the place is put into the English form its class letter prescribes for the use (D, S, A, P, R, I; a separate noun entry replaces the noun where the table says so); a redirection '@word<place>' takes over the gloss of the other word in the same use; failing both, the plain entry or '?' is shown and marked '??'. Endings (-s, -es, -ies, -er, -r, -ing with dropped e) and the inflection marker '*' inside a phrase follow the documented rules. No dictionary content makes the lookup crash.",
  'quant': 'all choices of presence and kind for every key consulted (nested redirections up to three entries), places 0-9, four uses; English forms for all two-letter endings and all marker positions of the family', 'why': 'Tests use one fixed dictionary and a few words.',
  'files': ['translate.c'], 'mech': [('lookup order', 'translate.c: adv_translate'), ('class forms', 'translate.c: fix_trans_in_context, make_plural, append_er, append_ing')],
  'technique': 'abstract interpretation of the translator IR over an unknown dictionary (each key\'s entry is a finite abstract choice made when it is first consulted); a written specification is evaluated on the entries every path assumed', 'note': 'Exhaustive over the choices; circular redirections are outside the bound.' + TRUST},
 {'id': 'D03', 'title': 'Compounds and borrowings without an entry are glossed from their parts',
  'statement': "A lujvo, zei compound or converted compound without an entry of its own is glossed by the dictionary's patterns for its last or first parts - higher precedence first, end before beginning, the '-' entry asking for a longer match, %-forms and redirections filled in from the rest of the word - and otherwise by the glosses of its parts joined by hyphens and marked '??'; se/te/ve/xe inside the compound exchange the places of the part they stand before. A borrowing with a classifier shows the classifier's gloss and the rest of the word in brackets. No compound, however many parts or long parts it has, makes the gloss crash.",
  'quant': '26 compounds and borrowings of up to six parts, places 0-7, four uses, all dictionaries with up to two to four relevant entries of every kind', 'why': 'Tests gloss a few compounds with the shipped patterns.',
  'files': ['translate.c', 'canonluj.c'], 'mech': [('pattern matching', 'translate.c: attempt_pattern_match'), ('parts', 'translate.c: translate_lujvo, translate_unknown; canonluj.c: canon_lujvo')],
  'technique': 'as D02, over compounds', 'note': 'Exhaustive over the choices for the listed compounds; the noun entry of a pattern containing % is left open.' + TRUST},
 {'id': 'R01', 'title': 'Lookups find exactly what the dictionary compiler was told',
  'statement': "After any history of runs of the dictionary compiler - over one or more source files, creating a database or updating an existing one - a lookup finds, for every key, exactly the definition given last and not withdrawn since, and nothing else. A definition for a place withdraws earlier n, v, q and t forms of that place; a definition of a compound's place is also found under its parts; comments, blank lines, lines without a word or colon are ignored and third fields are dropped; a definition too long for the database is refused without harming others.",
  'quant': 'all histories of up to three source lines (thorough: four) out of 38 kinds, split in every way over lines, files and runs; every key concerned is looked up', 'why': 'No test builds a dictionary by more than one route.',
  'files': ['smujajgau.c', 'dictaccs.c', 'canonluj.c'], 'mech': [('transactions, sorting, crunching, database format', 'smujajgau.c: main'), ('database reading and bisection', 'dictaccs.c: dict_lookup')],
  'technique': 'abstract interpretation of the IR of compiler and reader composed over a modelled file system, source lines being abstract choices; compared with a written specification of the surviving entries', 'note': 'qsort is modelled by a stable insertion sort over the comparison function. The embedded-dictionary build variant is outside the bound.' + TRUST},
 {'id': 'J01', 'title': 'The lujvo maker lists exactly the lujvo of a tanru, best first',
  'statement': "For every tanru whose components are gismu or cmavo of the word list, jvocuhadju lists each combination of the components' rafsi once, with exactly the hyphens the reference grammar requires (r/n after an initial CVV, y after four-letter rafsi, between impermissible consonants and where the first syllable would otherwise fall off), each with the reference grammar's score, in order of score, the best marked; without -a the best eight; long rafsi only with -l or where there is no short one, 'brod' only with -b. Every listed word is one lujvo for the word classifier, and display options change only what they name. A tanru without a lujvo, an unknown component of any length or too many components are refused with status 1; nothing crashes.",
  'quant': 'every word of the list as first and as last component; all pairs and triples of representatives of every rafsi shape with every relevant first/last letter; tanru of five; option combinations', 'why': 'Tests make a handful of lujvo.',
  'files': ['jvocuhadju.c', 'lujvofns.c'], 'mech': [('hyphens, scores, listing', 'jvocuhadju.c: main, makelujvo, can_join'), ('falling-off test', 'lujvofns.c: is_valid_lujvo')],
  'technique': 'abstract interpretation of the program IR over the tanru family (lib/lujvo.py); printed output compared with a written specification that consults the confirmed word classifier (M01)', 'note': 'qsort is modelled by a stable insertion sort over the comparison function; order among equal scores is left open.' + TRUST},
 {'id': 'L01', 'title': 'A lujvo is taken apart into the words it was made from',
  'statement': "Every lujvo formed by the reference grammar's rules from gismu and cmavo of the word list, with any of their rafsi in any position, is taken apart into exactly those words in order, hyphens being dropped and no part lost or misread ('brod' standing for any of the broda series); the result, taken apart again, stays the same; cmavo compounds are not taken apart.",
  'quant': 'every word of the list as first, middle and last component; pairs and triples of representatives of every rafsi shape with every relevant first/last letter; six-part lujvo', 'why': 'Tests look up a few compounds.',
  'files': ['canonluj.c', 'canonluj.pl', 'lujvod.pl'], 'mech': [('splitting', 'canonluj.c: canon_lujvo'), ('rafsi table', 'canonluj.pl')],
  'technique': 'abstract interpretation of canon_lujvo IR over the lujvo family; the oracle is the forward construction (written specification of J01)', 'note': 'Exhaustive for the family; bsearch is modelled by bisection over the comparison function.' + TRUST},
 {'id': 'B01', 'title': 'Every output format shows all that is to be shown, in order and readably',
  'statement': "For every sequence of output requests (words, glosses, tags, brackets, line ends) and every line width, each of the five output formats (plain text, text in blocks, LaTeX, LaTeX in blocks, HTML) shows exactly the requested words, glosses and tags, each once and in order, with the bracket characters and numbers of that format and properly nested markup, after a well-formed opening and before a well-formed closing of the document; in the blocked formats a gloss or tag stands with its word; words with any printable character in them are shown as these characters (escaped as the format demands); nothing is lost, run together, or written outside the buffers for long words, many tags or wide lines.",
  'quant': 'all sequences of up to three output events of 29 kinds; every printable character in every kind of text; up to 300 words, 100 tags, words of 60-300 letters, widths 1 to 2000; five formats', 'why': 'Tests compare few texts in two formats only.',
  'files': ['textout.c', 'textblk.c', 'htmlout.c', 'latex.c', 'latexblk.c'], 'mech': [('plain text', 'textout.c: textout_driver'), ('blocks', 'textblk.c: text_block_driver; latexblk.c: latex_block_driver'), ('HTML', 'htmlout.c: html_driver'), ('LaTeX', 'latex.c: latex_driver')],
  'technique': 'abstract interpretation of the driver IR over the family of call sequences (lib/drivers.py); the emitted text is read back by a reader of each format and compared with what was requested', 'note': 'White space is left open except where it separates words. In LaTeX, \\ and $ in glosses stand for markup and ^ ~ and quotes are left open.' + TRUST},
 {'id': 'E01', 'title': 'The elision report names exactly the terminators that can be left out',
  'statement': "When asked which terminators could be omitted (-se), the program reports, for every run of neighbouring terminators and separators (cu, ku, vau, kei, be'o, boi, ...) that carry no indicator or free modifier, either that the whole run can be left out, or the least selections of its words that suffice, or nothing; the ku of na ku is not an omissible terminator. Every report is true: when the other words of the run are left out, the text still parses, and to the same structure; and no report is missing or longer than need be: a run that can be left out whole is reported so, and the selections listed are exactly the least sufficient ones. A longer report than necessary is accepted in four situations: a number, tense or cmavo of MOI after a number or letter; before a cmavo of MOI; before a free modifier; and with ke'e after gi'e ke.",
  'quant': 'all sentences of the families in the check (every production and pair of productions with all terminators written out; two phrases nested in every way, closed by all their terminators and followed by every kind of continuation; numbers and letters in every position before every kind of continuation), runs of up to seven terminators', 'why': 'The report is computed from the parser tables while parsing; no test uses it, and a wrong one changes the meaning of a text only when its advice is followed.',
  'files': ['elide.c', 'output2elide.pl', 'categ.c'], 'mech': [('monitoring of shifts and reductions', 'elide.c: elide_trace_shift, elide_trace_reduce'), ('search for least selections', 'elide.c: show_minimal_elidables'), ('table of shiftable tokens', 'output2elide.pl')],
  'technique': 'equality of the consulted table with the parser automaton for all states and tokens; abstract interpretation of the IR of parser and reporter, each report compared with the parses of the shortened token lists', 'note': PIPEN},
 {'id': 'S01', 'title': 'The default display and the tree displays show the parse as it is',
  'statement': "For every text that parses, the default output (bracketed text) shows every word of the text once and in order, each with its indicator suffixes and, if asked for (-g), its gloss, and with brackets that are properly nested and enclose exactly the phrases of the parse with more than one part; terminators left out are shown only when asked for. The tree display (-t, and -tf for the full tree) lists exactly the phrases and words of the parse, parts in order and each phrase after its parts, indented by depth, -t leaving out those with a single part, with each word under its own selma'o and left-out terminators marked.",
  'quant': 'all sentences of the families in the check (every production; indicators, quotations of every kind, letters, numbers, names, line marks), with and without elided terminators and glosses', 'why': 'These are the displays every user reads first; the tests compare only a few of them.',
  'files': ['tree.c', 'output.c'], 'mech': [('bracketed text', 'tree.c: print_bracketed_text'), ('tree', 'tree.c: print_parse_tree'), ('leaving out phrases of one part', 'tree.c: compress_singletons')],
  'technique': PIPE.replace('a written specification is evaluated on every resulting parse tree', 'the displayed text is read back and compared with the parse tree'), 'note': 'White space and the division of a selma\'o that follow its name are left open. ' + PIPEN},
 {'id': 'X01', 'title': 'Every option does what its help says, in every combination',
  'statement': "Every command-line option does what the help text says, whatever other options are given with it and in whatever order: the text is read from the named file or standard input; a text that parses is shown in exactly the one format asked for (tree, full tree, LaTeX, plain text, HTML, each with or without blocks, or bracketed text with or without glosses), after all the processing that format needs; option settings (-ie, -re, -se, -sev, -cr, -bt, -dd, -w, -d) are in force when the reader, the parser and the displays run; -k shows the tokens before and after preprocessing, -m the memory statistics; nothing is shown of a text that does not parse. The exit status is 0 for a text that parses, 1 for one that does not, 2 when it parses only after syntax errors, 3 for words that can not be read, 0 for help and version, 1 with a message for a wrong command line or a file that can not be opened.",
  'quant': 'all command lines of up to two of 38 words, all orders of three and all sets of four and five display options, and nearly full ones; each with every outcome of reading and parsing', 'why': 'Tests use a handful of option combinations, each on valid text.',
  'files': ['main.c'], 'mech': [('reading the command line', 'main.c: main'), ('order of the stages', 'main.c: main')],
  'technique': 'abstract interpretation of main() over the family of command lines with the outcomes of the stages as symbolic values; a written specification is evaluated on the sequence of stage calls of every path', 'note': 'When several formats are asked for the order is tree, LaTeX, text, HTML. The passes may run in any order that gives the same output (decided over the grammar family if it differs).' + TRUST},
 {'id': 'X02', 'title': 'A syntax error is reported where it is, with the true state of the parse',
  'statement': "For every text the grammar in use (normal, or strict with -re) does not accept, and for no other, a syntax error is reported on standard error: the token at which the parser stopped (or the end of the text) with its word, class, line and column, and up to eight tokens before it, latest first. With -bt, and only then, the report goes on with exactly the grammar rules reduced since the last word was taken in, the state the parser is stuck in with its partial rules and the word classes possible there, and the states below it, innermost first. A connective gi'e without a selbri before it is reported with its own place in the text.",
  'quant': 'every production and every pair of nested productions of the grammar, cut short, with a word left out or a wrong word put in at each place; both grammars, with and without the trace', 'why': 'The trace depends on tables of several thousand parser states generated from the grammar; the tests hold no trace and few errors.',
  'files': ['tracebk.c', 'lex2.c', 'output2table.pl', 'add_trace_to_tabc.pl'], 'mech': [('report', 'tracebk.c: report_trace_error'), ('tokens', 'lex2.c: print_last_toks'), ('tables', 'output2table.pl')],
  'technique': 'abstract interpretation of the compiled parsers and the report over token lists derived from the grammar; the printed report is read back and compared with the automaton bison derives from the same grammar, run as a model', 'note': 'Rule 0 and the places of markers inside the list are left open, and after a first error the list of reduced rules.' + TRUST},
 {'id': 'V01', 'title': 'The word classifier shows each word as the library classifies it',
  'statement': "For the word on vlatai's command line, or each line of standard input, the line printed names the class the word analyser of jbofihe gives it, and divides a run of words, a borrowing with its classifier and a name with markers exactly where the analyser divides them; with -el a lujvo is followed by the words it was made from and nothing is added to other words; with -v details are added; every word gives one line, in order.",
  'quant': 'every class the analyser distinguishes, every way of dividing a word, on the command line and in lists on standard input', 'why': 'The tests of the classifier are a list of about a hundred words.',
  'files': ['morf.c'], 'mech': [('display', 'morf.c: main'), ('expansion', 'canonluj.c: canon_lujvo')],
  'technique': "abstract interpretation of the program's main() over words of each class; the printed line is compared with the results of the library build of the same analyser on the same word (itself decided by M01-M04 and L01)", 'note': 'The wording for texts that are no word is left open, as is -el for a lujvo with capitals in the wrong places.' + TRUST},
 {'id': 'Q01', 'title': 'A missing selbri is asked about exactly where an utterance is nothing but sumti',
  'statement': "For every grammatical text, a warning that a sentence may be missing its selbri is printed once for each utterance, also inside quotations, parentheses and tu'e groups, that consists of terms alone (with or without vau and free modifiers), with the line and column of its first word; and for no other utterance.",
  'quant': 'all sentences of the grammar family (every production inside every production), and utterances of known kind in every surrounding', 'why': 'The tests compare translations on standard output; the warnings are not looked at.',
  'files': ['errorscan.c'], 'mech': [('scan', 'errorscan.c: error_scan')],
  'technique': 'abstract interpretation of the parser and error_scan() over token lists of the grammar; the warnings are compared with the fragments of terms in the tree, and with utterances whose kind is known by construction', 'note': TRUST.strip()},
 {'id': 'K01', 'title': 'cmafihe glosses every word of a text once, in order, from the dictionary',
  'statement': "For every dictionary and text, cmafihe shows each Lojban word, remark and paragraph break once and in order, and reports what is no word. A cmavo or cluster is shown with its entry and selma'o, or else with the longest runs of its cmavo that have entries and ? for a cmavo that begins none; a brivla with its entry, or else its rafsi glossed in order, a se-rafsi converting just the next one, and a borrowing with its classifier glossed and the rest in brackets. The inline, LaTeX (-l) and block form (-b, lines filled up to -w) show the same glosses, without touching memory out of bounds.",
  'quant': 'every combination of entries present and absent for words, clusters and compounds of every shape; texts mixing words, remarks in nested brackets, paragraph breaks and stray characters in every form and width', 'why': 'The glosser has no tests; a wrong division or a lost word shows only for a particular word and dictionary.',
  'files': ['cm_gather.c', 'cm_translate.c', 'cm_output.c', 'cm_main.c', 'cm_scan.l'], 'mech': [('lookup and division', 'cm_gather.c: do_trans, try_cmavo_fragment'), ('compounds', 'cm_translate.c: translate_lujvo, translate_unknown'), ('layout', 'cm_output.c: do_block')],
  'technique': 'abstract interpretation of the program with its generated scanner, from main(), with a dictionary left open (each first lookup branches into present and absent); the output of every path is compared with a written specification of the glosses for what that path found', 'note': 'Runs of more than three cmavo and mixed texts take sample dictionaries; brackets of a remark are compared without their layout; words with two se-rafsi in a row are outside.' + TRUST},
]

NA = [
 {'id': 'N01', 'title': 'Time and memory stay in proportion to the text',
  'statement': 'For every text, however long, the translator finishes in time and memory proportional to the length of the text (the elision report: to the number of terminator runs), and a text, word or gloss of any length is processed or refused with a message.',
  'quant': 'all texts', 'why': 'Growth can not be seen in short tests.', 'files': ['main.c', 'memory.c', 'elide.c', 'translate.c'], 'mech': [('storage', 'memory.c')],
  'reason': 'Cost as a function of an unbounded input length is a runtime quantity: the lists, stacks and trees are built dynamically and no sound static argument within reach bounds them; the abstract interpretation decides completion only for the families it runs.'},
]
