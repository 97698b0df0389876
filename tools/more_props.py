prop("C12", "UTF-8 decoding accepts exactly what its options allow",
     "The UTF-8 decoder accepts, at every position, exactly the sequences its options permit - shortest forms of scalar values by default; surrogate pairs with CESU, lone surrogates with LOOSE, overlong forms with OVERLONG (encoded NUL only with NUL), five and six byte forms and values over U+10FFFF with SUPER - yields that value, and counts one input error for every other byte, resuming at the next byte.",
     ["inputs", "configurations"], "all byte strings and all sets of options",
     "Tests decode a few well-formed texts and a couple of malformed ones; the boundary values times options times resynchronisation are thousands of combinations.",
     ["modules/from/_UTF-8.c", "modules/from/_UTF-8.txt", "modules/from/ASCII.txt"],
     [("sequence automaton with range, surrogate and option tests", "modules/from/_UTF-8.c: cbconv()")],
     ["bsdconv() with (ASCII,)_UTF-8#OPTIONS:PASS"],
     "Unicode.tla, Stream.tla, Transcode.tla, MCUnicode.tla",
     "TLA+ specification of UTF-8 with options (Unicode.tla) checked by TLC against Unicode Table 3-7; TLC decides recorded decodings",
     "The specification is checked against an independent statement of well-formedness on all short strings over boundary bytes; the code's cells and error counts on all lead/second byte pairs, short boundary strings and random mixtures under the option sets are compared with it by TLC.")

prop("C13", "Unicode encodings and GB18030 transcode losslessly",
     "Every Unicode scalar value survives conversion between UTF-8, UTF-16 and UTF-32 in both byte orders and GB18030 as the character it is (GB18030 as the standard assigns it); what an encoding cannot represent is dropped and counted as one output error, what is malformed is skipped and counted as input error, and neither disturbs its neighbours.",
     ["inputs", "configurations"], "all code points, all pairs of these encodings and byte orders, all malformed inputs",
     "Tests convert a handful of characters; the mapping is a union of tables, ranges and arithmetic where single ranges can be wrong.",
     ["modules/from/UTF-16LE.c", "modules/from/UTF-16BE.c", "modules/from/UTF-32LE.c", "modules/from/UTF-32BE.c", "modules/from/_GB18030.c", "modules/from/_GB18030.txt",
      "modules/to/UTF-16LE.c", "modules/to/UTF-16BE.c", "modules/to/UTF-32LE.c", "modules/to/UTF-32BE.c", "modules/to/UCS-2LE.c", "modules/to/UCS-2BE.c", "modules/to/_UTF-8.c", "modules/to/_GB18030.c", "modules/to/_GB18030.txt"],
     [("decoders", "modules/from/{UTF-16,UTF-32}*.c, _UTF-8.c, _GB18030.c: cbconv()"), ("encoders", "modules/to/{UTF-16,UTF-32,UCS-2}*.c, _UTF-8.c, _GB18030.c: cbconv()")],
     ["bsdconv()"],
     "Unicode.tla, Stream.tla, Transcode.tla, MCTranscode.tla",
     "TLA+ specification of the encoding forms, checked reversible by TLC; TLC decides recorded transcodings between every pair",
     "Thorough covers every block of 64 code points (each for a share of the pairs); quick a sample of blocks for all pairs plus mixed malformed inputs. GB18030's BMP table is given to the specification from an independent implementation.")

prop("C11", "A compiled mapping table means what its source says",
     "For every table source the compiled codec maps exactly what the lines say: comments and blank lines aside, hexadecimal keys, * for any byte, ! for either letter case, several cells per key and per output, outputs of any length sharing storage or not; among lines that match the same key the one with the longer exact part and then the first decides, and plain entries take precedence over callbacks.",
     ["inputs", "configurations"], "all table sources, among them the shipped ones, and all inputs",
     "The tests never compile a table of their own; an error in sharing of states or data, in range bounds or precedence shows for particular combinations of lines only.",
     ["src/bsdconv-mktable.c", "src/libbsdconv.c", "src/bsdconv-dbg.c", "modules"],
     [("line parser, state tree with wildcard and case expansion, precedence levels", "src/bsdconv-mktable.c: main()"),
      ("shared storage of output lists and cells", "src/bsdconv-mktable.c: hash(), hash_callback()"),
      ("reading the compiled form", "src/bsdconv.h: get_offset(), read_state(), LISTCPY_ST")],
     ["bsdconv-mktable", "bsdconv()"],
     "TableText.tla",
     "TLA+ specification of the source language and its meaning (TableText.tla); TLC decides what the real compiler and engine made of recorded sources and inputs",
     "Random sources of up to 60 lines with extending, overriding, wildcard, folded, callback and data-sharing entries are compiled by the real compiler and queried; slices of every shipped table are compared with their sources too, and bsdconv-dbg's walk through the synthetic ones with the specification's. Callback tables over cells are of the two-level shape the shipped ones have.")

prop("C06", "A conversion string is accepted for, and means, what its grammar says",
     "A conversion string is pipes '|' of phases ':' of codecs ',' with '#arguments', white space and the case of codec names not mattering; a pipe's first phase decodes, its last encodes, others map; an alias stands for its text, with its arguments handed on. Creating an instance succeeds exactly if every codec exists and its arguments are meaningful, fails with EINVAL or EOPNOTSUPP otherwise, and bsdconv_pack() gives a string of modules only, which converts alike.",
     ["inputs", "configurations"], "all strings, all aliases, all arguments of all codecs, all locales",
     "The tests create some 120 valid strings; what happens on others, with nested aliases, arguments on aliases, several phases per alias, malformed arguments, is open-ended.",
     ["src/libbsdconv.c", "src/libbsdconv_module.c", "modules"],
     [("parser of conversion strings, alias expansion loop", "src/libbsdconv.c: bsdconv_unpack(), bsdconv_pack(), bsdconv_create()"),
      ("alias lookup in the compiled alias tables", "src/libbsdconv_module.c: bsdconv_solve_alias()"),
      ("argument checking", "modules/*/*.c: cbcreate()")],
     ["bsdconv_create()", "bsdconv_pack()", "bsdconv_solve_alias()", "bsdconv_get_error_code"],
     "ConvString.tla, MCConvString.tla",
     "TLA+ specification of the conversion string language (ConvString.tla), its parser and printer checked inverse by TLC on all short strings; TLC decides recorded creates, packs and alias lookups",
     "All strings of up to 5 (thorough 6) grammar tokens, every module and alias in every position, all listed argument forms and random strings, under several locales. The module and alias names are read from the tree (directory and alias files), so what an alias stands for follows the sources; a packed string is run against the original on one sample text.")

prop("C07", "Editing a conversion string changes the named place and nothing else",
     "insert_phase, insert_codec, replace_phase and replace_codec return the conversion string with the given phase or codec put in or exchanged at the given index (negative ones counting from the end, for insertion the place behind the last included) and everything else as it was; an index that names no place and a string that cannot be parsed yield no string.",
     ["inputs"], "all strings, phase and codec indices, and inserted texts",
     "The tests do not call these functions.",
     ["src/libbsdconv_util.c", "src/libbsdconv.c"],
     [("index arithmetic and list surgery", "src/libbsdconv_util.c: bsdconv_insert_phase(), bsdconv_insert_codec(), bsdconv_replace_phase(), bsdconv_replace_codec()")],
     ["bsdconv_insert_phase()", "bsdconv_insert_codec()", "bsdconv_replace_phase()", "bsdconv_replace_codec()"],
     "ConvString.tla, MCConvString.tla",
     "TLA+ specification of the edits (ConvString.tla: Edit), its frame conditions checked by TLC on all short strings; TLC decides recorded calls",
     "All strings over the separators of up to 4 (thorough 5) characters and random larger ones, all indices from far below to far above the range, with address sanitizer watching.")

prop("C08", "What instances hold is released, also when creating one fails",
     "An instance holds file descriptors, maps, code and memory from its successful creation until it is destroyed, whatever was or was not done with it in between; a creation that fails, for whatever reason and at whatever point, holds nothing, and never yields an instance that lacks a part of its conversion. The working directory is never left changed.",
     ["histories", "fault_sequences", "configurations"], "all conversion strings good and bad, all histories, every point at which descriptors may run out",
     "Tests create valid conversions one after the other with all the descriptors they want and look at nothing else.",
     ["src/libbsdconv.c", "src/libbsdconv_module.c", "modules"],
     [("loading and undoing in create", "src/libbsdconv.c: bsdconv_create(), loadcodec(), unloadcodec(), bsdconv_destroy()"),
      ("resources of the codecs themselves", "modules/*/*.c: cbcreate(), cbdestroy()")],
     ["/proc/self/fd", "/proc/self/maps", "allocated bytes", "bsdconv_create()"],
     "Resources.tla, MCResources.tla",
     "TLA+ account of what instances hold (Resources.tla) and model of the create/undo sequence failing at any point (MCResources.tla, TLC); TLC decides recorded histories of the real library",
     "Histories of good and bad creates, feeds and destroys over all shipped modules; for a sample (thorough: all) of conversions, creates with every number of descriptors left from 0 to more than enough. Memory exhaustion is not covered: the library does not claim to survive it.")

prop("C09", "Stored values and counters read back what was written",
     "Values stored under a key in an instance are returned for exactly that key until replaced or removed; counters are told apart regardless of letter case, start at zero, stay where they are while the instance lives, count exactly what the codecs report and what callers add, and are reset one by one or together without disturbing anything else.",
     ["histories", "inputs"], "all histories of hash and counter calls mixed with conversions, all keys",
     "The tests read counters after a single conversion; re-ordering on access, removal and case rules are not exercised.",
     ["src/libbsdconv_hash.c", "src/libbsdconv_counter.c", "src/bsdconv.h"],
     [("move-to-front list of hash entries", "src/libbsdconv_hash.c"), ("counter list", "src/libbsdconv_counter.c")],
     ["bsdconv_hash_set/get/has/del()", "bsdconv_counter()", "bsdconv_counter_reset()"],
     "Store.tla, MCStore.tla",
     "TLA+ map specification (Store.tla) refined by the move-to-front list (MCStore.tla, TLC); TLC decides recorded histories",
     "Random histories of up to 60 operations with conversions in between, over keys that differ in case, are empty, long or non-ASCII.")

prop("C14", "Fallbacks keep, replace and count exactly what nothing else takes",
     "In a phase the first codec that recognises something takes it, and what none recognises goes to the fallback that is given: BYTE keeps it, ANY replaces it, ERROR counts it, RAW and NULL write or drop it. What PASS puts by, marked or not, is handed on unaltered and taken up again by exactly the PASS that asks for it. So a conversion with BYTE on both sides gives back every input, and only what is damaged is replaced, decoded otherwise or counted.",
     ["inputs", "configurations"], "all byte sequences, all combinations of codecs, fallbacks, filters and marks in any number of pipes",
     "The tests have a dozen inputs through fixed conversions; lossless handling of damaged text is claimed for every input and every combination.",
     ["modules/from", "modules/inter", "modules/to", "src/libbsdconv.c"],
     [("fallback codecs", "modules/from/{ANY,BYTE,PASS,FALLBACK-UNICODE}.c, modules/to/{ANY,BYTE,PASS,RAW,NULL}.c"),
      ("order of codecs, error counting", "src/libbsdconv.c: bsdconv()"), ("mark carried by cells", "src/bsdconv.h: F_MARK")],
     ["cells and bytes bsdconv() puts out", "counters"],
     "Codecs.tla, MCCodecs.tla",
     "TLA+ specification of every codec's recognition and of the phases as functions (Codecs.tla), its laws (lossless, marks, escapes) checked by TLC on all short byte strings (MCCodecs.tla); TLC decides recorded conversions",
     "Some 1500 random conversions of up to three pipes with fallbacks, filters and marks, and the documented idioms, on inputs mixing text, damaged text and control sequences, cut at random.")

prop("C15", "Escaped text is read and written exactly, and read back the same",
     "Escapes (%XX, %uXXXX, \\uXXXX, \\xXX, \\OOO), numeric and named HTML entities, hexadecimal text and cell dumps are read as what they stand for, and only where they are complete and valid; everything around them is untouched and left to the other codecs. Writing yields the form asked for, and reading that back gives the characters or bytes written.",
     ["inputs", "configurations"], "all texts with complete, damaged, nested and overlapping escapes, all characters and bytes, all prefixes, suffixes and bases",
     "The tests read a handful of well-formed escapes; partial and overlapping ones exercise the codecs' state machines, which tests cannot exhaust.",
     ["modules/from", "modules/to"],
     [("reading", "modules/from/{ESCAPE,ASCII-NUMERIC-HTML-ENTITY,BSDCONV,HEX}.c, ASCII-NAMED-HTML-ENTITY.txt, BSDCONV-KEYWORD.txt"),
      ("writing", "modules/to/{ESCAPE,BSDCONV,HEX,ASCII-HTML-UNICODE-IMG}.c, ASCII-NAMED-HTML-ENTITY.txt"), ("engine states NOOP, SUBROUTINE", "src/libbsdconv.c: bsdconv()")],
     ["cells and bytes bsdconv() puts out", "counters"],
     "Codecs.tla, MCCodecs.tla",
     "TLA+ specification of the escape grammars (Codecs.tla: EscapeUnit, NcrUnit, BsdconvUnit, EscapeOut); TLC decides recorded conversions; named entities against HTML 4's list",
     "Some 5000 conversions of random mixes of escapes, with every named entity, and 250 round trips per run. Escapes of \\u with other than four digits are not read back (the writer's even number of digits is what there is); entity names in mixed case are not specified.")

prop("C16", "Shifted encodings keep their state, and come back to the start",
     "In EBCDIC with double byte characters shift-out and shift-in switch between the sets, in ISO-2022-JP the escape sequences do; every byte is read in the set in force, whatever damaged sequences came before, and a new input starts in the initial one. Encoding puts the shifts where they are needed, and ends unshifted.",
     ["inputs", "histories"], "all byte sequences, all sequences of switches, damaged sequences and characters, all cuts",
     "State carried from one character to the next, across chunks and inputs, makes the space of histories unbounded; the tests have one input each.",
     ["modules/from", "modules/to"],
     [("ISO-2022-JP reader", "modules/from/_JIS.c"), ("EBCDIC reader and writer", "modules/from/EBCDIC.c, modules/{from,to}/IBM-93*.c")],
     ["cells and bytes bsdconv() puts out", "counters"],
     "Codecs.tla",
     "TLA+ specification of the shift states (Codecs.tla: EbcdicUnit, EbcdicOut, JisUnit, Shifted); TLC decides recorded conversions",
     "Some 5000 conversions of random streams over all EBCDIC and JIS codecs. EBCDIC writers are specified as the first codec of their phase, as all aliases have them; a double byte character without shift-out is accepted where nothing else fits, as the code has it.")

prop("C17", "Normalization yields Unicode's normal forms for every character sequence",
     "NFD, NFC, NFKD and NFKC turn every sequence of characters into its normal form: equal for canonically (compatibly) equivalent texts, unchanged when applied again, with combining marks in canonical order and Hangul composed and decomposed by rule. The caseless match forms fold alike whatever differs in case only. What is no character is handed on untouched and separates what is around it.",
     ["inputs", "schedules"], "all sequences of characters of Unicode 13, all cuts of the input",
     "Normal forms are defined over unbounded sequences (runs of marks, Hangul syllables, blocked compositions, order across flushes); the tests have one or two characters each.",
     ["modules/inter"],
     [("canonical ordering and composition queues", "modules/inter/{_NF-ORDER,_NFC,_NF-HANGUL-COMPOSITION,_NF-HANGUL-DECOMPOSITION}.c, _NF-CCC.h"), ("decomposition tables", "modules/inter/{_NFD,_NFKD,_NFC-MAP,CASEFOLD}.txt"), ("multi-phase aliases", "modules/inter/alias")],
     ["cells bsdconv() puts out"],
     "Normal.tla, MCNormal.tla",
     "TLA+ specification of decomposition, ordering, composition and Hangul (Normal.tla); TLC checks idempotence, equivalence and maximality (MCNormal.tla) and decides recorded conversions; Python's unicodedata is a second oracle",
     "Every character of Unicode 13 that decomposes, composes or combines, and some 6000 random sequences per run, with random cuts.")

prop("C18", "Stream-editing stages count, pick, cut and pad exactly what they are told",
     "Stages that edit the stream (count, pick strings, insert, replace, trim to a width, pad ambiguous characters, take white space out and put it back, unify line ends, count widths) do so to exactly the cells their arguments and filters name, count what they did under the right names, and hand on all other cells unaltered and in order, up to the end of the input.",
     ["inputs", "configurations", "schedules"], "all cell sequences, all arguments and filters, all cuts, several such stages in a row",
     "Tests have one example of each stage with one argument set; boundaries of filters' ranges, buffered runs at the end of the input and combinations are not exercised.",
     ["modules/inter", "src/libbsdconv.c"],
     [("stages", "modules/inter/{COUNT,STRINGS,INSERT,REPLACE,TRIM-WIDTH,WIDTH,AMBIGUOUS-*,WHITESPACE-*,PASS,NULL}.c, UNIX.txt, MAC.txt, WIN.txt, NL2BR.txt"), ("filters", "modules/filter/*.c, src/libbsdconv.c: load_filter()"), ("width table", "modules/inter/_WIDTH.h")],
     ["cells bsdconv() puts out", "counters"],
     "Codecs.tla, MCCodecs.tla",
     "TLA+ specification of every stage as a function on cell sequences (Codecs.tla) with its laws checked by TLC (MCCodecs.tla: Rails, LineEnds, Picked, Padded, Widened); TLC decides recorded conversions",
     "Every filter at the edges of its ranges, every width boundary, and some 8000 random texts through random stages per run, cut at random. Widths and line ends come from Unicode 13's data, not from the tree.")

prop("C19", "Character mappings give what Unicode's data says, and only that",
     "Upper and lower case, case folding, full and half width, superscript and subscript map every character as the Unicode data has it and leave every other character alone; mapping twice is mapping once, full and half width undo each other, and the mappings apply wherever the character stands and however the input is cut.",
     ["inputs"], "all characters of Unicode 13, alone and in any text, through one or several mappings",
     "Tests have a few letters; a wrong, missing or extra entry among thousands shows only for its character.",
     ["modules/inter"],
     [("mapping tables", "modules/inter/{UPPER,LOWER,CASEFOLD,FULL,HALF,SUPER,SUB,UPSIDEDOWN,ASCIIFOLD}.txt"), ("table lookup", "src/libbsdconv.c: bsdconv(), tools/mktable.c")],
     ["cells bsdconv() puts out"],
     "MCMappings.tla, Codecs.tla",
     "TLA+ specification of mappings over Unicode 13's data, laws checked by TLC for every entry (MCMappings.tla); TLC decides recorded conversions of every character and of texts",
     "Every character is mapped by every mapping once per run. UPPER follows the simple case mapping where there is one and the full one elsewhere. UPSIDEDOWN and ASCIIFOLD have no data of Unicode's: their entries are taken from the tree and only their laws and their application are decided.")

prop("C20", "Module listings, completion and manuals name exactly what can be used",
     "The listing of a module type is the sorted list of the modules and aliases there are of that type, complete and without extras; availability of a name is answered accordingly and regardless of letter case; unknown types have nothing. Every listed codec can be used in a conversion, and what the tools list, offer as completion of a conversion typed so far, or show as manual is exactly what belongs to it.",
     ["configurations", "inputs"], "all module directories and alias files, all names and types, all partial conversions",
     "The tests never list modules, complete a word or look up a manual.",
     ["src/libbsdconv_module.c", "src/bsdconv-completion.c", "src/bsdconv-man.c", "src/bsdconv.c"],
     [("directory and alias file reading with a growing array", "src/libbsdconv_module.c: bsdconv_modules_list(), bsdconv_module_check()"), ("completion", "src/bsdconv-completion.c"), ("manual lookup with redirections", "src/bsdconv-man.c")],
     ["bsdconv_modules_list()", "bsdconv_module_check()", "what bsdconv -l, bsdconv-completion and bsdconv-man print"],
     "ConvString.tla",
     "TLA+ specification of listings, completion and manual lookup (ConvString.tla: Listing, Available, Complete, Man); TLC decides recorded listings and outputs over generated module directories and the shipped one",
     "Generated directories with 0 to 40 modules and aliases of each type, around the array's growth steps; of the shipped tree every listed codec is created and used (TLC: create must succeed). Pages are looked up in a generated share directory; the pager is stood in for by cat.")

prop("C22", "Character sets are read, written and read back as their standards have them",
     "Each character set maps every code it defines to its character and every character it has to its code, as the published tables do; codes it does not define are input errors, characters it does not have are output errors. ASCII is kept beside it, no code is taken for part of another, and what is written under a name is read back the same under that name.",
     ["inputs"], "all codes and characters of every shipped character set, all mixtures of them, all cuts",
     "Some 350 000 mappings, of which the tests exercise a few dozen; a wrong entry, or one that nothing can match, shows only for its character.",
     ["modules/from", "modules/to"],
     [("tables", "modules/{from,to}/{_CP*,_GB*,_HKSCS*,_UAO*,_BIG5*,_SHIFT-JIS,_JIS0*,_ISO-8859-1,CCCII,IBM-*,BIG5-5C}.txt"), ("computed parts", "modules/from/CP950-UDA.c, modules/{from,to}/_GB18030.c"), ("aliases", "modules/{from,to}/alias"), ("lookup", "src/libbsdconv.c: bsdconv(), tools/mktable.c")],
     ["cells and bytes bsdconv() puts out", "counters"],
     "MCCharsets.tla, Codecs.tla",
     "TLA+ specification of the sets as data with laws checked by TLC for every entry (MCCharsets.tla: PrefixFree, AsciiKept, Stable, OneToOne, Readable); TLC decides recorded conversions of every code and character (Codecs.tla)",
     "Every code is read and every character written once per run. The data are Python's, glibc's and ICU's; for UAO, CCCII, BIG5E, BIG5-2003 and older HKSCS, which none of these has, what the tree departs from them is taken down in spec/data/charsets.z. CNS11643 is not built by default.")



prop("C21", "The command line tool converts everything or says so, and loses no file",
     "The command line tool writes the complete conversion of every file, or of its input, each converted afresh and counted by itself, or ends with a non-zero status. In place, every file is at every moment either the original or its complete conversion, with its mode and owner kept; when anything fails the file being converted stays as it was and nothing is left behind, files before it are done and files after it untouched.",
     ["inputs", "crash points", "faults"], "all conversions, inputs and numbers of files; every system call failing or being the last",
     "The tests run the tool on short strings and never in place; what a full disk, a refused rename or a kill at any moment leaves behind is not tested.",
     ["src/bsdconv.c"],
     [("reading in blocks, converting, finishing, reinitialising per file", "src/bsdconv.c: bsdconv_file(), main()"), ("temporary file, mode and owner, renaming", "src/bsdconv.c: bsdconv_file()")],
     ["the tool's output, counters on stderr and exit status", "files found after it ended or was killed"],
     "MCCli.tla, Cli.tla, CliText.tla, Codecs.tla",
     "TLA+ model of in-place conversion with failing steps and kills (MCCli.tla, invariants and liveness by TLC); TLC decides what recorded runs left behind (Cli.tla) and what they wrote and counted (CliText.tla over Codecs.tla)",
     "Every system call from the first file's opening on is made to fail once and to be the last once (strace's injection), and files are limited in size at many sizes. A kill during the rename itself and power loss (no fsync is called) are not covered; a transient write failure may leave a gap in the output, as the status says.")


prop("C23", "Scoring and learning add up, over every text and history of score files",
     "Scoring adds to its counter, for every character, what the published ranges of its set give it, and each phrase of a bonus list its bonus, and changes no cell. Learning takes every character down in the list once, in the order met, and raises its score by one up to the score's limit; what was learnt by any sequence of conversions, on any valid files, is exactly what scoring by those files gives.",
     ["inputs", "histories"], "all texts, all score files and lists, all sequences of training and scoring conversions, all cuts",
     "Tests score one text by the built-in ranges; files that conversions change and read back have histories, and limits, ends of files and shared files show only in some.",
     ["modules/inter"],
     [("built-in and trained scores", "modules/inter/SCORE.c"), ("training", "modules/inter/SCORE-TRAIN.c"), ("bonus lists", "modules/inter/{ZH-BONUS,ZH-BONUS-PHRASE}.txt, BONUS.c")],
     ["counters", "cells bsdconv() puts out", "score files and lists"],
     "Score.tla, MCScore.tla, Codecs.tla",
     "TLA+ specification of score files and lists as state changed by training (Score.tla), laws by TLC over all short histories (MCScore.tla); TLC decides recorded histories and scorings (Codecs.tla: ScoreOf, Times)",
     "Every range edge, every bonus phrase, some 2000 random scorings and several hundred histories of trainings and scorings per run. Score files are read as the code lays them out: one byte a code point, by its number.")

prop("C24", "Logs show every character that came to them, as it was, and only those",
     "A log of a conversion's reading or writing side writes one line for each byte or character that reaches it, with its bytes and mark, in order and complete, and takes it out of the stream; a dump of the output on standard output or error does the same. Nothing else is written, what other codecs take is untouched, nothing is lost however the input is cut, and a log that cannot be written is refused at creation.",
     ["inputs", "configurations", "schedules"], "all inputs, all places of a log among codecs, all cuts",
     "The tests have no logs; what falls to a log depends on what all codecs before it refuse.",
     ["modules/from", "modules/to"],
     [("logs", "modules/{from,to}/BSDCONV-LOG.c"), ("dumps", "modules/to/BSDCONV-OUTPUT.c")],
     ["files and standard streams written by logs", "bytes bsdconv() puts out", "counters"],
     "Codecs.tla, LogText.tla, MCCodecs.tla",
     "TLA+ specification of logs as cells set aside by their phase (Codecs.tla: LOG, LogLine), laws by TLC over all short inputs (MCCodecs.tla: LogsAll, LogsRest); TLC decides recorded logs",
     "Some 2500 conversions with logs in first, last or several phases per run.")

prop("C25", "Chinese and Japanese variants are exchanged just as their tables have them",
     "Conversions between traditional, simplified, Japanese and Korean variants replace every character their tables list, wherever it stands, by the one variant it has there, and leave all others alone; doing it again changes nothing, and a finer conversion beforehand changes nothing of a coarser one. Words are exchanged as wholes, longest first, and kana are spelled by their readings in either script.",
     ["inputs"], "all characters, all texts, all combinations and orders of these conversions, all cuts",
     "Some 47 000 entries, of which tests exercise a dozen; what a chain of such tables does to a character shows only for that character.",
     ["modules/inter"],
     [("tables", "modules/inter/{ZHTW,ZHCN,ZH-FUZZY-TW,ZH-FUZZY-CN,BMP-TRANS-CN,BMP-TRANS-TW,KANJI,HANJA,ZHTW-WORDS,KANA-PHONETIC}.txt"), ("lookup over several cells", "src/libbsdconv.c: bsdconv(), tools/mktable.c")],
     ["bytes bsdconv() puts out"],
     "MCVariants.tla, Codecs.tla",
     "TLA+ specification of the variants as data with laws checked by TLC for every entry (MCVariants.tla); TLC decides recorded conversions of every entry and of texts (Codecs.tla)",
     "Every entry and its neighbours once per run, and 2800 texts through one to nine tables. No independent source of these tables is here: they are taken down in spec/data/variants.z (ICU agrees on the pairs it has).")
prop("C26", "Every call returns, within its own memory, and its result is the input's alone",
     "Every call of bsdconv() on an initialised instance returns, for any conversion, any input (bytes that are no text and cells that are no characters included), any cut and any output mode, touching no memory but what it was given or holds. What it gives depends on what the instance was given since it was initialised, and on nothing else: not on what the memory it is handed held before, and never on bytes nobody wrote. Initialised again, an instance keeps no cell of what it was doing.",
     ["inputs", "histories"], "all conversions, inputs, cuts, output modes, abandoned or ended anywhere, in memory holding anything",
     "Tests give small well-formed texts to a few conversions, in memory that happens to be zero.",
     ["src/libbsdconv.c", "modules"],
     [("queues of cells, going back, flushing", "src/libbsdconv.c: bsdconv(), bsdconv_init(), LISTFREE, LISTCPY"), ("codecs' own state", "modules/*/*.c: cbconv, cbflush, cbinit")],
     ["answers of bsdconv()", "cells left in the phases after bsdconv_init()", "reports of AddressSanitizer and MemorySanitizer builds"],
     "MCProgress.tla, Progress.tla",
     "TLA+ specification of progress: TLC shows that a row of phases that look ahead, go back and try others returns and keeps nothing (MCProgress.tla); TLC decides recorded histories done in three memories filled otherwise (Progress.tla)",
     "Some 700 conversions (every codec, 500 random pipes), 14 000 inputs and 280 000 calls, each done in memory of two fills under AddressSanitizer and once under MemorySanitizer; a call that does not return or touches what is not its own has no answer.")
