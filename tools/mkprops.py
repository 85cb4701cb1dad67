#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here so it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
        why_tests_cant=why, anchors=dict(files=files,
        state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
        mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

U='libs/utils/src/Utf8.cpp'; UH='libs/utils/include/kt_utils/Utf8.h'
p('U01','UTF-8 decoding follows one replacement rule on every byte string',
 "Decoding a byte string to code points yields exactly one code point per well-formed UTF-8 character up to the first NUL, and exactly one U+FFFD for each stray continuation or over-long lead byte, for each truncated sequence (resuming at the byte that broke it) and for each overlong, surrogate or beyond-U+10FFFF sequence (consumed whole). The decode-one, decode-at-most-N, UTF-32 and wide-string forms all agree with that rule, and no input makes decoding read past the terminating NUL.",
 ['inputs'],'all byte strings (any bytes, any length, any embedded NUL) and all size limits',
 'Unit tests sample some 30 byte strings; the rule is a state machine over arbitrary byte sequences whose errors depend on combinations of adjacent bytes.',
 [U,UH],[('convertOneUtf8 / convertFromUtf8',U)],[('u','current byte position in the decode loop',U)],['fromUtf8','fromUtf8ToWstring','getCode'])
p('U02','UTF-8 encoding is exact and is inverted by decoding',
 "Encoding a code point gives its unique shortest UTF-8 form for every Unicode scalar value and the encoding of U+FFFD for surrogates and anything above U+10FFFF; encoding a sequence is the concatenation of the encodings of its elements. Decoding what was encoded returns the original sequence of (non-NUL) scalar values, and encoding what was decoded returns the original bytes whenever those bytes were valid UTF-8.",
 ['inputs'],'every 32-bit code value and every sequence of code values, in the UTF-32 and the wide-string form',
 'Tests encode a handful of characters; exactness at every length boundary and the round trip quantify over more than a million code points and all sequences.',
 [U,UH],[('convertToUtf8',U)],(),['toUtf8','fromUtf8'])
p('U03','UTF-8 validation agrees with decoding and names the right error',
 "Validation of a string looks at its first character (and, when a single character is required, at what follows): it reports NotMultiByte for empty or ASCII-led input, Valid exactly when the first character is a well-formed multi-byte sequence (and nothing follows it when one character is required), and otherwise the specific reason (continuation byte, missing bytes, character too long, overlong, invalid code point, string too long). The boolean forms are consistent with the detailed result, and Valid is reported exactly when decoding the first character needs no replacement.",
 ['inputs'],'all byte strings and both size modes',
 'Tests list examples per error kind; which error wins depends on every combination of up to five bytes.',
 [U,UH],[('validateMBUtf8 / validateMB',U)],(),['validateMBUtf8','validateUtf8','isValidMBUtf8','isValidUtf8'])
B='libs/utils/include/kt_utils/UnicodeBlock.h'
p('U04','Character-class predicates are exact for every code point and string',
 "The kana, hiragana, katakana, kanji, common-kanji, rare-kanji, symbol, letter, punctuation and recognized predicates hold exactly for the characters of their documented Unicode blocks: the one-character form accepts exactly one such character optionally followed by one non-spacing mark, the first-character form looks only at the first character, and the 'all' form accepts exactly the strings in which every character is in the class, each optionally followed by one non-spacing mark. The wide space counts as punctuation only when asked for, kana is hiragana or katakana, kanji is common or rare and never both, and every class is included in 'recognized'.",
 ['inputs'],'every Unicode code point and all strings over them, for every predicate and mode',
 'Tests probe a few characters per class; the block tables partition 1.1 million code points and string forms compose with marks and invalid bytes.',
 [B,'libs/utils/src/UnicodeBlock.cpp'],[('inRange / inWCharRange',B),('block tables',B)],(),['isKana..isRecognizedUtf8','isAllKana..isAllRecognizedUtf8'])
C='libs/kana/src/Utf8Char.cpp'
p('U05','Character iteration visits every character once and accounts for every byte',
 "Iterating over a string returns its characters in order, attaching a following variation selector to its base, merging a combining voiced mark into the matching accented kana, skipping ASCII when only multi-byte characters are wanted, and skipping invalid bytes and leading marks; the error, variant and combining-mark counters equal the number of such events so far. Peeking returns exactly what the next call of next would return and changes nothing, resetting restarts from the beginning with zero counters, and the size functions count characters without counting marks or selectors.",
 ['inputs','histories'],'all byte strings and all interleavings of next, peek and reset in both modes',
 'Tests walk some ten strings forwards; the property quantifies over all strings and over histories of calls on one iterator.',
 [C,'libs/kana/include/kt_kana/Utf8Char.h'],[('next / peek / processOne',C)],[('_curLocation','iteration position',C),('_errors,_variants,_combiningMarks','event counters',C)],['Utf8Char'])
D='libs/kana/include/kt_kana/DisplaySize.h'
p('U06','Display width counts wide, narrow and zero-width characters exactly',
 "The display size of a text is the sum over its characters of 0 for NUL and non-spacing marks, 2 for East Asian wide or fullwidth characters and 1 otherwise, in each of the code point, C string and string forms. The padded width computed for a text always makes stream padding reach exactly the requested number of display columns.",
 ['inputs'],'every code point and all strings, all requested widths',
 'Tests check a dozen strings; the width table has about 120 ranges covering the whole code space.',
 [D,'libs/kana/src/DisplaySize.cpp'],[('displaySize / wideSetw','libs/kana/src/DisplaySize.cpp')],(),['displaySize','wideSetw'])
S='libs/utils/src/String.cpp'
p('U07','String helpers convert numbers and case exactly and reject bad values',
 "Binary, hexadecimal and Unicode renderings of any value have exactly the digits of that value, padded with zeroes to the requested minimum and wrapped in the requested brackets, for characters, code points and UTF-8 strings alike. Lower, upper, first-letter and all-single-byte / any-single-byte helpers treat exactly the ASCII letters and single-byte characters, and narrowing an out-of-range integer to a character is reported as an error and never wraps.",
 ['inputs'],'all values of each integer width, all strings, all minimum sizes and bracket kinds',
 'Tests check a few literals; the helpers are used with arbitrary values and text.',
 ['libs/utils/include/kt_utils/String.h',S],[('toBinary/toHex/toUnicode/toChar','libs/utils/include/kt_utils/String.h')],(),['toBinary','toHex','toUnicode','toChar','toLower','toUpper','firstLower','firstUpper'])
p('U08','Enum lists, maps, bitmasks and their iterators behave as bounded sequences',
 "An enum list or map is a fixed sequence of its enumerators (without the None value when it has one): indexing, iteration in either direction, iterator arithmetic, comparison and distance all agree with that sequence, and lookups by enumerator return what was stored for it. Any index, increment, decrement or offset that leaves the sequence, dereferencing at the end or through a default-constructed map iterator, and comparing iterators of different maps (a default-constructed one belongs to no map) are reported as errors and leave the iterator unchanged.",
 ['histories','inputs'],'all histories of iterator operations with arbitrary offsets and indexes on every container',
 'Tests walk one iterator through a few steps; the property covers every sequence of operations and every offset including ones far out of range.',
 ['libs/utils/include/kt_utils/EnumContainer.h','libs/utils/include/kt_utils/EnumList.h','libs/utils/include/kt_utils/EnumMap.h','libs/utils/include/kt_utils/Bitmask.h'],[('EnumContainer::Iterator / checkIndex','libs/utils/include/kt_utils/EnumContainer.h')],[('_index','iterator position','libs/utils/include/kt_utils/EnumContainer.h')],['BaseEnumList','EnumMap'])
p('U09','Symbols intern names one-to-one up to their capacity',
 "Creating a symbol from a name gives the same identity for equal names and different identities for different names, of the same symbol type only, and the symbol always gives its name back; the empty name is the falsy zero symbol. Identities are handed out consecutively and once capacity is reached a new name is an error while every existing name still resolves.",
 ['histories','inputs'],'all histories of symbol creations with any names and repeats, up to and past capacity',
 'Tests create a few symbols; one-to-one interning is about all histories, including at the 16-bit limit.',
 ['libs/utils/include/kt_utils/Symbol.h','libs/utils/src/Symbol.cpp'],[('BaseSymbol::getId','libs/utils/src/Symbol.cpp')],[('_map,_list','interned names per type','libs/utils/include/kt_utils/Symbol.h')],['Symbol'])
p('U10','Column files deliver every cell of every row or a precise error',
 "Reading a delimited file whose header names the expected columns in any order delivers, row by row, exactly the text of each cell for its column and the typed conversions (unsigned with limit, boolean, code point) of that text (one delimiter after the last cell of a line is ignored). A missing, duplicate or unknown column, a row with too few or too many cells, a value that is not exactly of the requested type or exceeds its limit, and access before the first row or to a column not in the file are each reported with file name, row number and column.",
 ['inputs','histories'],'all file contents, delimiters, column orders and access histories',
 'Tests write about twenty small files; rows, empty cells, column orders and numeric texts combine without bound.',
 ['libs/utils/src/ColumnFile.cpp','libs/utils/include/kt_utils/ColumnFile.h'],[('processHeader / nextRow / get*','libs/utils/src/ColumnFile.cpp')],[('_rowValues,_currentRow','current row','libs/utils/include/kt_utils/ColumnFile.h')],['ColumnFile'])
p('U11','A choice prompt accepts exactly the offered choices',
 "A choice prompt lists exactly the offered choices (ranges collapsed, descriptions shown, default and quit included when asked for) in character order, keeps asking until the user enters exactly one offered character, and returns it; an empty line returns the default when there is one, and the end of input returns the default or is an error. A quit option or range overlapping the choices, a default not offered, an empty set of choices and non-printable characters are errors before anything is asked.",
 ['inputs','histories'],'all choice sets, ranges, defaults, quit settings and all user input sequences',
 'Tests use a dozen fixed prompts; prompt collapsing and re-asking depend on every subset of choices and input sequence.',
 ['libs/kana/src/Choice.cpp','libs/kana/include/kt_kana/Choice.h'],[('Choice::get / add','libs/kana/src/Choice.cpp')],[('_quit','current quit option','libs/kana/include/kt_kana/Choice.h')],['Choice::get'])
K='libs/kana/src/Kana.cpp'
p('K01','The kana tables relate every kana to all of its forms consistently',
 "Every kana is found by its hiragana, its katakana and each accepted romaji spelling, and gives back the matching hiragana, katakana and romaji in the standard, Hepburn and Kunrei styles (including the doubled-consonant form); no two kana share a form. Voiced and semi-voiced links connect exactly the kana that differ by the mark, and small, repeated and iteration marks resolve as written Japanese defines.",
 ['inputs','configurations'],'every kana in the tables, every romaji variant and every combination of style flags',
 'Tests sample entries; the guarantee is about each of several hundred entries and links between them.',
 [K,'libs/kana/include/kt_kana/Kana.h'],[('KanaList / getMap','libs/kana/src/Kana.cpp'),('getRomaji','libs/kana/src/Kana.cpp')],(),['Kana::getMap','Kana::findBy*','Kana::getRomaji'])
V='libs/kana/src/Converter.cpp'
p('K02','Kana to Rōmaji conversion is exact for every text and flag set',
 "Converting hiragana or katakana text to Rōmaji transliterates each mora in the chosen style, doubles the consonant after a small tsu, turns a prolong mark into a macron (keeping the mark where there is no vowel before it), expands iteration marks, separates n before vowels and y with an apostrophe, converts wide delimiters, and leaves everything it cannot convert in place. The result depends only on the text, target and flags, not on earlier conversions.",
 ['inputs','configurations','histories'],'all texts mixing kana, marks, delimiters and other characters, all flag combinations',
 'Tests convert selected words; the converter is a state machine over mora groups whose interactions (small tsu, n, prolong and iteration marks) are combinatorial.',
 [V],[('Converter::convertFromKana / KanaTypes processing',V)],[('prevKana, state','mora group state',V)],['Converter::convert'])
p('K03','Rōmaji and kana to kana conversion is exact for every text and flag set',
 "Converting Rōmaji (in any accepted spelling and letter case) or the other kana script to hiragana or katakana yields the kana of the longest matching romaji at each point, small tsu for doubled consonants, n rules including apostrophes, prolong marks or doubled vowels for macrons, converted delimiters, and leaves everything else in place. Converting kana to Rōmaji and back returns the original kana for every text made of table kana that the chosen style can represent.",
 ['inputs','configurations'],'all texts over romaji letters, macrons, kana, delimiters and other characters, both targets and all flags',
 'Tests convert selected words; segmentation of romaji depends on arbitrary neighbouring letters.',
 [V],[('Converter::toKana / romajiLetters',V)],[('letters count','pending romaji letters',V)],['Converter::convert'])
p('K04','The kana converter program honours its options and interactive commands',
 "For every command line the converter program either reports the documented usage error or converts the given texts (or, with none, each line of its interactive session) with exactly the requested source type, target and flags. Several strings are joined by a space (wide for kana, dropped when spaces are removed) and end in a newline unless it is suppressed; without a terminal, standard input is converted line by line; the chart options print every kana with its forms and totals. In a session, target, source, flag, clear, help and quit commands change exactly the setting they name and are acknowledged by the settings, and each other line is printed converted under the settings then in force.",
 ['histories','configurations','inputs'],'all command lines and all sequences of session input lines',
 'Tests run a few fixed sessions; settings accumulate over arbitrary command histories.',
 ['libs/kana/src/KanaConvert.cpp','libs/kana/include/kt_kana/KanaConvert.h','apps/convertMain.cpp'],[('KanaConvert ctor / start / processFlag','libs/kana/src/KanaConvert.cpp')],[('_source,_target,_flags,_interactive','session settings','libs/kana/include/kt_kana/KanaConvert.h')],['stdout of the session'])
p('K05','Printed tables keep every cell and align every column',
 "Printing a table shows its title row, every row in order with sections separated, missing cells left blank and rows numbered if asked, and pads every cell by display width so that every line has the same display columns. The Markdown form has one header, one delimiter row, and one line per row with the same cells, pipes escaped and the first row of each section in bold.",
 ['inputs'],'all titles, rows, row lengths and sections, including wide and non-spacing characters',
 'Tests print a few small tables.',
 ['libs/kana/src/Table.cpp','libs/kana/include/kt_kana/Table.h'],[('Table::print / printMarkdown','libs/kana/src/Table.cpp')],(),['Table::print','Table::printMarkdown'])
p('K06','The text formatter joins furigana lines and loses no text',
 "The formatter program outputs every input line's text exactly once and in order: a line of kana only is joined in wide brackets to the kanji-ended line it follows and the next line continues after it, and all other lines are passed through unchanged, including the last one.",
 ['inputs'],'all sequences of input lines',
 'There are no tests for this program.',
 ['apps/formatMain.cpp'],[('main loop state prevLineEndedWithKanji','apps/formatMain.cpp')],[('prevLine','pending text','apps/formatMain.cpp')],['stdout of kanjiFormat'])
L='libs/kanji/src/TextKanjiData.cpp'
p('J01','Loading data puts every kanji in exactly one type, by precedence',
 "Loading a data directory creates each kanji exactly once, in the type given by the first of jouyou, (linked) jinmei, linked old, extra, frequency, kentei and ucd that includes it, with the fields of that source, and lists it under exactly the grade, level, kyu and frequency bucket its fields say. Data that breaks a rule of the format (duplicate or conflicting entries, missing or inconsistent fields) is rejected or reported and never silently loaded.",
 ['inputs','configurations'],'all data directories (which character appears in which file with which fields), and the shipped data',
 'Tests load the shipped data and a few broken files; precedence and consistency quantify over all combinations of file memberships.',
 [L,'libs/kanji/src/KanjiData.cpp','libs/kanji/src/OfficialKanji.cpp','libs/kanji/src/Kanji.cpp'],[('TextKanjiData ctor load order',L),('KanjiData::checkInsert','libs/kanji/src/KanjiData.cpp')],[('_nameMap,_types,_grades,_levels,_kyus,_frequencies','loaded lists','libs/kanji/include/kt_kanji/KanjiData.h')],['KanjiData lists and finders'])
p('J02','Kanji lookups by name, frequency and dictionary number agree with the data',
 "Looking a kanji up by its name, compatibility name, variation-selector name, frequency, Morohashi number or Nelson number returns exactly the kanji loaded with that key and nothing for any other key, and the type, level, kyu, frequency and radical reported for a name are those of the kanji found. Each frequency list holds exactly the kanji of its 250-wide range in order of frequency.",
 ['inputs'],'all keys (valid and not) on the shipped data and on generated data',
 'Tests look up a few kanji; agreement is about each of the roughly 20,000 loaded kanji and all unknown keys.',
 ['libs/kanji/src/KanjiData.cpp','libs/kanji/src/Ucd.cpp','libs/kanji/src/UcdData.cpp'],[('findByName / findByFrequency / findByMorohashiId / findByNelsonId','libs/kanji/src/KanjiData.cpp')],[('_nameMap,_compatibilityMap,_morohashiMap,_nelsonMap','indexes','libs/kanji/include/kt_kanji/KanjiData.h')],['KanjiData::find*'])
p('J03','List files load each name once, in order, and reject conflicts',
 "A list file delivers its names in file order with 1-based positions, whether names are one per line or separated on lines, and answers membership and index queries exactly. A name that is not a single recognized multi-byte character, is repeated in the file, or was already loaded by another (kyu or level, respectively plain) list is rejected, with all duplicates of a typed list reported together.",
 ['inputs','histories'],'all file contents and all histories of loading several list files',
 'Tests load a handful of files; uniqueness is a property of the history of all files loaded.',
 ['libs/kanji/src/ListFile.cpp','libs/kanji/include/kt_kanji/ListFile.h'],[('ListFile::load / addEntry','libs/kanji/src/ListFile.cpp')],[('UniqueNames, OtherUniqueNames','names loaded so far','libs/kanji/src/ListFile.cpp')],['ListFile','KyuListFile','LevelListFile'])
p('J04','Unicode data records are loaded, linked and rendered as written',
 "Loading Unicode kanji data yields one record per row with exactly the block, version, radical, strokes, sources, dictionary numbers, links, meaning and readings of that row, finds a record by its character with or without variation selector or compatibility form, and renders On readings as katakana and Kun readings as hiragana, borrowing readings over a link when the row says so. Rows that break a rule (strokes, radical, version, source, link or reading consistency, duplicate code) are rejected.",
 ['inputs'],'all unicode data rows, and the shipped data',
 'Tests use a few rows; the loader enforces a cross product of rules on fields.',
 ['libs/kanji/src/UcdData.cpp','libs/kanji/src/Ucd.cpp'],[('UcdData::load / find / getReadingsAsKana','libs/kanji/src/UcdData.cpp')],[('_map,_linkedJinmei,_linkedOther','records and links','libs/kanji/include/kt_kanji/UcdData.h')],['UcdData'])
p('J05','Dictionary numbers, stroke counts and radicals parse and order exactly',
 "Morohashi numbers (plain, prime, double prime, supplemental), stroke counts (with variant) and pinyin are accepted exactly in their documented formats and ranges, print back to the same canonical text, and compare as their index and type order; anything else is an error. Radicals load only as the complete ascending list of distinct numbers and are found by exactly their names and numbers.",
 ['inputs'],'all strings for dictionary numbers, all stroke values, all radical files',
 'Tests list a few formats.',
 ['libs/kanji/src/MorohashiId.cpp','libs/kanji/src/Strokes.cpp','libs/kanji/src/RadicalData.cpp','libs/kanji/src/Radical.cpp'],[('MorohashiId ctor','libs/kanji/src/MorohashiId.cpp'),('RadicalData::load','libs/kanji/src/RadicalData.cpp')],(),['MorohashiId','Strokes','RadicalData'])
p('J06','Kanji descriptions and sort orders reflect the fields, for every kanji',
 "The description of a kanji shows exactly the requested fields that have a value, in the documented order and format; its qualified name ends with the one suffix its type, level, frequency and kyu determine. Ordering by strokes (then frequency, then name) and by qualified name are strict weak orderings consistent with those fields.",
 ['inputs','configurations'],'every loaded kanji, every combination of fields and every pair or triple of kanji',
 'Tests describe a few kanji; orderings quantify over all pairs and triples.',
 ['libs/kanji/src/Kanji.cpp','libs/kanji/src/OfficialKanji.cpp'],[('Kanji::info / qualifiedNameRank / orderBy*','libs/kanji/src/Kanji.cpp')],(),['Kanji::info','Kanji::qualifiedName','Kanji::orderByStrokes','Kanji::orderByQualifiedName'])
p('J07','Options are recognised anywhere and the nearest valid data directory is found',
 "Every program argument has exactly one role: -data and the directory after it, -debug or -info, or an argument of the program itself, which gets all of those in order. A directory named with -data is used if it has the expected number of '.txt' files and rejected otherwise; without it the nearest 'data' directory with that number of files in the current directory or above it is used, else one above the program's directory, else an error tells where it was searched. At most one of -debug and -info is allowed. Argument lists and indexes out of range are rejected.",
 ['inputs','configurations'],'all argument lists, directory trees, current directories and program paths',
 'Tests try a few argument lists and one directory tree.',
 ['libs/kanji/src/KanjiData.cpp','libs/utils/src/Args.cpp'],[('KanjiData::getDataDir / searchUpForDataDir / nextArg / getDebugMode','libs/kanji/src/KanjiData.cpp'),('Args','libs/utils/src/Args.cpp')],(),['KanjiData','Args'])
p('J08','Loading reports count exactly the kanji that were loaded',
 "With -info, loading a data directory prints the number of kanji loaded by type and the jouyou kanji by grade and level; with -debug it also prints which list entries are not jouyou, strokes that differ from the Unicode data, counts of kanji with a level, frequency, variant or old form, breakdowns by level and kyu, the common kanji of each radical in stroke order, and counts and links of the Unicode data. Every number is exactly that count over the loaded kanji, every breakdown adds up to its total, empty lines are left out and nothing is printed without an option.",
 ['inputs','configurations'],'all data directories that load, with either option or none',
 'Tests compare a few report lines of one mocked directory; the counts quantify over all loaded kanji and all their fields.',
 ['libs/kanji/src/KanjiData.cpp','libs/kanji/src/TextKanjiData.cpp','libs/kanji/src/RadicalData.cpp','libs/kanji/src/UcdData.cpp'],[('printCountsAndStats / printGrades / printListStats','libs/kanji/src/KanjiData.cpp'),('printListData','libs/kanji/src/TextKanjiData.cpp'),('print','libs/kanji/src/RadicalData.cpp'),('print','libs/kanji/src/UcdData.cpp')],(),['TextKanjiData (output stream)'])
p('S01','Character counts equal the characters in the input, with furigana removed once',
 "Counting strings, files and directories adds, for every character accepted by the filter, exactly its number of occurrences overall and per file tag, and the numbers of files, directories, errors, variants, combining marks and replaced lines are those of the input. With furigana removal, bracketed kana after a kanji is removed (also when brackets span a line break) and no other text is lost, duplicated or reordered.",
 ['inputs','histories'],'all texts, line splits, directory trees and option combinations',
 'Tests count some 20 texts; brackets spanning lines give a state machine over arbitrary line sequences.',
 ['libs/stats/src/Utf8Count.cpp','libs/stats/include/kt_stats/Utf8Count.h'],[('Utf8Count::add / processFileWithRegex / doAddFile','libs/stats/src/Utf8Count.cpp')],[('_map,_tags','counts','libs/stats/include/kt_stats/Utf8Count.h'),('prevLine','pending line','libs/stats/src/Utf8Count.cpp')],['Utf8Count'])
p('S02','The statistics report is ordered and adds up',
 "The statistics report of a file or directory shows, for each kind of character, the total and unique counts of exactly the characters of that kind, per-type totals that add up to the kanji total, and percentages of the whole. Examples and breakdown lines are ordered by count, then frequency, then type, then name, list each character once, and name the file with the highest count for unknown characters. The counts of one report run at the same time and share nothing they change, so the report does not depend on how they are scheduled.",
 ['inputs','configurations','schedules'],'all input texts, option combinations and schedules of the counting tasks',
 'Tests compare a few fixed reports.',
 ['libs/stats/src/Stats.cpp','libs/stats/include/kt_stats/Stats.h'],[('Stats::Pred::run / Stats::Count::operator<','libs/stats/src/Stats.cpp')],(),['stdout of kanjiStats'])
p('Q01','The quiz program starts exactly the quiz or lookup its options ask for',
 "For every command line the quiz program either reports a usage error, prints help, prints the details of the kanji named by character, frequency, Morohashi, Nelson or Unicode number, or starts a quiz or review of exactly the requested list, order, start and kanji type, prompting for precisely the settings that were not given. Quitting at any prompt ends the session.",
 ['inputs','histories','configurations'],'all command lines and prompt answers',
 'Tests run selected command lines.',
 ['libs/quiz/src/QuizLauncher.cpp'],[('QuizLauncher ctor / start / processArg','libs/quiz/src/QuizLauncher.cpp')],[('_programMode,_questionOrder','session settings','libs/quiz/include/kt_quiz/QuizLauncher.h')],['quiz program output'])
p('Q02','List quizzes ask every question in order and score every answer',
 "A list quiz or review goes through its list in the requested order from the requested start; each question offers the requested number of choices with pairwise different readings and exactly one correct one. Answers, skips, previous, toggling of meanings and quitting move, score and display as documented, and the final score counts exactly the correct answers, skips and mistakes, naming each mistake.",
 ['histories','inputs'],'all sequences of user inputs on any list, order, start and choice count',
 'Tests play a few short scripted sessions.',
 ['libs/quiz/src/ListQuiz.cpp','libs/quiz/src/Quiz.cpp'],[('ListQuiz::start / getAnswer / populateAnswers','libs/quiz/src/ListQuiz.cpp'),('Quiz::~Quiz','libs/quiz/src/Quiz.cpp')],[('_currentQuestion,_correctAnswers,_mistakes,_showMeanings','session state','libs/quiz/include/kt_quiz/Quiz.h')],['quiz program output'])
p('Q03','Group quizzes match readings to members and score every group',
 "A group quiz or review presents, in the requested order, exactly the groups of the chosen bucket that have at least two members of the chosen kanji type, showing exactly those members. Assigning, editing, refreshing, toggling meanings, skipping, going back and quitting behave as documented for groups of every supported size, each reading can be assigned once, and a group is correct exactly when every member got its reading (and meaning when shown).",
 ['histories','inputs'],'all sequences of user inputs on groups of any size from 2 to 58 and any kanji type',
 'Tests play a few scripted sessions on small groups.',
 ['libs/quiz/src/GroupQuiz.cpp','libs/quiz/src/Quiz.cpp'],[('GroupQuiz::start / getAnswers / editAnswer / checkAnswers','libs/quiz/src/GroupQuiz.cpp')],[('_answers, choices','assignments so far','libs/quiz/include/kt_quiz/GroupQuiz.h')],['quiz program output'])
p('Q04','Group data loads each group completely and keeps pattern groups disjoint',
 "Loading group files creates each group with its number, name, kind (family, peer, reading or meaning) and exactly its listed members in order (a family starting with its parent), maps every member to its groups, and reports a kanji placed in two pattern groups. Groups with unknown, duplicate, too few or too many members or bad names are rejected.",
 ['inputs'],'all group files, and the shipped data',
 'Tests load a few small files.',
 ['libs/quiz/src/GroupData.cpp','libs/quiz/src/Group.cpp'],[('GroupData::loadGroup / Group ctor','libs/quiz/src/GroupData.cpp')],[('_meaningMap,_patternMap','member to group','libs/quiz/include/kt_quiz/GroupData.h')],['GroupData'])
p('Q05','Jukugo data lists each compound once under each of its kanji',
 "Loading compound-word files yields one entry per distinct name and reading with the grade of its file, and looking up a kanji returns exactly the compounds containing it, each once, in load order. Lines without a bracketed reading, compounds with fewer than two kanji or a non-hiragana reading, and compounds repeated in files of different grades are rejected with file and line.",
 ['inputs'],'all compound-word files, and the shipped data',
 'Tests load a few small files.',
 ['libs/quiz/src/JukugoData.cpp','libs/quiz/src/Jukugo.cpp'],[('JukugoData::createJukugo / loadFile','libs/quiz/src/JukugoData.cpp')],[('_uniqueJukugo,_kanjiToJukugo','entries','libs/quiz/include/kt_quiz/JukugoData.h')],['JukugoData::find'])
p('Q06','Reports of groups and compounds count exactly what was loaded',
 "With -info, loading group files and compound words prints how many kanji and groups were loaded, how many kanji are in more than one meaning group and in which numbers of groups, and for every type how many of its kanji are in a group with the first missing ones; with -debug every group is also listed with its number, name, size and members with their suffixes. Compounds are counted by grade and their kanji by type with the first examples in order. Every number is exactly that count over what was loaded, and nothing is printed without an option.",
 ['inputs','configurations'],'all group and compound files that load, with either option or none',
 'Tests compare a report of a few groups.',
 ['libs/quiz/src/GroupData.cpp','libs/quiz/src/JukugoData.cpp'],[('GroupData::printGroups','libs/quiz/src/GroupData.cpp'),('JukugoData ctor','libs/quiz/src/JukugoData.cpp')],(),['GroupData, JukugoData (output stream)'])
p('D01','Wide blocks derived from EastAsianWidth.txt cover exactly the wide characters',
 "scripts/parseEastAsianWidth.sh prints C++ code whose blocks, in ascending order, cover exactly the code points that the file gives the width W or F (as single values or ranges, whatever comments and other widths surround them), with no two blocks that overlap or touch. Without a file it says so and fails.",
 ['inputs'],'all ascending files in the format of EastAsianWidth.txt (Unicode 14)',
 'The scripts have no tests.',
 ['scripts/parseEastAsianWidth.sh'],[('process, out, one_bigger','scripts/parseEastAsianWidth.sh')],(),['output of the script'])
p('D02','Data derived from the Unicode database keeps what it says of each kanji',
 "scripts/parseUcdAllFlat.sh writes, in file order, exactly one row for each record that has (or can be linked to) a Japanese reading, or has a Morohashi id or JSource, and is no simplified radical form. Every column is what that record alone says (first pinyin, ids without padding, sources, Joyo and Jinmei marks, strokes with the Adobe alternatives, kana readings); readings and meaning come from the kanji itself, from a Joyo or Jinmei entry that links to it or, marked with '*', from the first link. Links are found in the documented order (Jinmei, Traditional, Simplified, Compatibility, Definition, Semantic), lead to kanji that have a reading or an id, and do not depend on the order of the records. The printed counts are exactly those of what was written.",
 ['inputs'],'all database files of well-formed records (fields in the order of the real file, values without shell metacharacters or double spaces)',
 'The scripts have no tests, and the derived file is only checked by hand against a few totals.',
 ['scripts/parseUcdAllFlat.sh'],[('populateArrays / findDefinitionLinks / getLinks / processRecord','scripts/parseUcdAllFlat.sh')],[('on, kun, definition, readingLink, linkBack, morohashi, jSource','what is known by code point','scripts/parseUcdAllFlat.sh')],['output file and output of the script'])
p('D03','Comparing code points of the database shows exactly the differing fields',
 "scripts/ucdDiff.sh shows all fields of a code point (given as hex or as the character), with -p its age, block, script, Ideo and Radical and exactly its non-empty CJK fields, and for two code points (or with -d one code point in two files) exactly the fields that differ, each under the code point and file that has it, or that there are none. The last -f, -o and -n count; missing or unreadable files, unknown or malformed code points, equal files or code points and a wrong number of them are refused with the message that says so and the usage.",
 ['inputs','configurations'],'all command lines over all database files with records whose fields have a fixed order',
 'The scripts have no tests.',
 ['scripts/ucdDiff.sh'],[('getCodePoint / getXml / diffs','scripts/ucdDiff.sh')],(),['output of the script'])
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False) + '\n')
    print(len(P), 'properties')
