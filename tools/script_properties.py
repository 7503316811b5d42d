"""The properties of the script language. Run by properties.py, which provides p() and the constants."""
STRUST = ("Generated-input search: it samples the space (see the evidence file for counts and classes), so it can miss a violation. "
          "Trusts the meaning of scripts in harness/src/script.rs and the reference interpreter in harness/src/model.rs, written apart from the library; "
          "scripts are bounded in size and depth.")
SDIFF = "differential testing of generated scripts against an independent translation and reference interpreter"
G = S + "matchers/"

p("S01", "Compiling any text ends in a matcher or in reported errors, never a crash",
  """Compiling a script ends for every text, valid or not, without a panic or abort. It gives either a usable matcher, or at least one error, and each error has a message and,
  if it has a range, one that lies inside of the script on character boundaries.""",
  ["inputs"], "for all texts: token soups, mutated scripts, deeply nested constructs, arbitrary Unicode",
  "Tests compile some thirty well-formed snippets; unterminated constructs, invalid regexes, control characters and multi-byte text in odd places are never tried.",
  [S + "parser.rs", S + "mod.rs", G + "script.rs", G + "regex_matcher.rs", G + "sequence_matcher.rs"],
  [("compile entry points and construction of matchers", S + "parser.rs compile_script"), ("recovery of errors", G + "script.rs")],
  "fuzzing with structure-aware and raw generators, with crash and sanity oracles", STRUST)

p("S02", "A compiled script parses like the grammar that it spells",
  """Every valid script compiles, and the compiled matcher gives, on every text, the token tree (names, ranges, values, attributes, nesting), failure, or error that the grammar written in the script means:
  programs, switches, literals, regexes, sequences, references, custom matchers, not, optional, repetitions, hidden and captured patterns, definitions and attributes, combined in any way.""",
  ["inputs", "programs"], "for all valid scripts over the whole language, and all texts",
  "Tests check what single constructs compile to, mostly by names in the compiled tree; whether constructs combined in one script mean what they say on texts that match late or fail late is not sampled.",
  [S + "parser.rs", G + "pattern.rs", G + "pattern_definition.rs", G + "program_matcher.rs", G + "switch_matcher.rs"],
  [("translation from the tree of a script to matchers", S + "parser.rs build_matcher_from_tokens and helpers"), ("grammar of the language", G + "*.rs")],
  SDIFF, STRUST)

p("S03", "Repeat specifiers mean what they say",
  """`*`, `+`, `{n,m}` (n to m, inclusive), `{n,}` (n or more) and `{m}` (up to m) after any pattern repeat it within those bounds: at least the lower number must be there, and no more than the upper number are consumed.
  A specifier that makes no sense (upper bound below lower bound, no lower bound, or no number) is an error and never silently something else.""",
  ["inputs", "programs"], "for all bounds and forms of the specifier, all kinds of patterns, and counts of repetitions around the bounds",
  "Tests use a few fixed specifiers with one count each.",
  [G + "repeat_range.rs", G + "repeat_specifier.rs", G + "repeat_zero_or_more.rs", G + "repeat_one_or_more.rs", S + "parser.rs"],
  [("parse of the bounds", G + "repeat_range.rs"), ("bounds to a loop", S + "parser.rs")],
  "generated counted repetitions against the arithmetic of the bounds", STRUST)

p("S04", "A name means its last definition, wherever it is defined and used",
  """A name that is defined in a script may be used any number of times, before or after its definition, through other names, and recursively; each use means the definition. If a name is defined more than once then the last definition counts.
  The order of definitions of different names has no influence.""",
  ["inputs", "programs", "histories"], "for all sets, orders and chains of definitions, and all uses",
  "Tests use each name once, right after its one definition.",
  [S + "parser.rs", G + "assignment_expression.rs", G + "identifier.rs", M + "ref.rs", M + "register.rs", "src/scope.rs"],
  [("definitions register matchers in the scope", S + "parser.rs"), ("a reference looks it up when it is used", M + "ref.rs")],
  "generated definitions against a map of names; " + SDIFF + "; metamorphic reordering", STRUST)

p("S05", "Imports bring in exactly the named patterns of the named file",
  """A name imported from another script (under its own name, another name, or as the root pattern `_`) means in the importing script what it means in the imported one, through any chain of imports, with paths relative to the file that names them.
  An import that can't be resolved (missing file or name, broken script, circular import) is reported as an error of the compile.
  Each compile reads the files as they are then: after they change, the same path means the new contents, and matchers compiled before are not affected.""",
  ["inputs", "programs", "fault_sequences"], "for all acyclic graphs of script files in several directories and all forms of import; for all single breakages at any place of such a graph; and for all histories of changes to the files between compiles",
  "Tests import one file from the same directory and never break it.",
  [S + "parser.rs", G + "import_statement.rs"],
  [("resolution of imports", S + "parser.rs"), ("import syntax", G + "import_statement.rs")],
  "generated graphs of script files (with injected faults) against the reference interpreter on the linked grammar", STRUST)

p("S06", "Whitespace, comments and escapes do not change what a script means",
  """Two spellings of the same script that differ in whitespace, line ends, comments, and optional escapes between and in its tokens compile to matchers that behave the same on every text.""",
  ["inputs", "programs"], "for all scripts, all places where the language allows whitespace or comments, and all texts",
  "Tests have a few scripts, each written in one way.",
  [G + "whitespace.rs", G + "comment.rs", G + "string.rs", G + "script.rs"],
  [("whitespace and comments between tokens", G + "whitespace.rs, comment.rs"), ("escapes in strings", G + "string.rs")],
  "metamorphic testing: one generated script in three spellings, compared on generated texts", STRUST)

p("S07", "Attributes arrive on the tokens of their definition",
  """Each attribute that is written on a pattern definition is found, with its unescaped value, on every token of that pattern, and on no other token. Attributes given where a pattern is defined win over those given where its name is used, and among those given at one place the last one of the same name wins.""",
  ["inputs", "programs"], "for all names, values (any Unicode, escapes), numbers, orders and duplicates of attributes, and chains of definitions",
  "Tests set one or two ASCII attributes on one pattern.",
  [G + "attribute.rs", G + "attributes.rs", G + "pattern_definition.rs", S + "parser.rs", "src/token.rs"],
  [("parse and unescape of attributes", G + "attributes.rs, string.rs"), ("attributes set on tokens when the pattern matches", S + "parser.rs")],
  "generated chains of attributed definitions against a merge of maps", STRUST)

p("S08", "A script compiles if and only if it is well-formed",
  """A script that follows the grammar of the language compiles; one that does not (an unclosed delimiter, a stray character, a malformed name, string, regex, attribute, import or repeat specifier) is rejected with an error, and nothing in it is silently ignored.""",
  ["inputs"], "for all small edits (insert, delete, replace) of generated scripts",
  "Tests have hardly any script that is not well-formed, so that text that is silently skipped or cut off does not show.",
  [S + "parser.rs", G + "script.rs", G + "adextopa_scope.rs", G + "pattern_scope.rs"],
  [("whole script must be consumed", G + "script.rs, adextopa_scope.rs"), ("errors make the compile fail", S + "parser.rs")],
  "differential testing of mutated scripts against an independent hand-written recogniser", STRUST)

p("S09", "Literals, regexes and sequences in scripts match the text they spell",
  """A literal in a script matches precisely the text it spells with its escapes removed, whatever characters it has; a regex matches as that regular expression with its flags; a sequence reads text between the delimiters that are written, with the escape that is written.""",
  ["inputs", "programs"], "for all contents over characters with a meaning in the language, Unicode and control characters, and texts that match or nearly do",
  "Tests use plain words, so that escapes of quotes, slashes and backslashes and multi-byte characters are hardly seen.",
  [G + "equals_matcher.rs", G + "regex_matcher.rs", G + "sequence_matcher.rs", G + "string.rs", S + "parser.rs"],
  [("text between delimiters", G + "string.rs, regex_matcher.rs"), ("unescaped values used for matchers", S + "parser.rs")],
  "write/read round-trip of generated contents; differential testing against the reference regex engine and scanner", STRUST)

p("S10", "Mistakes in a script are all reported, with their place",
  """For a script with several mistakes of the kinds that the language collects (unquoted or malformed attributes, patterns, identifiers, versions), the compile reports each of them exactly once with its message, and the line, column and range at which the mistake is, however the text around it looks.""",
  ["inputs"], "for all numbers, kinds and places of mistakes, and all layouts of the script (multi-byte text, line ends, comments)",
  "Tests check one message or two, in scripts of one line.",
  [S + "parser.rs", G + "attribute.rs", G + "adextopa_scope.rs", "src/parse_error.rs", "src/parser.rs"],
  [("errors recorded with their range", M + "error.rs"), ("place of an error as text", "src/parse_error.rs, src/parser.rs get_error_as_string")],
  "generated scripts with planted mistakes whose places are known by construction", STRUST)

p("S11", "Captured patterns yield tokens under their names, hidden ones none",
  """A captured pattern gives a token with the name that it is given, or else that of the rule or of the kind of matcher; a hidden pattern consumes the same text and gives none.""",
  ["inputs", "programs"], "for all names and kinds of patterns, in all combinations",
  "Tests check the name of a named capture for one pattern only, and assert the wrong one there.",
  [G + "pattern.rs", S + "parser.rs"],
  [("names of captures", S + "parser.rs"), ("discard of hidden patterns", S + "parser.rs")],
  SDIFF, STRUST + " The finding capture-name is matched by comparing with the precise behaviour it describes, any other difference is a violation.")

p("S12", "Compiling is repeatable, and a compiled script can be used again",
  """Compiling the same script again gives the same errors or a matcher that behaves the same; a compiled matcher gives the same result for a text however often and after whatever other texts it is used; logging while compiling writes the errors, and nothing else, to the standard error output, and changes nothing.""",
  ["inputs", "histories"], "for all scripts, broken or not, and all orders of texts",
  "Tests compile and run each script once.",
  [S + "parser.rs", S + "mod.rs", "src/scope.rs", M + "register.rs"],
  [("compile with and without flags", S + "parser.rs compile_script"), ("state kept between runs", "src/scope.rs, src/parser_context.rs")],
  "metamorphic testing: repeated compiles and runs of generated scripts in different orders", STRUST)

p("S13", "Scripts that say the same compile to patterns that match the same",
  """A compiled script gives the same result for every text when a part of it is said in another way: by a name that is defined as this part, by another name for a name, by a group or choice of one, by alternatives grouped in a choice,
  by a repeat specifier in another form, by a modifier in the other place, or by definitions that are imported from a file of their own; and when an attempt or alternative that fails is added. (Apart from the names that tokens get from what they are defined as.)""",
  ["programs", "inputs"], "for all scripts, all such changes at any places in them, and all texts",
  "Each test script is written in one way, so a form that means something else at some place, or in combination with another, does not show.",
  [S + "parser.rs", G + "pattern.rs", G + "pattern_scope.rs", G + "repeat_specifier.rs", M + "program.rs", M + "ref.rs"],
  [("building matchers from parsed patterns", S + "parser.rs construct_matcher_from_pattern_definition"), ("names", S + "parser.rs build_matcher_from_tokens")],
  "metamorphic testing: a generated script and a form of it that says the same are both compiled and run, and compared (the reference only tells on which texts a script certainly ends)", STRUST)

p("S14", "A compiled script is a part that fits into any grammar",
  """The matcher that a compile gives may be used anywhere in a grammar of the caller, any number of times and next to other scripts, and matches there what the script says. The scope that a compile gives has precisely the names that the script defines, each with what it means in the script.
  Names of one script, of another, and of the caller never mix.""",
  ["programs", "inputs"], "for all pairs of scripts (with the same names or others), all grammars of a caller around them, and all texts",
  "Tests run one compiled script by itself.",
  [S + "parser.rs", M + "set_scope.rs", M + "ref.rs", "src/scope_context.rs"],
  [("what a compile gives", S + "parser.rs compile_script"), ("a scope of its own", M + "set_scope.rs")],
  SDIFF + " that is a part of a generated grammar", STRUST)
