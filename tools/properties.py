#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def p(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()),
                      why=" ".join(why.split()), files=files, mech=mech, technique=technique,
                      note=" ".join(note.split()), observe=observe or []))


MODEL = "differential testing of generated grammars and inputs against an independent reference interpreter"
TRUST = ("Generated-input search: it samples the space (see the evidence file for counts and classes), so it can miss a violation. "
         "Trusts the reference interpreter in harness/src/model.rs and the small regex engine in harness/src/re.rs, both written apart from the library; "
         "grammars are bounded in depth, left recursion and stack exhaustion are outside.")
M = "src/matchers/"
S = "src/script/v1/"

p("P01", "Token text and ranges are exactly a slice of the source",
  """For every token of a parse, the matched text and the captured text equal the source text at the token's matched and captured byte ranges,
  both ranges lie on character boundaries inside the parsed window, and the captured range lies inside the matched range.
  This holds for any Unicode text and wherever in the source the parse happens.""",
  ["inputs", "programs"], "for all grammars, all Unicode source texts, all windows of the source, and each token of the resulting tree",
  "The tests read a handful of ASCII tokens near the start of the source; slicing by characters instead of bytes, or off-by-one ranges after multi-byte text, never shows there.",
  ["src/token.rs", "src/source_range.rs", "src/parser_context.rs"],
  [("text of a token is taken from the source by its ranges", "src/token.rs StandardToken"), ("ranges and slices of the source", "src/source_range.rs to_string")],
  MODEL + "; per-token slice invariant", TRUST)

p("P02", "Literals and regexes match exactly at the cursor, inside the window",
  """A literal matches if and only if the text at the cursor, up to the end of the parsed window, starts with it; a regular expression matches if and only if it matches a non-empty
  prefix there, with the flags given. The token covers precisely the matched text.""",
  ["inputs", "programs"], "for all literals, regular expressions with any flags, source texts, and cursor positions and windows",
  "Tests use a few patterns at offset 0 of short ASCII texts, so a search that is not anchored, that looks past the window, or that treats flags or multi-byte text wrongly passes.",
  [M + "equals.rs", M + "matches.rs", "src/parser_context.rs"],
  [("comparison at the cursor", M + "equals.rs exec"), ("anchored regex search at the cursor", M + "matches.rs exec, matches_at")],
  "differential testing of generated literals and regexes against a backtracking reference regex engine", TRUST)

p("P03", "Delimited sequences read back the escaped text",
  """A delimited sequence matches from its start delimiter to the first unescaped end delimiter within the window, and fails if there is none.
  Its value is the text between them with each escape removed (the character after the escape kept), while its captured and matched text are the raw source with and without... the delimiters outside and inside respectively.""",
  ["inputs", "programs"], "for all start, end and escape delimiters (multi-character and multi-byte included), and all texts between and after them",
  "Tests cover quotes with a backslash in ASCII; multi-character and multi-byte delimiters, an escape next to the end, and truncated input are where scanning goes wrong.",
  [M + "sequence.rs"], [("scan for the end delimiter and unescape", M + "sequence.rs exec")],
  "write/read round-trip of generated escaped texts, and differential testing against a reference scanner", TRUST)
PROPS[-1]["statement"] = ("A delimited sequence matches from its start delimiter to the first unescaped end delimiter within the window, and does not match if there is none. "
  "Its value is the text between them with each escape removed and the escaped character kept; its captured text is the raw text between the delimiters, its matched text includes the delimiters. "
  "So any text that is written with its delimiters escaped is read back unchanged.")

p("P04", "A program matches its items in order, or leaves no trace",
  """A program matches if and only if each of its items matches in order, each from where the one before it ended; its children are the tokens of its items in order and its matched range ends where the last one ended, discarded text included; a program whose items yield no token at all does not match.
  If an item does not match, the program does not match and whatever is tried next starts at the place where the program started.""",
  ["inputs", "programs"], "for all sequences of items, nested in any way, and all texts",
  "Tests run a few fixed programs that match, or fail on their first item; rollback from the middle of nested programs and ranges with discarded items need combinations.",
  [M + "program.rs", "src/parser_context.rs"], [("iteration over the patterns, offset handling, and result", M + "program.rs exec, handle_token"), ("sub-contexts keep the cursor of the parent", "src/parser_context.rs clone_with_name")],
  MODEL + "; direct oracle on rows of literals; metamorphic rollback relation", TRUST)

p("P05", "A switch takes the first alternative that matches",
  """A switch yields exactly what the first of its alternatives that matches yields, each being tried from the same place; it does not match if none does.
  Alternatives after the one that matched, and alternatives before it that cannot match, have no influence on the result.""",
  ["inputs", "programs"], "for all lists of alternatives, nested in any way, and all texts",
  "Tests have two or three alternatives with distinct first characters; prefixes of each other, partial matches before failing, and long lists are not sampled.",
  [M + "program.rs"], [("stop on first match", M + "program.rs exec, PatternStopOn / IterationResult")],
  MODEL + "; direct oracle on lists of literals; metamorphic insertion of alternatives", TRUST)

p("P06", "A repetition is greedy within its bounds, and enforces both",
  """A repetition with bounds takes as many consecutive iterations as are there, but no more than its maximum, and does not match if there are fewer than its minimum; with a minimum of zero it matches even if there are none.
  An iteration that consumes nothing ends the repetition instead of repeating.""",
  ["inputs", "programs"], "for all bounds (open, half-open, inclusive), all counts of iterations present, all bodies including ones that match the empty text, and all nestings",
  "Tests use a few counts such as 1.. and 2..3 with short texts; boundaries around minimum and maximum for each way to give bounds, and large counts, are not sampled.",
  [M + "program.rs"], [("iteration bounds", M + "program.rs exec, iterate_range"), ("end of a repetition of nothing", M + "program.rs exec")],
  MODEL + "; direct oracle on counted repetitions", TRUST)

p("P07", "Optional, not and discard relate to their matcher as documented",
  """An optional never fails: it yields what its matcher yields, or else consumes nothing. A negation never consumes: it succeeds just when its matcher does not match at the same place. A discard consumes exactly what its matcher consumes and yields no token.""",
  ["inputs", "programs"], "for all inner matchers, including nested optionals, negations and discards, and all texts",
  "Tests use one literal inside each; the relation to compound matchers that match partly, match nothing, or themselves discard is never sampled.",
  [M + "optional.rs", M + "not.rs", M + "discard.rs"], [("mapping of the inner result", M + "optional.rs / not.rs / discard.rs exec")],
  MODEL + "; metamorphic relations between a matcher and its optional, negated and discarded form", TRUST +
  " The negation of a negation is claimed only where the inner matcher consumes something.")

p("P08", "Parse results form a well-formed, ordered tree",
  """In every parse result, children lie inside their parent's matched range, follow each other in source order without overlapping, appear once, and name the token that holds them as their parent; the outermost token has no parent.
  This also holds for flattened, renamed and expanded tokens; recorded errors, which move to the outermost token, keep the parent under which they were found.""",
  ["inputs", "programs"], "for all grammars without pins, and all texts",
  "Tests look at names and texts of particular children; parent links and geometry of flattened or re-parented children in nested structures are not looked at.",
  [M + "program.rs", M + "proxy_children.rs", "src/token.rs"], [("children get their parent when they are added", M + "program.rs add_token_to_children / " + M + "proxy_children.rs"), ("parent and child links", "src/token.rs")],
  "invariant over the token trees of generated grammars (identity of parents included), plus the reference interpreter", TRUST)

p("P09", "Recorded errors never stop a parse and surface once, at the root",
  """An error that a grammar records does not stop the parse or change what else is matched; each error that happens on the accepted path appears exactly once as an error token directly below the outermost token.
  It carries the grammar's message with the file, line and column of the text it is about.""",
  ["inputs", "programs"], "for all placements of error recording in grammars (nested, discarded, flattened, looped), all counts of errors and all texts",
  "Tests record one error in a flat program; errors below discarded or flattened parts, several errors, and multi-line positions are not sampled.",
  [M + "error.rs", M + "assert_if.rs", M + "assert_if_not.rs", M + "program.rs", "src/parser_context.rs"],
  [("errors are hoisted towards the root", M + "program.rs, " + M + "discard.rs"), ("text of an error", "src/parser_context.rs get_error_as_string")],
  MODEL + "; direct oracle on texts with known errors", TRUST)

p("P10", "A fatal error aborts the whole parse unless it is intercepted",
  """A fatal error that a grammar raises, or a reference to something undefined, ends the parse with that error, whatever optional, negation, alternative or repetition is around it; only an explicit interception can turn it into another result.
  The error has the message given and a position in the source.""",
  ["inputs", "programs"], "for all ways to bury a fatal error in a grammar, and all texts that reach it",
  "Tests raise a fatal error at the top of a program; an optional, not, switch or loop that swallows it is not sampled.",
  [M + "panic.rs", M + "fatal_if.rs", M + "fatal_if_not.rs", M + "ref.rs", M + "catch.rs", "src/parser_context.rs"],
  [("errors propagate through each matcher", "src/matchers/*.rs exec"), ("interception", M + "catch.rs")],
  MODEL + "; direct oracle on fatal errors buried in generated grammars", TRUST)

p("P11", "Lines, columns and error texts agree with the source",
  """For every range of a source text, the reported line is one more than the number of line endings before it and the column is one more than the distance in bytes to the start of that line, with LF, CR and CR LF each one line ending; an error text is the file name (if any), that line and column, and the message.
  Positions always refer to the whole source, also when only a part of it is parsed.""",
  ["inputs"], "for all source texts with any mix of line endings, all ranges in them, all file names and messages",
  "Tests check two or three positions of a text with LF endings.",
  ["src/parser_context.rs", "src/parser.rs"], [("line and column computation", "src/parser_context.rs get_lines, get_columns, get_error_as_string")],
  "generated texts and ranges against an independent computation, with inversion back to the offset", TRUST + " Offsets strictly inside a CR LF pair are outside of the claim.")

p("P12", "Variables are found by innermost scope and don't leak",
  """A name resolves to the value set last in the innermost scope that has it; leaving a scope restores what was visible before, and storing never affects other names or scopes.
  Values stored from matched tokens can be used in later literals and delimiters (back-references) and fetched by field, and references, whether to a name, to a fetched name, or to a matcher, resolve to the rule that is visible where and when they are used, whichever rule the same reference found before.""",
  ["histories", "inputs", "programs"], "for all histories of scope operations, all grammars with stores, references, registrations and scopes, and all texts",
  "Tests do one store and one fetch; shadowing, restoring after failure, and interleavings of push, pop and set are histories.",
  ["src/scope.rs", "src/scope_context.rs", M + "store.rs", M + "fetch.rs", M + "ref.rs", M + "register.rs", M + "set_scope.rs", "src/parser_context.rs"],
  [("scope stack", "src/scope_context.rs"), ("store / fetch / ref / register / set_scope", "src/matchers/")],
  "stateful testing of scope histories against a stack-of-maps model, back-reference round trips, and the reference interpreter", TRUST)

p("P13", "Pins look elsewhere and put the cursor back",
  """A pin with an absolute, relative or stored position runs its matcher on just that part of the source and always leaves the cursor where it was, whether or not the matcher succeeds; what the matcher matched there becomes part of the result.
  A position outside of the source makes it not match and never crashes. The same holds if it is optional, discarded, stored, flattened, or in a scope of its own (but a reference, switch, map or catch around a pin does consume what the pin matched).""",
  ["inputs", "programs"], "for all forms of pin positions, all offsets in and outside of the source, all inner matchers and texts",
  "Tests use a few offsets in one short text.",
  [M + "pin.rs"], [("position forms and window computation", M + "pin.rs exec")],
  MODEL + "; direct oracle on generated offsets", TRUST)

p("P14", "A break ends exactly the repetition it names, keeping what was matched",
  """A break ends the nearest enclosing repetition with its name (or the innermost one if it has none), after the text matched so far, and what was collected up to there is kept at every level in between; a level that has collected no token when the break comes does not match.
  Nothing after the break is matched within that repetition, and parsing goes on right after it.""",
  ["inputs", "programs"], "for all nestings of repetitions, alternatives and breaks, and all texts",
  "Tests break from one or two levels with a fixed text.",
  [M + "break.rs", M + "program.rs"], [("break results pass through levels until the named loop", M + "program.rs exec")],
  MODEL + "; row/cell texts against plain splitting", TRUST)

p("P15", "A parse is a function of grammar and input alone",
  """Running the same matcher again on the same or another context, in any order, gives equal results, and so do matchers built from parts in the different ways the library offers (equal parts may be one shared matcher, and children may be replaced after the fact); debugging wrappers change nothing but what is printed.
  No run leaves anything behind in the matcher that changes a later run.""",
  ["histories", "inputs", "programs"], "for all grammars, all sequences of inputs run with the same matcher objects, and all ways to build it",
  "Tests build a matcher, run it once and drop it.",
  ["src/matcher.rs", "src/parser_context.rs", "src/matchers/", "adextopa_macros/src/lib.rs"],
  [("matchers keep no state between runs", "src/matchers/*.rs exec"), ("macros and constructors build the same matcher", "src/matchers/*.rs macros"), ("debug wrapper", M + "debug.rs")],
  "metamorphic testing: repeated runs, interleaved inputs, alternative constructions, inserted debug wrappers", TRUST)

p("P16", "A visitor sees each token once, in document order",
  """Visiting a tree calls, for each token in document order (parents before their children), exactly one handler: the first one registered for its name, or else the one for any name, or none if there is neither.
  The first handler that fails ends the visit at once, and its error is the result.""",
  ["inputs", "histories"], "for all token trees and all sets of handlers and their answers",
  "Tests visit one small tree with a few handlers that all succeed.",
  ["src/token_visitor.rs"], [("walk over the children and handler dispatch", "src/token_visitor.rs")],
  "generated trees and handler tables against a reference walk", TRUST)

p("P17", "Tokens behave as the record of what was last set",
  """After any history of changes to a set of tokens, each getter returns what was set last (or what derives from it), children keep their order, lookups by name or pattern find the first child that qualifies, and no token is affected by changes to another.
  Comparison of tokens depends only on name and ranges.""",
  ["histories"], "for all histories of token operations on several tokens of each kind",
  "Tests call single setters.",
  ["src/token.rs", M + "pin.rs"], [("fields, attributes, flags and children", "src/token.rs StandardToken, " + M + "pin.rs PinToken")],
  "stateful testing of operation histories against a plain record model", TRUST)

p("P18", "Flattening, mapping and intercepting change only what they say",
  """Flattening a group into the one around it gives the same children as writing its items there, in order and with the outer token as parent; mapping changes only the name or attributes asked for; interception changes only failed results.
  None of them changes which text is matched or consumed.""",
  ["inputs", "programs"], "for all grammars with these wrappers at any place, and all texts",
  "Tests flatten one program of literals and map one token.",
  [M + "proxy_children.rs", M + "map.rs", M + "catch.rs", M + "expand_range.rs"], [("children pass to the parent", M + "proxy_children.rs, " + M + "program.rs"), ("mapping functions", M + "map.rs")],
  MODEL + "; metamorphic relation between flattened and written-out items", TRUST)

p("P19", "Parsing a window equals parsing that text alone",
  """Parsing a part of a source gives the same result as parsing the text of that part by itself, shifted by its start: nothing before the start or after the end of the window can be seen, matched or change the outcome.""",
  ["inputs", "programs"], "for all grammars, all texts, and all texts around them",
  "Tests parse whole sources; a matcher that looks past the end or before the start cannot be noticed.",
  ["src/parser_context.rs", "src/matchers/"], [("window of a context", "src/parser_context.rs new_with_offset, get_end_offset"), ("each leaf respects the end", M + "equals.rs, " + M + "matches.rs, " + M + "sequence.rs")],
  "metamorphic testing: the same generated case alone and inside of surrounding text", TRUST + " For grammars with pins, which may leave the window by design, the reference interpreter decides.")

p("P20", "Recursive grammars recognise exactly their language",
  """A grammar with recursive rules, such as nested parentheses or a JSON-like language, accepts exactly the texts of its language up to the same end and yields a tree that mirrors the nesting of the text.""",
  ["inputs", "programs"], "for all texts in and near the languages, up to bounded nesting, and for mutually recursive generated rules",
  "The tests have no recursive grammar beyond the script parser itself.",
  [M + "ref.rs", M + "program.rs", "src/parser_context.rs"], [("references run the rule where they are used", M + "ref.rs exec")],
  "differential testing against hand-written recursive-descent parsers, and the reference interpreter", TRUST)

p("P21", "A parse always ends after an amount of work that its input bounds",
  """A parse always ends, without crashing, and uses its basic matchers no more often than trying the alternatives in order requires: no repetition of something empty goes on for ever, and nothing is tried twice at one place without a reason in the grammar.""",
  ["inputs", "programs"], "for all grammars without left recursion, including repetitions of empty matches, and all texts",
  "A non-terminating case hangs the test suite only if a test has it; the tests have none.",
  [M + "program.rs", M + "optional.rs"], [("repetition stops when nothing is consumed", M + "program.rs exec")],
  "generated grammars rich in empty repetitions, with a budget of leaf matches set by the reference interpreter", TRUST + " The budget is four times what the reference needs plus 64.")

p("P22", "Parsing a file equals parsing its text",
  """Parsing from a file gives the same result as parsing the text of the file with its name in messages; a file that is missing, not readable or not valid text is reported as an error and never crashes.""",
  ["inputs", "fault_sequences"], "for all file contents, names, and kinds of unreadable files",
  "Tests read one fixed file if any.",
  ["src/parser.rs"], [("file reading", "src/parser.rs new_from_file")],
  "generated files in a scratch directory against parsing the same text", TRUST)

p("P23", "Text forms and debug output never crash and show the tree faithfully",
  """The text form of a token tree shows each token precisely once, in document order, with its name, ranges, values and attributes, each matcher has a text form, and printing debug information at any place of any text neither crashes nor changes the result.""",
  ["inputs", "programs"], "for all grammars, texts (any Unicode), and debug modes",
  "Tests print ASCII fragments, so cutting text inside of a character does not show.",
  ["src/token.rs", "src/parser_context.rs", M + "debug.rs"], [("formatting of tokens", "src/token.rs fmt"), ("debug text around the cursor", "src/parser_context.rs")],
  "generated trees checked against their text form, and debug runs against plain runs", TRUST)

p("P24", "Answers of the caller's own matchers are carried out",
  """A matcher supplied by the caller that consumes text without giving a token moves the parse on by that text; one that asks to continue a loop ends the current iteration of the loop with that name (the innermost one if it has none), keeping what this iteration matched, through whatever programs and switches are in between.
  One that asks to stop ends the program it is an item of, which keeps what it matched; one that answers with nothing is as if it were not there.""",
  ["inputs", "programs"], "for all grammars with such matchers at any place, and all texts",
  "No test has a matcher that gives anything but tokens, failures or breaks; the other answers are handled by separate code for programs, loops, switches and wrappers.",
  ["src/matcher.rs", M + "program.rs", M + "discard.rs", M + "proxy_children.rs"], [("answers of items", M + "program.rs exec"), ("answers a matcher can give", "src/matcher.rs MatcherSuccess")],
  MODEL + "; rows of cells against plain splitting; metamorphic insertion of matchers that answer nothing", TRUST)

p("P25", "A matcher is what its children, patterns and name are now",
  """After a child of a matcher is set, a pattern is added to it, or it is given a name, every later parse behaves as the grammar that has this change behaves, whatever was parsed before; nothing of what was replaced has an effect.
  Its children, name, and whether it consumes are reported as they are now; naming a matcher that has no name of its own names the matcher inside.""",
  ["histories", "programs", "inputs"], "for all grammars, all histories of such changes at any of their matchers with parses in between, and all texts",
  "Tests build a matcher once. A name, child or range remembered from before a change shows only in a later parse, and only for some kinds of matchers.",
  ["src/matcher.rs", M + "program.rs", M + "optional.rs", M + "not.rs", M + "discard.rs", M + "map.rs", M + "catch.rs", M + "debug.rs", M + "set_scope.rs", M + "proxy_children.rs", M + "expand_range.rs", M + "register.rs"],
  [("set_child, add_pattern, set_name, get_children", "the impl of Matcher in each file of src/matchers")],
  "stateful testing: histories of changes are made to the matchers and to the grammar they stand for, and each parse is compared with the reference interpreter on the changed grammar", TRUST)

p("P26", "A parse context is a cursor of its own, its variables are shared",
  """The cursor, window, debug mode and stack of tokens of a parse context are as they were last set on this context; nothing that is done to a clone of it, or to the context it was cloned from,
  and no parse that is run on it, changes them. A clone starts as its original is at that moment, and the two share parser, variables and registered matchers.
  Look-ups of literals and regular expressions through a context, the text it shows, and parses run on it, speak about its own cursor and window, in any debug mode.""",
  ["histories", "inputs"], "for all histories of operations on any number of contexts and clones of them, all source texts, and all cursors and windows in them",
  "Tests use a context once, for one parse from its start. State that leaks between a context and its clones (every matcher works on one) shows only if both are used afterwards.",
  ["src/parser_context.rs", "src/source_range.rs", "src/scope_context.rs"],
  [("a clone has a cursor of its own and shares the scope", "src/parser_context.rs clone_with_name"), ("look-ups at the cursor", "src/parser_context.rs matches_str, matches_str_at_offset, matches_regexp"), ("registered matchers are variables", "src/parser_context.rs register_matchers")],
  "model-based stateful testing: histories of operations on contexts and clones against plain records, all getters compared after each operation", TRUST)

p("P27", "Callbacks and matchers of one's own run exactly when they should",
  """A callback given to `Map!` or `Catch!` is called exactly once each time its matcher answers with a token (or with a failure, for the failure callback and for `Catch!`), and not otherwise; a matcher of the caller
  runs exactly once each time it is tried. The calls come in the order in which the grammar is tried, also those on branches that are given up later. Each is shown the token or failure that was made, with the children it has by then,
  the cursor and window at which its matcher was tried, and the variables of its scope and of the context as they are at that moment.""",
  ["inputs"], "for all grammars with callbacks and own matchers at any places in them, and for all texts and windows",
  "Tests look at the tree that comes out. Calls on branches that fail, calls made twice, and what a callback is shown, leave no trace in it, but a caller who counts, collects or builds values in callbacks relies on them.",
  ["src/matchers/map.rs", "src/matchers/catch.rs", "src/matchers/program.rs", "src/matcher.rs", "src/parser_context.rs", "src/scope_context.rs"],
  [("calls back after its matcher", "src/matchers/map.rs exec"), ("calls back on a failure", "src/matchers/catch.rs exec"), ("tries items in order", "src/matchers/program.rs exec"), ("tries alternatives in order until one matches", "src/matchers/program.rs MatchAction")],
  "differential testing against a reference evaluator: the recorded sequence of calls, with what each was shown, for generated grammars", TRUST)

p("P28", "Grammars that say the same give the same result",
  """A grammar gives the same result when a matcher in it is replaced by another way to say the same: a reference to a rule that holds it, a scope of its own, a stored, switched, or debugged form of it,
  callbacks that hand on what they get, items grouped in a flattened program, alternatives grouped in a switch, a repetition with another form of its bounds, wrappers that are applied twice, or a literal written as a regular expression;
  and when an item or alternative is added that fails or takes nothing. (Where errors are said to begin depends on the program around them and is not part of this, and no pins are used.)""",
  ["programs", "inputs"], "for all grammars without pins and own matchers, all replacements at any places, and all texts and windows",
  "Each test has its grammar written in one way. That no way of writing it has quirks of its own can only be seen by comparing many ways at many places.",
  [M + "program.rs", M + "discard.rs", M + "optional.rs", M + "proxy_children.rs", M + "ref.rs", M + "set_scope.rs", M + "catch.rs", M + "map.rs"],
  [("items of programs and loops", M + "program.rs exec"), ("alternatives", M + "program.rs MatchAction"), ("wrappers", "exec in each file of src/matchers")],
  "metamorphic testing: a generated grammar and its rewritten form are both run on the library and compared (the reference only tells which grammars are inside of the domain)", TRUST)

exec(open(os.path.join(ROOT, "tools", "script_properties.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "script_properties.py")) else None


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for x in PROPS:
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["text"]},
                "why_tests_cant": x["why"],
                "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"], "hook_needed": None},
            }, ensure_ascii=False) + "\n")
    na = {x["property"] for x in NOT_APPLICABLE}
    m = {
        "version": 1,
        "setup_cmd": "./build.sh",
        "checks": [{
            "property": x["id"],
            "quick_cmd": "./check.sh %s quick" % x["id"],
            "thorough_cmd": "./check.sh %s thorough" % x["id"],
            "technique": "property-based testing: " + x["technique"],
            "level": "exploration",
            "level_note": x["note"],
        } for x in PROPS if x["id"] not in na],
        "not_applicable": NOT_APPLICABLE,
        "notes": "No hooks in /repo: the harness uses the public interface only. Generated by tools/properties.py.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")
    import sys
    sys.path.insert(0, os.path.join(ROOT, "tools"))
    sys.dont_write_bytecode = True
    import design
    design.write(ROOT, PROPS, NOT_APPLICABLE)


main()
