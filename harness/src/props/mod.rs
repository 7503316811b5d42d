use crate::engine::{prop, Prop};

pub mod combin;
pub mod context;
pub mod core;
pub mod data;
pub mod edit;
pub mod leaf;
pub mod script;
pub mod tree;

pub fn all() -> &'static [Prop] {
    static ALL: std::sync::OnceLock<Vec<Prop>> = std::sync::OnceLock::new();
    ALL.get_or_init(|| {
        vec![
            prop("P01", "Generated grammar (all kinds of matchers but pins), multi-byte text sampled from the grammar and mutated, optional window and long prefix; each token of the tree is compared with the source slice, and the tree with the reference. Non-trivial: the parse gives at least 3 tokens over text with multi-byte characters.", 200_000, 8_000_000, 600, leaf::p01),
            prop("P02", "One generated literal (text equal, near or cut) or regex with flags (text sampled from it and mutated) inside of a window whose surroundings may complete the match, or a small grammar of leaves. Non-trivial: literal in the inside of a source, regex that matches, or a parse with 3 or more leaf matches.", 400_000, 8_000_000, 300, leaf::p02),
            prop("P03", "Content over an alphabet with the delimiters themselves, escaped and written between delimiters (9 delimiter sets and random ones), possibly cut by the window; or sequences inside of grammars. Non-trivial: at least one escape (round trip: and content longer than 2 bytes).", 1_000_000, 8_000_000, 300, leaf::p03),
            prop("P04", "Rows of literals and discarded literals, possibly broken at one place; nested programs against the reference; programs that fail at the end inside of a switch. Non-trivial: 3 or more items, a rollback, or a match after 5 or more steps.", 400_000, 8_000_000, 400, combin::p04),
            prop("P05", "Lists of alternatives over overlapping literals; nested switches against the reference; insertion of alternatives that must not matter. Non-trivial: an alternative other than the first one matches (insertion: a match).", 400_000, 8_000_000, 400, combin::p05),
            prop("P06", "Repetitions with every form of bounds over texts with counts around the bounds (up to 700 iterations); nested repetitions and empty iterations against the reference. Non-trivial: two or more iterations there, a repetition failing its minimum, or an iteration that consumes nothing.", 400_000, 8_000_000, 300, combin::p06),
            prop("P07", "A generated matcher by itself, optional, negated, twice negated and discarded between a head and a tail; and nested wrappers against the reference. Non-trivial: the inner matcher consumes text (reference: a match after more than 6 steps).", 200_000, 8_000_000, 300, combin::p07),
            prop("P14", "Rows of cells in nested loops with breaks of the inner and outer loop against plain splitting (up to 200 cells); grammars with breaks against the reference. Non-trivial: the outer loop is broken after two or more rows, or a break is reached in a parse that matches.", 200_000, 8_000_000, 300, combin::p14),
            prop("P18", "Grammars with flatten, expand, map and catch wrappers against the reference; a flattened program against its items written out. Non-trivial: a wrapper is present and the parse matches.", 200_000, 8_000_000, 600, combin::p18),
            prop("P08", "Generated grammars (with flatten, loops, breaks, references, stores, scopes); order, containment, uniqueness and parent identity of every token. Non-trivial: 5 tokens or more.", 200_000, 8_000_000, 600, tree::p08),
            prop("P09", "Grammars that record errors against the reference; texts of nested groups with known errors, wrapped in 5 ways, with all kinds of line endings (up to 150 items). Non-trivial: errors recorded in a parse that matches, or two or more known errors.", 300_000, 8_000_000, 300, tree::p09),
            prop("P10", "A fatal error buried under up to 11 generated wrappers, possibly intercepted; grammars with fatal errors against the reference. Non-trivial: the error is reached under 3 or more wrappers, or raised in a generated grammar.", 300_000, 8_000_000, 300, tree::p10),
            prop("P13", "All forms of pin positions (absolute, relative, ranges, stored) with offsets in and outside of the source, at generated places; grammars with pins against the reference. Non-trivial: the pin looks at another place than the cursor, or succeeds in a generated grammar.", 200_000, 8_000_000, 300, tree::p13),
            prop("P15", "A generated grammar run again, run on another text in between, built in other ways (macros, constructors, equal parts shared, children put in later), and with debug wrappers at random nodes. Non-trivial: more than 8 reference steps and a match or fatal error.", 200_000, 8_000_000, 900, tree::p15),
            prop("P19", "A generated grammar and text, alone and between other text (up to 200 pieces on each side). Non-trivial: matches and there is text on both sides.", 200_000, 8_000_000, 600, tree::p19),
            prop("P20", "Values of a JSON-like language (also mutated texts) and parentheses against hand-written parsers; mutually recursive generated rules against the reference. Non-trivial: a non-empty collection or mutated text of over 10 bytes, 3 or more groups, or 3 or more references followed.", 200_000, 8_000_000, 300, tree::p20),
            prop("P21", "Grammars rich in repetitions of empty matches, and recursive rules; the library gets a budget of leaf matches from the reference. Non-trivial: two or more iterations, an empty iteration, or two references followed.", 200_000, 8_000_000, 500, tree::p21),
            prop("P11", "Texts over mixed line endings (up to 900 characters), ranges, files, messages, windows. Non-trivial: 3 or more lines and a non-empty range that does not end at 0.", 1_000_000, 8_000_000, 300, data::p11),
            prop("P12", "Histories of up to 300 scope operations against a stack of maps; nested heredoc-like back-references; rules that are used under several definitions of what they refer to, with scopes given from outside and scopes that fail; grammars with stores, references and scopes against the reference. Non-trivial: 6 or more operations, 2 or more levels, or a stored or referenced value used in a parse that matches.", 200_000, 8_000_000, 400, data::p12),
            prop("P16", "Trees of up to 250 tokens (depth up to 40) and up to 5 handlers, some of which fail at their n-th call. Non-trivial: 3 or more handler calls expected.", 1_000_000, 8_000_000, 300, data::p16),
            prop("P17", "Histories of up to 200 operations on up to 5 tokens of both kinds, all getters compared after each. Non-trivial: 6 or more operations.", 600_000, 8_000_000, 600, data::p17),
            prop("P22", "Generated text written to a scratch file (up to some 100 kB), possibly in place of another text that was read before, or a missing file, invalid UTF-8, or directory. Non-trivial: unreadable, or more than 4 bytes.", 200_000, 8_000_000, 300, data::p22),
            prop("P23", "Generated grammars with debug wrappers; text forms of matchers and of the whole tree. Non-trivial: 3 tokens or more.", 200_000, 8_000_000, 600, data::p23),
            prop("P24", "Rows of cells where a matcher of the caller ends an iteration early (up to 120 rows), under wrappers; grammars with such matchers against the reference; a matcher that answers nothing inserted at random places, and items after a stop. Non-trivial: an early end and two or more rows, an iteration, stop or skip in a parse that matches, or an insertion into a grammar that matches.", 200_000, 8_000_000, 400, combin::p24),
            prop("P25", "Generated grammars whose matchers get other children, more patterns and other names (up to 6 changes at random places reached through `get_children`), with a parse after each change against the reference for the changed grammar, and names and children compared. Non-trivial: a parse after a change gives a token or fatal error that is not the one before.", 200_000, 8_000_000, 900, edit::p25),
            prop("P26", "Histories of up to 60 operations on contexts over two texts and on their clones (cursor, debug mode, tokens on the stack, variables, registered matchers, look-ups, parses), all getters of all contexts compared with plain records after each. Non-trivial: a clone, three or more changes, and a look-up or parse that matches.", 200_000, 8_000_000, 1500, context::p26),
            prop("P27", "Generated grammars with callbacks for matches and failures and with matchers of the caller at random places; the calls are noted with what each was shown (token, cursor, window, variables of its scope and of the context) and compared with the notes of the reference. Non-trivial: four calls or more.", 400_000, 12_000_000, 1500, combin::p27),
            prop("P28", "A generated grammar and the same grammar written in another way: at random places a matcher is replaced by one that means the same (31 ways). Non-trivial: at least one replacement, and a fatal error or a tree of 3 tokens or more.", 400_000, 12_000_000, 1500, combin::p28),
            prop("S01", "Soups of up to 60 script fragments, scripts that are mutated, constructs nested up to 60 deep, and soups of single characters. Non-trivial: longer than 8 bytes.", 60_000, 1_500_000, 400, script::s01),
            prop("S02", "Generated scripts (all constructs of the language, with random whitespace, comments and spelling), each compiled and run on 3 texts, against the reference. Non-trivial: matches after more than 12 steps.", 40_000, 1_500_000, 1500, script::s02),
            prop("S03", "Every form of repeat specifier after each kind of pattern, over texts with counts around its bounds (up to 150); repeat specifiers that make no sense. Non-trivial: two or more repetitions, or a count outside of the bounds.", 40_000, 1_500_000, 500, script::s03),
            prop("S04", "Words defined by literals, through each other, and more than once, in any order, used up to 40 times; scripts with many references against the reference; definitions in another order. Non-trivial: two or more words and uses, or a match after more than 12 steps.", 40_000, 1_500_000, 1500, script::s04),
            prop("S05", "Acyclic graphs of up to 4 script files in several directories with imports by name, under another name and of root patterns, by 5 ways to write a path, against the reference; graphs with one broken import in a file that is reached; files that are changed, broken and repaired between compiles. Non-trivial: a match that follows a reference in a graph of several files, a broken graph, or a change.", 20_000, 1_000_000, 3000, script::s05),
            prop("S06", "A generated script written plainly and twice with random whitespace, comments and escapes, run on 2 texts. Non-trivial: all spellings differ and a text matches.", 16_000, 1_000_000, 2500, script::s06),
            prop("S07", "Chains of up to 5 definitions with generated attributes (duplicates, escapes, any order), repeated or not. Non-trivial: two or more attributes expected.", 40_000, 1_500_000, 800, script::s07),
            prop("S08", "Small scripts with each form of the language, and generated scripts, with up to 3 small changes (any character put in, out or in place of another one, moved or swapped, mostly at or next to a character with a meaning), against an independent recogniser. Non-trivial: changed and longer than 10 bytes.", 240_000, 8_000_000, 1000, script::s08),
            prop("S09", "Literals over all characters that mean something to the language, regexes with flags, and sequences with delimiters that need escapes, on texts that match or nearly do. Non-trivial: an escape is needed, or a regex over 3 characters.", 60_000, 1_500_000, 400, script::s09),
            prop("S10", "Generated scripts with 1 to 4 mistakes that are collected, an unquoted attribute value, or a wrong version, at generated places. Non-trivial: longer than 20 bytes.", 50_000, 1_500_000, 1500, script::s10),
            prop("S11", "Generated scripts with named captures on 3 texts, against the reference. Non-trivial: there is a named capture and a text matches.", 40_000, 1_000_000, 1500, script::s11),
            prop("S12", "Generated scripts, some of them broken, compiled three times (once with logging) and each run on 4 texts in two orders. Non-trivial: two or more texts match.", 16_000, 1_000_000, 2000, script::s12),
            prop("S13", "A generated script and the same script with up to 5 of its parts said in another way (17 ways), or with its definitions in a file of their own, on 3 texts. Non-trivial: at least one change, and a text matches.", 30_000, 1_500_000, 2500, script::s13),
            prop("S14", "Two generated scripts compiled by a caller, which gets a matcher and a scope for each, and a generated grammar of the caller's own that uses both matchers and names of both scopes, in several places and next to own rules of the same names, on 3 texts. Non-trivial: a text matches, and two or more names or scripts are used.", 30_000, 2_500_000, 3500, script::s14),
        ]
    })
}
