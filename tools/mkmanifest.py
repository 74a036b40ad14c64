"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DM, EN, UT, CX, DB, DOC, FO = ("src/data_model.rs", "src/enum_def.rs", "src/utility.rs", "src/context.rs",
                               "src/doc_builder.rs", "src/doc.rs", "src/formatter.rs")
PROG = "every program of the supported language, in any spelling and arrangement, at any width and indentation"
FIX = "about 290 fixture files, each with one expected output at one configuration"


def P(id, title, statement, over, text, why, files, mech, obs, technique, note, level="model_checking"):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, obs=obs,
                technique=technique, note=note, level=level)


TLA = "TLA+ spec checked with TLC: "
GEN = ("Bounded: every derivation of spec/Grammar.tla with at most two deviations from the plainest program (one in some quick corpora), "
       "seeded TLC simulations of larger ones, and the repository's fixture inputs. ")
TRUST = "Trusts the tree-sitter grammar for tokens and trees, the recorder (facts only) and TLC."

PROPS = [
    P("P01", "Formatting keeps every token of the code",
      "The code tokens of the output are those of the input, in the same order: no name, literal, operator, keyword or punctuation is lost, added, "
      "duplicated, exchanged or altered beyond the letter case of keywords. The only tokens that may go are those without meaning: a stray semicolon "
      "between members, the empty argument list of an annotation, the optional AS of a SOQL alias, and redundant parentheses in a SOQL condition.",
      ["inputs", "programs", "configurations"], PROG,
      f"The tests compare {FIX}; dropping a token in a construct, or a pair of constructs, no fixture has is invisible to them.",
      [DM, EN, "src/accessor.rs"], ["each syntax node copies the parts it knows about; a part it does not know about is silently dropped"],
      ["format result"], TLA + "token transducer validated against recorded runs of generated programs",
      GEN + TRUST),
    P("P02", "Every comment comes out exactly once, in order, with its words",
      "When a file is formatted, every comment of the input is in the output exactly once, in the original order, of the same kind and with the same words; "
      "where a comment cannot be kept the file is refused with an error instead. Only comments right before a comma or semicolon may change order: block comments come before the mark, line comments behind it.",
      ["inputs", "programs", "configurations"], "every program of the supported language with comments in any gaps between its tokens",
      "Fixtures have comments in a few dozen places; there are some thousand kinds of gaps between tokens, and pairs of them.",
      [UT, CX, DM], ["comments are attached to nodes in a map and every node prints its own; a check after printing refuses lost comments"],
      ["format result"], TLA + "comment stream specification validated against recorded runs", GEN + "Comments: one in any gap of any such program, and random ones in many gaps. " + TRUST),
    P("P03", "Comments stay where they belong",
      "A comment never moves past a name, a literal or the brace of a body. Between the statements or members of a body it does not move past any token: "
      "a comment on its own line stays on its own line, and a comment behind code stays behind that code.",
      ["inputs", "programs", "configurations"], "every program of the supported language with comments in any gaps between its tokens",
      "Fixtures have comments in a few dozen places only.",
      [UT, CX, DB], ["attachment of comments to the preceding or following node", "line break in front of own-line comments"],
      ["format result"], TLA + "comment position specification validated against recorded runs", GEN + TRUST),
    P("P04", "Formatting is idempotent",
      "Formatting an output again with the same configuration succeeds and changes nothing. This holds for all programs without comments and for those whose "
      "comments stand between the statements and members of bodies.",
      ["inputs", "programs", "configurations"], PROG,
      "The tests format each fixture once, never an output.",
      [DOC, DB, DM, UT], ["layout depends on the tokens and blank lines, which the output reproduces"],
      ["format result of a format result"], TLA + "memo machine (outputs are fixed points) validated against recorded runs", GEN + TRUST),
    P("P05", "The layout does not depend on the white space of the source",
      "Two sources with the same tokens and the same blank lines between statements and members get the same output, whatever spaces, tabs, line breaks or line "
      "endings separate their tokens.",
      ["inputs", "programs", "configurations"], "every program without comments and every arrangement of its white space",
      "Each fixture exists in one arrangement only.",
      [DM, DB, UT], ["the output is built from the syntax tree, not from the text"],
      ["format results of rearranged sources"], TLA + "memo machine over abstract programs validated against recorded runs",
      GEN + "Five arrangements of each program. " + TRUST),
    P("P06", "A result depends on nothing but the text and the configuration",
      "Every call of the formatter gives for a text and a configuration what it gives in a process of its own, whatever was formatted before it in the same thread or process, "
      "including calls that failed, and whatever is being formatted in other threads at the same time.",
      ["histories", "schedules", "inputs"], "every sequence of calls in a thread and every interleaving of threads, with texts of any kind including ones that fail",
      "Each test formats one file in a fresh thread, and nothing fails before it.",
      [UT, FO, CX], ["source text and comments are kept in thread-local variables", "comments are marked as printed in shared maps"],
      ["results of sequences and parallel calls"], TLA + "exhaustive model of workers and thread-local variables, its scenarios replayed into the real code and judged",
      "Bounded: all lists of up to four classes of texts in one thread (five in the thorough tier), two threads of two; and eight threads with random lists. The scheduler decides real interleavings. " + TRUST),
    P("P07", "A batch returns one result for each file, in the order of the files",
      "Formatting a list of files returns exactly one result for each, in the order of the list, whatever order they become readable in; a file that cannot be read, is not UTF-8 or "
      "cannot be formatted gives an error in its place and does not affect the others.",
      ["schedules", "inputs", "fault_sequences"], "every number of files, every combination of good and failing files and every order of completion",
      "The tests format one file per batch.",
      [FO, "src/lib.rs"], ["one thread per file sends its result through a channel", "panics are caught in the thread"],
      ["results of a batch"], TLA + "exhaustive model of the batch runner, its scenarios replayed into the real code through pipes and judged",
      "Bounded: all combinations of classes of files and orders of reading for two and three files; random batches of up to 40. " + TRUST),
    P("P08", "The configured width decides where lines break",
      "If every line of the layout without a limit fits, that is the output; a line that fits as it is, is not broken; and a line that exceeds the limit has no "
      "possible break left to take. Lengths count characters.",
      ["inputs", "programs", "configurations"], "every program without comments, at every width",
      "The tests use one width for nearly all fixtures, none near the edge of a construct's width.",
      [DOC, DB], ["choice between the flat and the broken layout of each group by whether it fits"],
      ["format results at several widths"], TLA + "relation between layouts at several widths validated against recorded runs",
      GEN + "Eight widths for each program. " + TRUST),
    P("P09", "Indentation shows the nesting, in the configured unit",
      "Every statement and member starts its own line, indented by the configured unit once for each body around it; closing braces of bodies stand at the "
      "indentation of what they close; continuation lines are indented by multiples of the unit, never left of their statement.",
      ["inputs", "programs", "configurations"], PROG,
      "Fixtures use the default indentation and a sample of nestings.",
      [DB, DOC, DM], ["indentation is added around the contents of each body"],
      ["format result"], TLA + "line structure specification validated against recorded runs", GEN + TRUST),
    P("P10", "Blank lines and line ends are regular",
      "The author's blank lines between statements and members are kept, each as exactly one blank line, and there are no others; no blank line follows an opening "
      "brace, no line ends in white space, and the file ends in exactly one newline.",
      ["inputs", "programs", "configurations"], PROG,
      "Fixtures have blank lines in some places of some constructs.",
      [DB, DOC, DM, UT], ["a blank line is printed where the source has one behind a member"],
      ["format result"], TLA + "line structure specification validated against recorded runs", GEN + TRUST),
    P("P11", "Tokens on a line are set apart evenly",
      "Between two tokens on a line there is one space or none, as the tokens and their constructs say, whatever the source had: one around binary and assignment operators, "
      "behind commas, between words, before the braces of bodies and behind the keywords of control statements; none inside parentheses, brackets and type arguments, around dots, "
      "before commas and semicolons, between a name and its arguments, and between a unary operator and its operand unless the signs would run together.",
      ["inputs", "programs", "configurations"], PROG,
      "Fixtures show the spacing of some pairs of tokens; there are some thousand pairs of tokens and constructs.",
      [DM, EN, DB], ["texts with and without a trailing space are pieced together by each node"],
      ["format result"], TLA + "spacing of every pair of neighbouring tokens specified and validated against recorded runs",
      GEN + "Judged where all comments stand between the items of bodies; the space beside comments is not judged. " + TRUST),
    P("P12", "The command line changes only the named file, and only when told to",
      "A dry run prints the formatted text and a check compares with it, neither changing any file; with -w the named file, and nothing else, becomes its formatted text. "
      "The exit code is 0 exactly when the run did what was asked (for a check: when the file is formatted); otherwise it is 1 with a message on standard error, and the file is as before, whatever went wrong: "
      "a syntax error, unsupported code, an unreadable or unwritable file or a bad configuration. Wrong use of the options ends with 2 and changes nothing.",
      ["histories", "inputs", "configurations", "fault_sequences"], "every history of edits, permission changes and runs in any mode with any configuration, for files of any content",
      "The tests call the library and never run the binary.",
      ["src/main.rs", "src/args.rs", FO, "src/lib.rs"], ["the file is written only after formatting succeeded", "exit codes follow the result"],
      ["exit code, output and files after each run"], TLA + "exhaustive histories of a file model replayed with the real binary, the steps judged as transitions of the specification",
      "Bounded: all histories of three steps (four in the thorough tier, sampled), texts random. Interrupted writes are a known finding. Trusts the operating system's permissions."),
    P("P13", "Text with a syntax error is refused",
      "A source that is not a valid program - cut off, with a token missing, doubled, exchanged or misplaced - is never formatted: the run ends in an error and no output is produced for it.",
      ["inputs", "programs"], "every text that does not parse",
      "Two fixtures at most have an error.",
      [FO], ["the parser's error flag is checked before formatting"],
      ["format result"], TLA + "mutants of generated programs, outcomes validated against recorded runs",
      "Bounded: every single mutation of programs with at most one deviation, random double mutations of larger ones, and mutated fixtures. What is a syntax error is the grammar's verdict. " + TRUST),
    P("P14", "Every valid program of the supported language is formatted",
      "A valid program made of supported constructs, with comments between its statements and members, is always formatted: the formatter does not refuse it, crash or hang, however constructs are combined and nested. On any other input it returns an error.",
      ["inputs", "programs", "configurations"], PROG,
      f"The tests have {FIX}; a combination no fixture has may panic.",
      [DM, EN, UT, FO], ["every node kind the grammar allows in a place has a case", "the check for lost comments"],
      ["format result"], TLA + "acceptance specification over generated programs validated against recorded runs", GEN + TRUST),
    P("P15", "A configuration file means what it says",
      "Under a configuration file the result is the layout for its max_width and indent_size, each being the default (80 and 2) when the file does not set it, independent of each other and of "
      "the order and spelling of the lines; other keys and tables do not matter. A configuration that is missing, malformed, or sets an option to something else than a number it can have, is refused with exit code 1 before anything is changed.",
      ["configurations", "inputs"], "every configuration file and every text",
      "No test reads a configuration file.",
      [FO, "src/main.rs", DOC, DB], ["serde defaults for missing keys", "the configuration is passed to the printer in the worker thread"],
      ["result of a run of the binary"], TLA + "exhaustive configurations with their meaning, replayed with the real binary and judged",
      "Bounded: all configurations of up to three lines (four in the thorough tier) with at most two unusual ones, sampled above two lines; random spellings. The layout for a width and indentation is the library's answer, which P08 and P09 judge."),
    P("P16", "SOQL conditions keep their meaning",
      "The condition of a query (WHERE, HAVING, also in subqueries and SOSL) has in the output the same logical value as in the input for all values of its comparisons: "
      "NOT, AND, OR and the parentheses that matter keep their scope.",
      ["inputs", "programs", "configurations"], "every condition, however its comparisons are combined and grouped, at every width",
      "Fixtures have some ten conditions, mostly without groups.",
      [DM, EN, "src/accessor.rs"], ["condition nodes decide which parentheses to print"],
      ["format result, parsed"], TLA + "conditions generated exhaustively from the grammar; truth tables of source and output compared by TLC",
      "Bounded: every condition with up to four comparisons, four pairs of parentheses and two NOTs (five and five in the thorough tier), in six kinds of queries, with several forms of comparisons. " + TRUST),
    P("P17", "Comments are printed in their normal form",
      "Doc comments are printed with one star per line, aligned below the first star, and their text kept; other comments are kept line by line, without white space around the "
      "lines; a comment on lines of its own is aligned with its surroundings.",
      ["inputs", "programs", "configurations"], "every program of the supported language with comments of any form in any gaps",
      "Fixtures have a few dozen comments.",
      [CX, UT], ["comment text is split in lines, trimmed and rebuilt"],
      ["format result"], TLA + "comment normal form specification validated against recorded runs", GEN + TRUST),
    P("P18", "The output is valid and has the same syntax tree",
      "The output parses without error and every token keeps its place in the syntax tree: operators keep their operands, branches their statements, clauses their query, modifiers their declaration.",
      ["inputs", "programs", "configurations"], PROG,
      "The tests compare texts and never parse an output.",
      [DM, EN, DB], ["parentheses and separators are printed where the tree needs them"],
      ["format result, parsed"], TLA + "syntax tree correspondence validated against recorded runs", GEN + TRUST),
]

NOT_APPLICABLE = []


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": x, "where": ", ".join(p["files"])} for x in p["mech"]], "observe_at": p["obs"], "hook_needed": None},
            }) + "\n")
    m = {"version": 1,
         "setup_cmd": "sh ./setup.sh",
         "checks": [{"property": p["id"],
                     "quick_cmd": f"./check {p['id']}",
                     "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
                     "evidence_file": f"evidence/{p['id']}.json",
                     "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in PROPS],
         "not_applicable": NOT_APPLICABLE,
         "notes": "No hooks in /repo: the harness links the crate and uses its public interface and its binary."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
