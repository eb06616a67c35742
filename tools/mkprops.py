#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
C="crates/jarl-core/src/"; L="crates/jarl-lsp/src/"; J="crates/jarl/src/"
P=[]
def p(id,title,stmt,over,text,why,files,mech,observe=(),hook=None,state=()):
    P.append(dict(id=id,title=title,statement=stmt,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

# ------------------------------------------------------------------ LSP
p("L01","The language server's text always equals the editor's text",
 "After any sequence of open, change and close notifications, the text and version the server holds for each open document equal the editor's: the changes of one notification apply one after the other, each range read against the text left by the previous one, and a change without a range replaces the whole text. A notification that cannot be applied (unknown line, reversed range, position inside a character, unknown document) is refused without a crash and leaves text, version and later position lookups as they were.",
 ["histories","inputs"],"all notification sequences; all document texts (multi-byte characters, empty lines, CRLF); all three position encodings; batches of any size",
 "One unit test applies one ASCII replacement; batches of several changes, multi-byte text, failing changes and re-use of the document after a failure are never reached.",
 [L+"document.rs",L+"session.rs"],[("apply_changes",L+"document.rs"),("update_document",L+"session.rs")],
 ["TextDocument::content/version/line_count","Session::get_document"],
 state=[("content","server copy of the text",L+"document.rs"),("line_starts","cached line index",L+"document.rs")])
p("L02","Positions and offsets convert exactly in every position encoding",
 "For every text and each of the UTF-8, UTF-16 and UTF-32 encodings, converting a byte offset at a character boundary to a line/character position and back yields the same offset, the position is the one the LSP specification defines (line = number of newlines before it; character = code units before it on that line), and positions beyond the end of a line mean the end of that line. Lines or offsets outside the document and positions or offsets inside a character are refused or rounded to a neighbouring character boundary, but never crash and never yield an offset inside a character.",
 ["inputs"],"all texts over 1- to 4-byte characters with LF/CRLF line ends, all positions and offsets in and out of range, three encodings",
 "Four fixed ASCII points and one emoji are tested.",
 [L+"document.rs",L+"lint.rs"],[("position_to_offset / offset_to_position",L+"document.rs"),("byte_offset_to_lsp_position",L+"lint.rs")],["TextDocument::position_to_offset, offset_to_position, range_of_text"])
p("L03","Messages to the editor: unique ids, exact bookkeeping, one-time notice",
 "Every message the server sends appears exactly once with the method, id, result or error it was given; request ids are never reused, also under concurrent use from several threads; a request is outstanding exactly from its sending until its answer arrives or it times out, and answers to unknown ids change nothing. The hidden-unused-function notice is shown at most once per session however many threads raise it, counts correctly in singular and plural, and internal errors map to the LSP internal-error code.",
 ["schedules","histories"],"all interleavings of sends, answers, timeouts and notices from several cloned handles",
 "Tests read two ids from one thread and convert one error; no message is ever received by a test.",
 [L+"client.rs"],[("send_request/handle_response/cleanup_pending_requests",L+"client.rs"),("notify_unused_fn_threshold_once",L+"client.rs")],["messages on the channel"],
 state=[("request_id_counter","next id",L+"client.rs"),("pending_requests","outstanding requests",L+"client.rs"),("unused_fn_threshold_notified","one-shot flag",L+"client.rs")])
p("L04","Every editor request gets exactly one answer and the session ends cleanly",
 "For every sequence of JSON-RPC messages an editor may send (valid, unknown, with malformed parameters, after shutdown), each request with an id is answered exactly once with that id, notifications are never answered, unknown methods get a method-not-found error, and neither malformed parameters nor a failing lint stop the server from serving later messages. After shutdown, requests get an error. The session ends when told to exit (or when the editor goes away), and only then, with success exactly if shutdown was requested before.",
 ["histories","schedules","fault_sequences"],"all message sequences incl. malformed parameters, requests for unknown documents, shutdown/exit in any order; all schedules of the background workers",
 "Integration tests run a few well-formed happy-path sessions and cannot be built offline.",
 [L+"server.rs",L+"session.rs",L+"client.rs"],[("message loop and task queue",L+"server.rs")],["JSON-RPC messages on the connection"])
p("L05","Published diagnostics describe the latest text, and are cleared on close",
 "Diagnostics published for a document always carry the version of the text they were computed from and are those of that text; once diagnostics for a version have been published none for an older version of the same document follow, and after a document is closed its last published list is empty. When everything is done, the last published diagnostics of an open document are those of the text it had when it was last saved (none if that text cannot be linted).",
 ["schedules","histories"],"all interleavings of edits, closes and background lint workers over any number of documents",
 "No test orders two lint jobs; schedules of the worker pool are never explored.",
 [L+"server.rs",L+"lint.rs",L+"client.rs"],[("lint task queue, worker threads",L+"server.rs")],["publishDiagnostics notifications"])
p("L06","Editor quick fixes edit exactly what they claim",
 "Applying in the editor the edit of a fix offered for a diagnostic yields the same text as the fix engine applying that one fix, and applying an offered ignore edit inserts one suppression comment that silences exactly the named rules for that code and changes nothing else; this holds for every position of the code and every negotiated position encoding.",
 ["inputs","configurations"],"all sources incl. multi-byte text before the code, all three encodings, all fixable rules",
 "Unit tests check ASCII examples with the default encoding only.",
 [L+"server.rs",L+"lint.rs",C+"suppression_edit.rs"],[("code action construction",L+"server.rs"),("diagnostic data",L+"lint.rs")],["codeAction responses"])
p("L07","Editor and command line report the same problems",
 "For the same content and configuration the language server reports exactly the violations the command line reports for that file: same rules, same source ranges (converted to the negotiated encoding), with suppressions, rule selection, R version gating and file exclusion applied alike; content that does not parse yields no lint diagnostics and no crash.",
 ["inputs","configurations"],"all R/Rmd/Qmd contents, configuration files and file locations",
 "The two front ends are tested separately on different examples.",
 [L+"lint.rs",L+"utils.rs",C+"check.rs"],[("lint entry point",L+"lint.rs")],["publishDiagnostics vs. jarl check output"])
# ------------------------------------------------------------------ suppression
p("S01","Suppression comments are recognised and classified exactly as documented",
 "Every comment is classified the same way as the documented grammar does: one valid rule plus non-empty reason (reason optional for an end comment) gives a suppression of the stated kind (next block, file, range start, range end, chunk); a standard or chunk comment that names no rule is a blanket suppression; an unknown rule name, or a known rule without a reason, gives the corresponding defect; anything else is not a suppression. The chunk-option prefix is accepted only for chunk suppressions, array headers and items are recognised only in the documented form, and no input crashes the parser.",
 ["inputs"],"all comment strings over prefix, keyword, kind, spacing, rule names (all rules), colon and reason variations, incl. multi-byte text",
 "No test of the parser itself is runnable; end-to-end snapshots cover a handful of spellings.",
 [C+"directive.rs"],[("parse_comment_directive, parse_quarto_chunk_array_item, is_quarto_chunk_array_header",C+"directive.rs")],["DirectiveParseResult"])
p("S02","A violation is hidden exactly when a suppression covers it",
 "A violation is reported if and only if it is not covered: by a file suppression for its rule placed before any code (in notebooks: in the first R chunk), by a chunk suppression for its rule in its chunk, by a matched start/end pair for its rule at the same nesting level enclosing it, or by a standard suppression for its rule on the block it belongs to. Suppressing one rule never hides another rule, nor the same rule elsewhere.",
 ["programs","inputs"],"all programs (nesting of blocks, calls, functions), all placements and combinations of suppression comments, all rules",
 "Tests are snapshots of a few dozen hand-written placements.",
 [C+"suppression.rs",C+"checker.rs",C+"check.rs",C+"rmd/mod.rs"],[("SuppressionManager",C+"suppression.rs")],["reported diagnostics"])
p("S03","Every suppression comment is accounted for",
 "Each suppression comment that hides nothing is reported as unused, and one that hides a violation never is; blanket, misnamed, unexplained, misplaced, misplaced-file, invalid-chunk and unmatched start/end comments are each reported, exactly once, at the comment's own location, under the rule named for that defect and only if that rule is selected.",
 ["programs","configurations"],"all placements and combinations of valid and defective suppression comments, all rule selections",
 "Snapshots cover each defect alone, not combinations, nesting or selection.",
 [C+"suppression.rs",C+"check.rs",C+"lints/comments"],[("unused/blanket/... reporting",C+"suppression.rs")],["reported diagnostics of the COMM rules"])
p("S04","Inserted ignore comments silence everything and change nothing else",
 "After inserting ignore comments, linting the same file again with the same settings reports none of the previously reported lint violations, every original line of code is still there in the same order with the same meaning (only comment lines and line breaks around them are added), the file still parses, and inserting again changes nothing. No inserted comment is superfluous, and a comment for an expression inside of a condition, loop or function does not extend to the rest of that construct.",
 ["programs","inputs"],"all programs incl. pipes, nested calls, if/else chains, several violations of several rules on a line, indentation, CRLF, Rmd chunks",
 "Tests snapshot a dozen programs, without re-linting.",
 [C+"suppression_edit.rs",J+"commands/check.rs"],[("create_suppression_edit, apply",C+"suppression_edit.rs")],["file content after --add-jarl-ignore, second lint"])
# ------------------------------------------------------------------ notebooks
p("M01","Exactly the executable R chunks of a notebook are extracted",
 "For every R Markdown/Quarto text the extracted chunks are, in order and without overlap, exactly the bodies of the fenced blocks opened by three or more backticks directly followed by an R chunk header in braces (engine name r or R) and closed by a line holding the same backticks; each chunk's code equals the text at its stated byte position, other engines, display-only blocks, tilde fences and unclosed blocks yield nothing, and no input crashes.",
 ["inputs"],"all sequences of lines over opening/closing fences of different lengths, indentation, engines, headers, CRLF and multi-byte text, with and without final newline",
 "15 examples, none with several fences interleaved, CRLF, or multi-byte text, and the body/position identity is checked at two fixed points.",
 [C+"rmd/extraction.rs"],[("extract_r_chunks, OPEN_FENCE",C+"rmd/extraction.rs")],["RCodeChunk.code, start_byte"])
p("M02","Notebook diagnostics point at the original document, which is never modified",
 "A violation inside a chunk is reported at exactly the place in the notebook where the offending code stands, the same violations are reported for a chunk's code as for an R file holding only that code, a chunk that does not parse does not hide the violations of other chunks, and linting or fixing never changes a notebook.",
 ["inputs","programs"],"all notebooks, any number of chunks, multi-byte text before and inside chunks, with fix options on",
 "Snapshots of a few notebooks; the offset identity is not tested over inputs.",
 [C+"rmd/mod.rs",C+"check.rs"],[("offset remapping",C+"rmd/mod.rs")],["diagnostic ranges/rows/columns; file bytes"])
# ------------------------------------------------------------------ rules
p("R01","The rule registry is consistent and agrees with the documentation",
 "Rule names are unique and converting a rule to its name and back is the identity, while any other string names no rule; every rule has a category, and filtering by category, by default status and by fix status each returns exactly the matching rules, so that fix statuses and default statuses partition the registry. Each rule's category, fix status, default status, minimum R version and deprecation are those of the published rule table.",
 ["inputs","configurations"],"all rules, all strings as names, all categories and statuses",
 "No runnable test touches the registry.",
 [C+"rule_set.rs","docs/rules.qmd"],[("declare_rules!, RuleSet",C+"rule_set.rs")],["Rule and RuleSet API"])
p("R02","The set of active rules follows the documented selection algebra",
 "The active rules are: the command-line selection if given, else the configuration file's, else the rules enabled by default; plus extend-selected rules; minus every rule ignored on the command line or in the file (ignoring wins); groups stand for their rules and unknown names are an error. Rules needing a newer R than the project's minimum version, or any minimum version when none is known, are never active.",
 ["configurations"],"all combinations of select/extend-select/ignore from both sources over rules, groups and ALL, and all minimum R versions",
 "About forty fixed examples, not the algebra.",
 [C+"config.rs",C+"rule_set.rs"],[("reconcile_rules, filter_rules_by_version",C+"config.rs")],["rules applied by build_config"])
p("R03","Fixes are applied only for rules and modes the user allowed",
 "A violation is rewritten only if fixing was requested and its rule is active, fixable (in the fixable list when there is one, never when in the unfixable list) and its fix is safe or unsafe fixes were requested; all such violations that can be fixed are fixed, every other violation is still reported, and without a fix option no file is ever written.",
 ["configurations","programs"],"all combinations of fix, unsafe-fixes, fix-only, fixable, unfixable, select and rules of each fix status",
 "Fixed examples per option, not combinations.",
 [C+"config.rs",C+"check.rs",C+"fix.rs"],[("rules_to_apply_fixes",C+"config.rs"),("apply_fixes",C+"fix.rs")],["file content and report"])
p("R04","The project's minimum R version is read correctly from any DESCRIPTION",
 "For every DESCRIPTION text, reading the minimum R version never crashes and yields the lower version bounds (>=, > or ==) that R's own dependency syntax states for R in the Depends field: fields may span indented lines and stand in any order, only the package called R counts, and an R entry without a version yields none.",
 ["inputs"],"all DESCRIPTION texts over field order, continuation lines, several dependencies, spacing, parentheses and operators",
 "Six well-formed examples.",
 [C+"description.rs",C+"config.rs"],[("get_depend_r_version, parse_dcf",C+"description.rs")],["Description::get_depend_r_version"])
# ------------------------------------------------------------------ config & discovery
p("C01","Each file is governed by the nearest configuration file",
 "A file is checked under the configuration in the closest enclosing directory of the project that has one, a visible file taking precedence over a hidden one in the same directory; with none in any parent the user-level configuration is used, and with none there the defaults; a malformed or unreadable configuration is an error naming that file and never silently ignored.",
 ["configurations"],"all directory trees with configuration files at any subset of levels",
 "A few temp-dir trees.",
 [C+"discovery.rs",C+"toml.rs",C+"settings.rs"],[("discover_settings",C+"discovery.rs")],["settings resolved for a path"])
p("C02","Exactly the requested, not excluded R and notebook files are checked",
 "The files checked are the R, Rmd and Qmd files among the given files and below the given directories that match an include pattern (if any) and no exclude pattern, minus the default excludes unless these are switched off; each file is checked once however often it is named, hidden, duplicate or overlapping arguments included, and the order of arguments or of directory entries does not change the set.",
 ["configurations","inputs"],"all directory trees and argument lists; all include/exclude/default-exclude settings",
 "Some twenty fixed trees.",
 [C+"discovery.rs",C+"fs.rs"],[("discover_r_file_paths",C+"discovery.rs"),("has_r_extension, has_rmd_extension",C+"fs.rs")],["list of checked files"])
p("C03","Rule options resolve as documented: replace or extend, never both",
 "For each rule with list options, the resolved list is the default list when nothing is set, exactly the given list when the base option is set, the default list plus the given names when the extend option is set, and an error naming the rule when both are set; unknown fields, wrong types and invalid values are configuration errors, and namespaced and plain names match as documented. The diagnostics of unused_function of a package are hidden when there are more than the threshold of the configuration that governs them, and only if that rule is not named in that configuration or on the command line; other packages of the run do not matter.",
 ["configurations"],"all option tables for all rules with options",
 "One or two examples per rule.",
 [C+"rule_options/mod.rs",C+"toml.rs"],[("resolve_with_extend",C+"rule_options/mod.rs")],["resolved options; lint behaviour"])
p("C04","File kinds and paths are classified and shown consistently",
 "A path is treated as R code or as a notebook exactly when its extension is one of the documented spellings, never as both; making a path absolute is idempotent, resolves . and .. and yields an absolute path without them, and showing an absolute path relative to the working directory only strips that directory as whole components, so that the shown path still denotes the same file.",
 ["inputs"],"all paths over ., .., empty, dotted, extension-less, multi-dot and non-ASCII components, inside and outside the working directory",
 "No test.",
 [C+"fs.rs",C+"error.rs"],[("normalize_path, relativize_path, has_*_extension",C+"fs.rs")],["fs helpers; displayed file names"])
# ------------------------------------------------------------------ fix engine
p("F01","Applying fixes performs exactly the proposed edits",
 "Each fixing pass replaces exactly the source ranges of the selected non-overlapping fixes by their replacement text and leaves every other byte unchanged, whatever the order, number, length change and nesting of the fixes and whatever multi-byte text surrounds them.",
 ["inputs"],"all sets of proposed edits (overlapping, nested, adjacent, empty, growing, shrinking) over all texts",
 "Snapshots of whole-program fixes only.",
 [C+"fix.rs"],[("apply_fixes",C+"fix.rs")],["text after a pass"])
p("F02","Fixing converges to code that parses, keeps comments and has nothing left to fix",
 "Running with fixes terminates; in the fixed file every reported expression has become the documented replacement with its operands unchanged, and the code around it still groups as before (parentheses are added where a replacement needs them); the file still parses, contains every comment of the original, and running again changes nothing and finds no violation that it was allowed to fix, except those the tool declines to fix because a comment would be lost, which are still reported; a file that does not parse is left untouched and reported.",
 ["programs"],"all programs built from the fixable constructs, nested in each other, with comments and multi-byte text at any place",
 "Each rule's snapshots fix isolated snippets once.",
 [C+"check.rs",C+"fix.rs",C+"lints"],[("fix loop",C+"check.rs")],["file content after one and two runs"])
p("F03","Files are rewritten only under version control, unless the user says otherwise",
 "With a fix option, files are modified only if every file is inside a version-control repository whose state is clean, or the user allowed dirty or no version control respectively; otherwise nothing at all is written and the run fails with an explanation.",
 ["configurations","histories"],"all combinations of repository presence, cleanliness (modified, staged, untracked, ignored), flags and numbers of files",
 "Three fixed set-ups, and they need a git library that is not available offline.",
 [C+"vcs.rs",J+"commands/check.rs",C+"check.rs"],[("check_version_control",C+"vcs.rs")],["files on disk, exit status"])
# ------------------------------------------------------------------ output
p("O01","Reported rows and columns are those of the offending code",
 "For every violation in every text the reported row is one plus the number of line breaks before the code's first byte and the reported column is its distance from the start of that line, and every output shows the same location for it.",
 ["inputs"],"all texts (leading blank lines, CRLF, multi-byte characters) and all violation positions",
 "Snapshots show a few locations, never a leading blank line.",
 [C+"utils.rs",C+"location.rs",C+"diagnostic.rs"],[("find_row_col",C+"utils.rs")],["row/column in reports"])
p("O02","Reports are complete, deterministic and equal in every output format",
 "The set of reported violations and its order depend only on the files and the configuration, not on thread scheduling, argument order or directory order; every output format reports the same violations (file, rule, row, column, message), the counts and statistics equal the number reported, and the JSON output is valid JSON for any content.",
 ["schedules","inputs","configurations"],"all file sets, thread counts, formats",
 "Snapshots use one or two files per format.",
 [J+"output_format.rs",J+"statistics.rs",J+"commands/check.rs",C+"check.rs"],[("emitters, sort",J+"output_format.rs")],["stdout in each format"])
p("O03","The exit status tells clean, violations and failure apart",
 "The process exits 0 when the run succeeded and nothing remains to report, 1 when violations remain, and 255 when a file could not be found, read or parsed (each such file is named, and the other files are checked all the same) or the run itself failed (unknown rules, bad configuration, bad R version, version-control refusal); misspelled command lines exit with the usage code 2. The statuses map to distinct codes, and log levels are parsed exactly as documented.",
 ["configurations"],"all runs: options x file contents x failures; all log level strings",
 "Integration snapshots check some codes; they are not runnable offline.",
 [J+"status.rs",J+"main.rs",J+"lib.rs",J+"commands/check.rs",J+"logging.rs"],[("ExitStatus -> ExitCode",J+"status.rs"),("LogLevel::from_str",J+"logging.rs")],["process exit code"])
# ------------------------------------------------------------------ analyses
p("A01","Unreachable code is reported exactly where no execution can arrive",
 "Statements are reported as unreachable if and only if no execution of the enclosing function or file arrives at them: after return (in functions), calls of the stopping functions (configured, plain or namespaced), break and next (in loops), after if/else none of whose branches goes on, and in branches of if statements whose condition is constant (TRUE and FALSE combined by | || & && and parentheses). Loops are taken to end at any time whatever their condition. Every maximal piece is reported once, with exactly its place and the reason that is its cause, wherever the code stands (functions in functions, calls, braces, notebook chunks); code some path reaches is never reported.",
 ["programs"],"all nestings of if/else, for, while, repeat, function, return, break, next, stop and constant conditions",
 "Sixty snapshots of hand-written functions.",
 [C+"lints/base/unreachable_code"],[("control-flow graph and reachability",C+"lints/base/unreachable_code/cfg")],["unreachable_code diagnostics"])
p("A02","Package-wide analyses see exactly the package",
 "Functions of the same name defined by unindented lines of the R files of one package are reported as duplicates, each but the first in the order of paths and lines, with the place of the first one; a function so defined in R/ is reported as unused if and only if the package has a NAMESPACE that does not export it, it is no hook, skipped or probable method, and nothing in R/, the tests or src/ mentions it but definitions; one defined in tests or inst tests if nothing of that directory does. Files outside of a package or of another package, wherever it lives, never influence the result, nor do thread scheduling, argument order or spelling; after --fix the reports are about the fixed text.",
 ["programs","schedules","configurations"],"all packages: files, definitions, exports, uses, several packages in one run",
 "A few temp-dir packages.",
 [C+"package.rs",C+"lints/base/unused_function",C+"lints/base/duplicated_function_definition"],[("package summarisation",C+"package.rs")],["diagnostics"])
p("A03","Rules fire on exactly the code patterns they document",
 "For every expression of the R fragment covered by the documentation of the pattern rules (any_is_na, any_duplicated, length_levels, which_grepl, outer_negation, comparison_negation, redundant_equals, redundant_ifelse, length_test, equals_na, equals_nan, equals_null, all_equal, coalesce, assignment, unnecessary_nesting, is_numeric, sort, string_boundary, lengths, list2df, seq, seq2, sample_int, matrix_apply, system_file, grepv, fixed_regex, class_equals, vector_logic, if_always_true, repeat, true_false_symbol, numeric_leading_zero, expect_length, expect_named, expect_null, expect_s3_class, expect_true_false, expect_type, expect_not, expect_match, expect_no_match, empty_assignment, implicit_assignment, for_loop_index, for_loop_dup_index, duplicated_arguments, browser, undesirable_function, download_file), wherever it stands in other code however it is spaced, and whether the arguments are given by position, by name or through a pipe, a rule reports the expression if and only if it has the documented bad pattern, exactly once and at exactly that expression, and offers a fix for it unless the documentation says otherwise or a comment stands inside of it; a fix loses no argument, and no call whose arguments have no value, and no number, keeps a file that parses from being checked.",
 ["programs"],"all expressions over the operators, calls, named/positional argument orders, literals and nestings the rules mention",
 "Snapshots of selected expressions per rule.",
 [C+"lints",C+"analyze",C+"utils_ast.rs"],[("lint functions",C+"lints/base")],["diagnostics and fixed text"])
p("A04","Formats of sprintf are read as R reads them",
 "For every call of sprintf() whose format is a string, wherever the format stands among the arguments and by whatever name the others are given, exactly one of these is reported, at the call: an invalid %, if some % starts no specification (% [n$] flags width precision type, where width and precision are digits or * or *n$) and no %%; a useless call, if there is no specification, which is replaced by the string with %% turned into % if there are no other arguments; a mismatch, if the number of other arguments is not the number that the specifications and stars use, in order or by position. Nothing is reported otherwise, for piped calls, nor a mismatch when one argument is `...`.",
 ["inputs","programs"],"all formats; all calls",
 "Thirty fixed formats.",
 [C+"lints/base/sprintf/sprintf.rs"],[("sprintf, parse_sprintf_format",C+"lints/base/sprintf/sprintf.rs")],["diagnostics and fixed text"])
# ------------------------------------------------------------------ zed
p("X01","The Zed extension launches the right binary with the right arguments",
 "The path configured by the user wins over a binary on the search path, which wins over an earlier download still present on disk, which wins over downloading; the download is the release asset built for the current platform, is fetched only when not already on disk, is remembered for next time, and removes only other entries of the extension's own directory; user arguments are always passed on and default to the server subcommand.",
 ["configurations","histories","fault_sequences"],"all combinations of settings, search path, cache, disk contents, platform, release assets and failing downloads, over sequences of launches",
 "One test of three platform names.",
 ["editors/zed/src/lib.rs"],[("language_server_binary, GithubReleaseDetails::new","editors/zed/src/lib.rs")],["launched command; files on disk"])
p("X02","The VS Code extension runs one server at a time, the one settings select",
 "Requests to start, stop and restart the server, made at any time, are served one after the other in the order in which they were made, each is answered, and never is a server started before the one before it has been stopped, whichever starts and stops fail; afterwards the extension knows a server if and only if the last one it started is not stopped. A workspace that is not trusted only gets the bundled binary; otherwise the strategy set for the root folder (the shortest that exists) decides: bundled, then the environment's (default); the environment's, then the bundled one; or the configured path if it exists. It is run with the server subcommand and the log level of the user settings only.",
 ["histories","configurations","fault_sequences","schedules"],"all worlds (trust, settings, binaries, folders); all histories of requests with failing starts and stops",
 "None that run offline.",
 ["editors/code/src/lsp.ts","editors/code/src/binary.ts","editors/code/src/settings.ts","editors/code/src/workspace.ts"],[("Lsp, resolveJarlBinaryPath, getRootWorkspaceFolder","editors/code/src/lsp.ts")],["launched commands; state of the extension"])
for x in P: print(json.dumps(x,ensure_ascii=False))
