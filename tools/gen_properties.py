#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
B="edlisp/builtin_*.go"
p("C01","No script, buffer or argument can crash the process",
  "Evaluating any parsed program on any buffer ends in a value or an error, never in a Go panic: no index or slice expression is out of range, no unchecked type assertion fails and no nil is dereferenced, whatever the argument values (including negative, huge, fractional, NaN and infinite numbers), the text, or the state left by earlier instructions.",
  ["inputs","programs","histories"],"all programs over the built-in functions, all buffers, all argument values and every reachable editor state",
  "Tests run one or two friendly argument values per function; a crash needs a particular combination of argument, text and earlier instructions.",
  ["edlisp/eval.go",B,"edlisp/list.go","edlisp/error.go"],
  [("argument and bounds checks at the head of each built-in","edlisp/builtin_*.go"),("clamping of positions","edlisp/eval.go (*Buffer).SetPoint/SetMark/Mark")])
p("C02","Point and mark always lie inside the buffer",
  "Before and after every instruction, successful or failed, the position reported for point and the position reported for mark are at least 1 and at most buffer size + 1. No sequence of movements, edits, searches, mark settings or exchanges takes either of them out of these bounds.",
  ["inputs","programs","histories"],"every program and every buffer; inductive over the instruction history",
  "Tests look at point in a handful of final states; the bound must survive any history, e.g. a mark set before text was deleted.",
  ["edlisp/eval.go",B],[("clamping in the buffer's position setters and getters","edlisp/eval.go"),("position arithmetic in each built-in","edlisp/builtin_*.go")],
  [("point","1-based cursor","edlisp.Buffer"),("mark","1-based other end of the region","edlisp.Buffer")])
p("C03","Every instruction terminates, in work bounded by the text",
  "Every instruction terminates, and the number of loop iterations it performs is bounded by the size of the buffer and of its arguments' text; it never grows with the magnitude of a numeric argument.",
  ["inputs","programs"],"every built-in, every buffer and every numeric argument",
  "Tests use counts of 1 to 3; a loop that spins `count` times after the end of the buffer is invisible until count is 10^18.",
  ["edlisp/builtin_*.go","edlisp/eval.go"],[("loop conditions that stop at the ends of the buffer","edlisp/builtin_{forward,backward,kill}_*.go, builtin_{delete,mark}_line.go")])
p("C04","An edit replaces one range and preserves all other text",
  "Every instruction that changes the buffer replaces exactly one contiguous range: the text before it and the text after it are preserved byte for byte and in order. Deleting commands only remove text, and inserting or replacing commands put exactly their argument text in place of the range.",
  ["inputs","programs","histories"],"every editing function, buffer, position, argument",
  "Tests compare whole buffers for a few inputs; duplicated or lost bytes appear only for particular positions and counts.",
  ["edlisp/eval.go","edlisp/builtin_delete_*.go","edlisp/builtin_kill_*.go","edlisp/builtin_replace_*.go","edlisp/builtin_insert.go","edlisp/builtin_backward_kill_word.go"],
  [("rebuild of the content as prefix + text + suffix","each editing built-in and (*Buffer).Insert")])
p("C05","Functions only have the effects of their class",
  "Query and string functions change neither text, point, mark nor remembered match. Movement functions change only point; region functions (set-mark, mark-word, ...) change only point and mark; search functions change only point and the remembered match; editing functions change only text and point.",
  ["inputs","programs","histories"],"every built-in on every state and argument list, successful or not",
  "A test of a query checks its value, not that the rest of the state is untouched for every input.",
  [B,"edlisp/eval.go"],[("which built-ins write which buffer fields","edlisp/builtin_*.go")])
p("C06","A failed instruction changes nothing",
  "If a built-in function reports an error (failed search, wrong arguments, invalid regexp, stale match), text, point, mark and remembered match are exactly what they were before the call.",
  ["inputs","programs","histories"],"every error outcome of every built-in on every state",
  "Tests look at the error text only; partial effects before an error show up in scripts run until they fail.",
  [B],[("all checks precede the first write","edlisp/builtin_*.go")])
p("C07","Search finds the nearest match and replace-match replaces it",
  "A successful forward search moves point to the end of the first match at or after point, a successful backward search to the end of the last match ending at or before point, and an unsuccessful search is an error. As long as the text has not changed since, replace-match then replaces exactly that match by its argument and leaves point after the replacement; without a (non-empty) match it is an error.",
  ["inputs","programs","histories"],"every text, point and pattern, and every search/move/replace sequence",
  "Tests search for a word that occurs once; off-by-one positions, matches before point and repeated matches need particular texts.",
  ["edlisp/builtin_search_*.go","edlisp/builtin_re_search_*.go","edlisp/builtin_replace_match.go"],
  [("remembered match positions","edlisp.Buffer, written by the four search built-ins, read by replace-match")])
p("C08","Movement and region commands go exactly where they say",
  "goto-char, forward-char and backward-char move to the requested position clamped to the buffer; goto-line to the start of the requested line (clamped); beginning/end-of-line, beginning/end-of-buffer, forward-word, backward-word to the boundary they name; set-mark, set-mark-command, exchange-point-and-mark, mark-whole-buffer, mark-word and mark-line set point and mark to the documented ends.",
  ["inputs","programs","histories"],"every buffer, point, mark and argument",
  "Tests use one text and one argument each; empty buffers, trailing newlines, end of buffer, huge and negative arguments are not sampled.",
  ["edlisp/builtin_goto_*.go","edlisp/builtin_*_char.go","edlisp/builtin_*_word.go","edlisp/builtin_*_line.go","edlisp/builtin_*_of_*.go","edlisp/builtin_*mark*.go"],
  [("position arithmetic and scanning loops","the named built-ins")])
p("C09","Deleting and replacing commands act on exactly the named range",
  "delete-char, delete-backward-char, delete-region, replace-region, insert, kill-word, kill-line, delete-line and backward-kill-word remove or replace exactly the range their documentation (and tests) define relative to point, mark and count, clamped to the buffer, and leave point at the documented place; a zero or negative count removes nothing beyond that definition.",
  ["inputs","programs","histories"],"every buffer, point, mark and count",
  "Tests delete one or two characters in the middle of a short text; counts beyond either end, negative counts, reversed regions are not sampled.",
  ["edlisp/builtin_delete_*.go","edlisp/builtin_kill_*.go","edlisp/builtin_replace_region.go","edlisp/builtin_insert.go","edlisp/eval.go"],
  [("range computation","the named built-ins")])
p("C10","Query and string functions return the documented value",
  "point, mark, point-min, point-max, buffer-size, region-beginning, region-end, line-number-at-pos, buffer-substring, substring, length, concat, string-match, looking-at, looking-back, upcase, downcase, capitalize and replace-regexp-in-string return the value their documentation defines, for every state and argument, with out-of-range positions clamped.",
  ["inputs","programs","histories"],"every state and argument list",
  "Tests check one or two values; clamped and reversed ranges, empty strings and end-of-buffer cases are not sampled.",
  ["edlisp/builtin_point*.go","edlisp/builtin_mark.go","edlisp/builtin_buffer_*.go","edlisp/builtin_region_*.go","edlisp/builtin_substring.go","edlisp/builtin_length.go","edlisp/builtin_concat.go","edlisp/builtin_looking_*.go","edlisp/builtin_string_match.go"],
  [("value computation","the named built-ins")])
p("C11","Instructions run in order, once each, and stop at the first error",
  "Evaluation executes the instructions of a program in order, each exactly once, evaluates the arguments of a call left to right before the call, passes the function exactly those values and the one buffer, and stops at the first error. The result is the value of the last instruction, and tracing observes each successful instruction once without influencing the outcome.",
  ["programs","histories"],"every program, with and without tracing",
  "Tests evaluate programs of one to three instructions; skipping, repeating or reordering shows only in particular shapes of program.",
  ["edlisp/eval.go"],[("evaluation loop and argument loop","edlisp.EvalWithTrace, edlisp.evalExpression")])
p("C12","Execution errors carry the failing instruction and its cause",
  "When a program fails, the returned error identifies the index and text of the instruction that failed, the point and mark at that moment, and wraps the underlying cause so that callers can unwrap it. Every layer above (library functions, command line, MCP tools) keeps that error in what it reports.",
  ["programs","inputs"],"every failing program and every API that evaluates programs",
  "Tests look at one failing instruction; index or state mix-ups need a program failing later.",
  ["edlisp/error.go","edlisp/eval.go","texted.go","commands/edit.go","tools/texted_eval.go"],
  [("construction of the execution error","edlisp.NewExecutionError call in the evaluation loop"),("%w wrapping","texted.go, commands/edit.go")])
p("C13","Wrong argument counts and kinds are rejected",
  "Every built-in function called with a number of arguments or with an argument kind its documentation does not allow returns an error; it never ignores, misreads or coerces the argument. Conversely a call with documented argument count and kinds is never rejected for its arguments' shape.",
  ["inputs","programs"],"every built-in and every list of argument values",
  "Few error paths are tested; the combinations of count and kind are not enumerated by any test.",
  [B],[("len(args) and IsA checks","head of each built-in")])
p("C14","Files are only written with the complete result of their own content",
  "A file named for editing is written only after the whole script succeeded, with the complete resulting text, computed from that same file's content read in the same edit and from nothing else; if reading, parsing or execution fails, no file is written for it. Output files and standard output receive the complete edited text or nothing of it; the parse command writes the complete parsed script.",
  ["inputs","programs","fault_sequences"],"every script, file set and read/parse/execute failure",
  "Tests edit one good file; partial writes need failing scripts, several files, or I/O errors.",
  ["texted.go","commands/edit.go","tools/edit_file.go"],
  [("error checks between read, execute and write","texted.EditFile*, commands.process*")])
p("C15","A requested backup holds the original before the file is overwritten",
  "With in-place editing and a backup suffix, every file that is overwritten has first been copied, with its content at that moment, to its own name plus the suffix; if the copy cannot be made the file is left alone and the run fails.",
  ["inputs","configurations","fault_sequences"],"every set of files, flags and I/O failures",
  "No test exercises the command line; ordering and error handling need failing writes.",
  ["commands/edit.go"],[("backup block before processing","commands.processFilesInPlace")])
p("C16","Dry run changes nothing",
  "With dry-run requested, no file is created or modified and no edited text is written anywhere, whatever other flags and files are given.",
  ["configurations","inputs"],"every combination of flags, files, script and format (expression mode prints values and never writes files at all)",
  "No test exercises the command line; flag combinations are not enumerated.",
  ["commands/edit.go"],[("dry-run guards","commands.processStdin, processSingleFile*, processFilesInPlace")])
p("C17","Every failure reaches the exit status, every success is real",
  "If reading, parsing or executing fails, or writing a file, the edited text or a converted script, the command or library call that asked for it reports an error (commands exit non-zero; the multi-file API marks exactly that file as failed); a success result or message for a file appears only when that file was actually written. Unless the command could not start at all, each file of a multi-file edit is reported exactly once, in order, and a failure on one file does not keep the others from being processed.",
  ["inputs","configurations","fault_sequences"],"every command, library entry point, file list and failure",
  "Tests inject no I/O failures and run no command with several files.",
  ["commands/*.go","texted.go","cmd/texted/main.go","tools/edit_file.go"],
  [("error returns and the failure flag of multi-file runs","commands/edit.go"),("per-file results","texted.EditFiles*"),("exit status","cmd/texted/main.go, commands/test.go")])
p("C18","Result output is clean and quiet is quiet",
  "When the edited text or a converted script goes to standard output, nothing else is written to standard output unless verbose output was requested; with quiet, the edit command writes nothing to standard output except the edited text itself.",
  ["configurations","inputs"],"every combination of flags and inputs of edit and parse",
  "No test captures the command's standard output over flag combinations.",
  ["commands/edit.go","commands/parse.go"],[("quiet/verbose guards","commands/edit.go")])
p("C19","MCP handlers always answer and never touch the protocol stream",
  "Every MCP tool call is answered with a result: handlers never return a missing result or a protocol-level error, never write to standard output, read standard input or end the process. A rejected parameter, a failed evaluation and a document query without answer are answered with a tool error that says what failed, and a call that succeeds never is; texted_eval answers the resulting text or the value of the script, and edit_file lists every file, with the error of each file that failed.",
  ["inputs","schedules"],"every tool call with any arguments",
  "Handlers are tested on good input; a stray print corrupts the JSON-RPC stream only in the running server.",
  ["tools/*.go","commands/mcp.go"],[("handler return statements","tools.*Handler"),("no calls to printing or exiting functions","tools, texted, edlisp")])
p("C20","MCP tool declarations and handlers agree",
  "Every parameter a tool handler reads is declared in that tool's schema with the same name and type, a declared parameter is read, required parameters are declared required exactly when the handler rejects their absence, and each tool is registered with its own handler under its prefixed name.",
  ["configurations","inputs"],"every tool, every parameter, every prefix",
  "Tests call handlers directly with literal argument maps, so a renamed or retyped schema parameter goes unnoticed.",
  ["tools/*.go","commands/mcp.go"],[("schema construction and Require*/Get* calls","tools/*.go"),("AddTool calls","commands/mcp.go")])
p("C21","Evaluations are isolated from each other",
  "Two script evaluations, in sequence or concurrently (the MCP server runs tool calls concurrently), do not influence each other: each has its own buffer and function environment, and package-level state is either never written after initialisation or only accessed while holding its lock.",
  ["schedules","histories"],"all interleavings and sequences of evaluations and documentation queries",
  "Tests are sequential; sharing is visible only under concurrency or between calls.",
  ["edlisp/*.go","texted.go","tools/*.go","commands/*.go"],[("registry mutex","edlisp/documentation_registry.go"),("fresh buffer and environment per evaluation","texted.go, tools/texted_eval.go, commands/edit.go")])
p("C22","Scripts cannot reach outside their buffer",
  "Evaluating, parsing or formatting a script performs no file, network, process, environment, clock or random access: a script's only effects are on its buffer and its return value.",
  ["programs","inputs"],"every program; every function reachable from the parsers, the evaluator, the built-ins and the writers",
  "No test can show the absence of an effect over all programs.",
  ["edlisp/**","texted.go"],[("imports and calls of the core packages","edlisp, edlisp/parser, edlisp/writer")])
p("C23","Output does not depend on map iteration order",
  "The same input produces the same output every time: no output, returned text, file content or sequence of calls depends on the iteration order of a map, on addresses, or on timing.",
  ["inputs","schedules"],"every function of the repository that ranges over a map",
  "A test that passes with one order may fail with another; each run samples one order.",
  ["tools/texted_doc.go","commands/doc.go","edlisp/documentation_registry.go"],[("sorting after collecting map keys","edlisp/documentation_registry.go, tools/texted_doc.go, commands/doc.go")])
p("C24","Every function is documented, and the documentation is callable",
  "The set of functions a script can call equals the set of documented functions; looking a function up by name, listing all functions and listing a category give exactly these entries; documented parameter counts, optionality and parameter types agree with what the function accepts, every cross reference names a documented function, and every example (in the documentation, and in the descriptions of the tools) parses and calls only existing functions with acceptable arguments.",
  ["programs"],"every registered function and every documented function, parameter, example and reference",
  "Tests compare a few entries; a mismatch in one entry needs a reader to notice.",
  ["edlisp/eval.go","edlisp/builtin_*.go","edlisp/documentation_registry.go","tools/*_description.txt"],[("registration","edlisp.NewDefaultEnvironment"),("documentation registration","init functions of builtin_*.go"),("lookups","edlisp/documentation_registry.go")])
p("C25","Formats are validated first and dispatched consistently",
  "Every entry point that takes a format (the functions of package texted, the edit and parse commands) accepts exactly shell, sexp and json, rejects any other script or output format before anything is parsed, evaluated or written, hands the script verbatim to the parser of the requested format and values to the writer of the requested output format; a format means the same language at every entry point.",
  ["configurations","inputs"],"every entry point taking a format and every format string",
  "Tests use the valid formats on single entry points.",
  ["texted.go","commands/edit.go","commands/parse.go","edlisp/parser/*.go","edlisp/writer/writer.go"],[("format switches","texted.go, commands/edit.go, commands/parse.go, edlisp/writer/writer.go")])
p("C26","Parsers never silently drop or invent script text",
  "Parsing a script either yields instructions that account for every token of it or fails: text after a complete expression, unbalanced parentheses, unterminated strings and oversized or unreadable input are errors, never silently ignored, and each non-blank command yields exactly one instruction.",
  ["inputs"],"every script text in the line-based and JSON formats",
  "Tests parse well-formed scripts plus a few malformed ones.",
  ["edlisp/parser/*.go"],[("token loops","edlisp/parser/linebased.go"),("decode loops","edlisp/parser/json.go")])
p("C27","Writers write every value or report why not",
  "Writing a program or value in any format emits every element in order or returns an error: failures of the underlying writer and unsupported values are reported, and every value kind of the language is handled by each writer.",
  ["inputs","fault_sequences"],"every value, format and failing output",
  "Tests write to in-memory buffers that never fail.",
  ["edlisp/writer/*.go","edlisp/list.go","edlisp/string.go","edlisp/number.go"],[("value switches and error returns","edlisp/writer/*.go")])
p("C28","The test runner passes a test only when its expectations were met",
  "A test file is reported as passed only if it could be read and parsed, states an expectation, and every expectation it states (a non-empty error, output or result element) was compared with the actual outcome and matched; when an error is expected there is no result to compare. The command exits non-zero if any test did not pass.",
  ["inputs","configurations"],"every test file and outcome",
  "The runner is what runs the tests; a runner that passes too much makes them all pass.",
  ["edlisp/testing/testing.go","commands/test.go"],[("verdict computation","edlisp/testing.RunTestWithTrace"),("exit status","commands.runTests")])
p("C29","Script values are immutable",
  "Evaluating a program never changes the program, its literals or values produced earlier: string, number, symbol and list values are never modified after construction.",
  ["programs","histories"],"every program and every code path that handles values",
  "A test that evaluates a program once cannot notice that a literal changed.",
  ["edlisp/*.go"],[("no stores through value pointers","edlisp, edlisp/parser, edlisp/writer, commands, tools")])
p("C30","Text bytes are never reinterpreted as characters",
  "UTF-8 text passes through parsing, evaluation and writing without being re-encoded: no single byte of text that may be part of a longer character is turned into a character or classified as one, no character is cut down to one byte, and functions that map characters (upper and lower case) are only applied to text cut between characters.",
  ["inputs"],"every text containing non-ASCII characters",
  "Tests are almost entirely ASCII.",
  ["edlisp/**","texted.go","commands/**","tools/**"],[("byte-indexed string handling","edlisp/builtin_*.go"),("character loops","edlisp/parser/linebased.go"),("case mapping","edlisp/builtin_capitalize.go, builtin_upcase.go, builtin_downcase.go")])
p("C31","Converting a script between formats preserves its meaning",
  "Parsing a script, writing it in another format and parsing that again yields the same program.",
  ["inputs"],"every script and pair of formats",
  "Round-trip tests sample a few programs.",
  ["edlisp/parser/*.go","edlisp/writer/*.go"],[("writers and parsers of each format","edlisp/writer, edlisp/parser")])
p("C32","A crash during a write never loses the file",
  "If the process or machine stops while a file is being rewritten, the file holds either its old or its new content.",
  ["crash_points"],"every crash point inside a file write",
  "Tests do not crash the process in the middle of a write.",
  ["texted.go","commands/edit.go"],[("os.WriteFile (truncate, then write)","texted.writeFile, commands/edit.go")])
p("C33","Concurrent edits of one file do not lose updates",
  "If several edits of the same file run concurrently, the final content is that of some sequential order of them.",
  ["schedules"],"every interleaving of concurrent edits of one file",
  "Tests are sequential.",
  ["texted.go","tools/edit_file.go"],[("read-execute-write sequence without a lock","texted.EditFile")])
p("C34","Expressions are evaluated in order on one buffer and every value is printed",
  "edit --expression evaluates, for each named file in order (or for standard input if none is named), every expression once, in the order given, on one buffer that starts with that text and is changed by nothing but the expressions; after each of them, unless quiet was requested, exactly its value is printed in the output format, followed by a newline. Besides the values, only a line naming the file is printed, and only if there are several files, unless verbose output was requested or an expression fails.",
  ["inputs"],"all texts, files, lists of expressions, formats and combinations of flags",
  "Only a few command lines are tried by hand; there are no tests for the command at all.",
  ["commands/edit.go"],[("loop over the expressions","commands.evaluateExpressionsOnContent"),("loop over the files","commands.runExpressions")])
p("C35","The test command runs every selected test and reports each one",
  "The test command runs every test file named on its command line, or every tests/*.xml if none is named, once each and in order, leaving out, when --include patterns are given, exactly the files whose base name matches none of them. Unless --quiet is given it prints for every test run (with --fail-only: for every test that did not pass) one line with its name that says PASS or FAIL as it did, and the summary gives the numbers of tests that passed, did not pass and were run.",
  ["inputs","configurations"],"all lists of files and patterns, all outcomes, all combinations of flags",
  "There are no tests of the command; a file that is not run cannot fail.",
  ["commands/test.go"],[("selection of the files","commands.runTests"),("report","commands.printTestResult")])
p("C36","The documentation shown is complete",
  "'texted doc NAME' and the texted_doc tool with function_name show, for exactly the function named, its whole entry: name, summary, description, category, every parameter (name, type and description; the command also whether it is optional), every example (description and input; the command also buffer and output) and every reference, in order and uncut. Without a name, the plain listing names every function of the registry, or of the category asked for, in order. An undocumented function and a category without functions are errors.",
  ["inputs","configurations"],"all documentation entries, all lists of them, all parameters and flags",
  "The tests look for a few words in the output for one function; an entry with other fields set, or more of them, is not tried.",
  ["commands/doc.go","tools/texted_doc.go"],[("entry shown by the command","commands.showFunctionDoc"),("listing","commands.listFunctions"),("entry shown by the tool","tools.TextedDocHandler")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
