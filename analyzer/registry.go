package main

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
)

// Check decides one property.
type Check struct {
	run       func(c *ctx, r *Report)
	Level     string
	Technique string
	Explain   string   // what the evidence counts
	Note      string   // level note
	Assume    []string // assumptions of this check
}

const aiTech = "abstract interpretation of go/ssa (relational linear domain, trace partitioning, inferred loop invariants)"

const aiNote = "All inputs: every built-in function is interpreted on an arbitrary buffer and arbitrary arguments; loops by inferred inductive invariants, no bound on texts or counts. Trusts the analyzer, its library models and go/ssa."

var argAssume = []string{
	"a function is called with non-nil values of the four value types (shown for the evaluator by C11)",
	"0, 1, 2, 3 and any number >= 4 of arguments are analysed (functions of fixed arity: up to one more than they accept, and any number >= 4)",
	"point and mark lie inside the buffer before the call (shown inductively by C02)",
}

var checks = map[string]Check{}

func init() {
	ai := func(id string, f func(c *ctx, r *Report), explain string, assume ...string) {
		checks[id] = Check{run: f, Level: "proof", Technique: aiTech, Explain: explain, Note: aiNote, Assume: append(append([]string{}, argAssume...), assume...)}
	}
	ai("C01", checkC01, "One obligation per index, slice, assertion, nil, division and conversion site of every function reachable from a built-in; an instance is one abstract path reaching it.")
	ai("C02", checkC02, "One obligation per built-in: in every final abstract state, point and mark are inside the buffer; the buffer's setters and the constructor are obligations of their own.")
	ai("C03", checkC03, "One obligation per loop: a ranking quantity that decreases on every iteration and is bounded by text sizes.")
	ai("C04", checkC04, "One obligation per built-in: the final text is prefix + (argument or nothing) + suffix of the initial text.")
	ai("C05", checkC05, "One obligation per built-in: in every final state of a successful call the observables outside its class equal the initial ones.")
	ai("C06", checkC06, "One obligation per built-in: in every final state of a failed call all observables equal the initial ones.")
	ai("C07", checkC07, "Result specifications of the searches, and replace-match interpreted in every final state of every search.")
	ai("C08", checkC08, "One obligation per movement or region function: point and mark satisfy its specification in every final state.")
	ai("C09", checkC09, "One obligation per editing function: removed range, inserted text and point satisfy its specification in every final state.")
	ai("C10", checkC10, "One obligation per query or string function: the value satisfies its specification in every final state.")
	ai("C11", checkC11, "Histories of evaluations of the program loop (with and without trace) and of one expression, matched against the program's or list's elements; loops by their inductive step.")
	ai("C12", checkC12, "Every failing outcome of the program loop: the fields, text and chain of its error.")
	ai("C13", checkC13, "Per built-in: accepted argument counts and kinds against the documented table, and no rejection of documented ones.")
	cm := func(id string, f func(c *ctx, r *Report), explain string, assume ...string) {
		checks[id] = Check{run: f, Level: "proof", Technique: aiTech, Explain: explain, Note: cmdNote, Assume: assume}
	}
	cm("C14", checkFiles, "One obligation per call site that changes files or writes output, over every abstract path of every entry point.")
	cm("C15", checkFiles, "One obligation per call site that overwrites a file, over every abstract path of the edit command.")
	cm("C16", checkFiles, "One obligation per call site that changes files, over every abstract path with dry-run set.")
	cm("C17", checkFiles, "One obligation per entry point (failures are errors, successes were delivered, files covered in order) and message.")
	cm("C18", checkFiles, "One obligation per output site of the edit and parse commands, over every abstract path.")
	cm("C19", checkC19, "One obligation per tool handler (every path answers, failures and only failures with a tool error), per function a handler may call (protocol stream) and per line of edit_file's answer.")
	cm("C20", checkC20, "One obligation per tool and parameter: declarations recovered from the registration, reads from the handler's interpretation.")
	cm("C28", checkC28, "One obligation per expectation and function that runs a test, in every final state in which the test passes; per pair of kinds in every final state in which values compare as equal; per final state of the test command.")
	cm("C34", checkC34, "Every successful path of edit --expression, per combination of boolean flags: files read once each in order; per source, evaluations matched with the expressions, the buffer's fields followed from the source's text through every evaluation, and every output matched with the value of an evaluation.")
	cm("C35", checkC35, "Every path of the test command without a failing library call, per combination of boolean flags: the tests run matched with the files named (or found) and the include patterns, iteration by iteration; counts and outcomes printed matched with the verdicts.")
	cm("C36", checkC36, "Every successful path of the doc command and of the texted_doc handler: the pieces of the output (through builders, loops and joins) are matched with the fields of the documentation entry looked up, and with the elements of its lists and of the function list.")
	cm("C27", checkC27, "One obligation per writer and kind of value, in every final state: what is written is made of the whole value, every failure is reported, only what the format cannot say is refused; per element of a program; per printed form.")
	checks["C24"] = Check{run: checkC24, Level: "proof", Technique: "partial evaluation of the package initialisation (documentation and function tables), abstract interpretation of every function on every argument count and kind, syntax check of the examples",
		Explain: "One obligation per function (documented), entry (callable, parameters, cross references) and example (parses, calls functions with arguments they accept).", Note: "Every entry and every example. Trusts the analyzer and its own reader of the example language.", Assume: argAssume[:2]}
	cm("C26", checkC26, "One obligation per function that cuts text, reads an expression or reads a program.")
	cm("C25", checkFiles, "One obligation per parser, writer, evaluation and output site: the format is known to be valid there and matches.")
}

func init() {
	fl := func(id string, f func(c *ctx, r *Report), tech, explain string, assume ...string) {
		checks[id] = Check{run: f, Level: "proof", Technique: tech, Explain: explain, Note: flowNote, Assume: assume}
	}
	fl("C21", checkC21, "lock-set analysis of package variables, value-flow analysis of environments and handlers, abstract interpretation of every entry point for the provenance of buffers",
		"One obligation per package variable, write to a function table, handler of the tool server and evaluation site.")
	fl("C22", checkC22, "call-graph effect analysis into the source of the standard library",
		"One obligation per use of a library function or variable by a function of the language, its parsers and writers.")
	fl("C23", checkC23, "order-dependence analysis of map iterations on SSA (commuting updates, sorted before use), abstract interpretation of the comparisons",
		"One obligation per iteration over a map, comparison, entry of a documentation map and formatted value.")
	fl("C30", checkC30, "value-flow analysis of bytes and characters on SSA with a path-sensitive guard analysis; abstract interpretation of every function for the cuts of mapped texts",
		"One obligation per function, and per place where a number becomes, or is tested as, a character of text.", "the texts are valid UTF-8")
	fl("C29", checkC29, "interprocedural value-flow and freshness analysis",
		"One obligation per write (store, append, copy, sorting function) that could reach a script value.")
}

const flowNote = "Flow-insensitive over all functions of the module and all calls, including calls through interfaces and function values. Trusts go/ssa and, for library functions, their source or the analyzer's list of functions that write to their arguments; reflection and unsafe are not modelled."

const cmdNote = "All flag values, file lists and contents: every combination of boolean flags is interpreted with arbitrary other flags and arguments; any operation may fail. Parsers, evaluator and writers are opaque. Trusts the analyzer, its library models and go/ssa."

var notApplicable = []map[string]string{
	{"property": "C31", "reason": "equality of programs across two parsers and three writers over unboundedly nested values needs induction over recursive data that no static analysis in reach performs; the parts that can be decided from the source are C26 (nothing is lost in parsing) and C27 (writers are total)"},
	{"property": "C32", "reason": "quantifies over crash points inside one os.WriteFile call (truncate, then write): the intermediate states are the operating system's, not constructs of this source"},
	{"property": "C33", "reason": "quantifies over interleavings of whole edits in several processes as well as goroutines; the source has no lock whose discipline could be checked, and a lock in one process would not decide it"},
}

func manifestMain() {
	var ids []string
	for id := range checks {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	var list []map[string]interface{}
	for _, id := range ids {
		c := checks[id]
		list = append(list, map[string]interface{}{
			"property": id, "quick_cmd": "./check.sh " + id + " quick", "thorough_cmd": "./check.sh " + id + " thorough",
			"technique": c.Technique, "level": c.Level, "level_note": c.Note,
		})
	}
	have := map[string]bool{}
	for _, n := range notApplicable {
		have[n["property"]] = true
	}
	data, _ := os.ReadFile("properties.jsonl")
	for _, line := range strings.Split(string(data), "\n") {
		var p struct{ ID string }
		if json.Unmarshal([]byte(line), &p) == nil && p.ID != "" && !have[p.ID] {
			if _, ok := checks[p.ID]; !ok {
				notApplicable = append(notApplicable, map[string]string{"property": p.ID, "reason": "no check built yet"})
			}
		}
	}
	m := map[string]interface{}{"version": 1, "setup_cmd": "./build.sh", "checks": list, "not_applicable": notApplicable}
	e := json.NewEncoder(os.Stdout)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(m)
}
