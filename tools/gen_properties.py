#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": m, "where": ", ".join(files)} for m in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Analysis is total on any source text",
 "Analysing any source text terminates without a crash and returns a result. Every editor query on that result (argument lookup, allowed values, documentation, inlay hints, symbol lookup) returns without a crash for every position inside or after the document.",
 ["inputs"], "every source text (any bytes) and every non-negative position or range",
 "The repository's tests analyse a few dozen fixed files; a crash needs one particular combination of opcode, immediates, line ends and position.",
 ["process.go", "lexer.go", "parser.go", "linter.go"],
 ["analysis entry point and per-line recovery in process.go", "query methods of the analysis result"],
 ["return value of the analysis and of its queries; a panic reaching the caller"])

prop("P02", "Reported line numbers are the true source lines",
 "The result of an analysis has exactly one line entry and one listing entry for each source line, in order, whether or not the line parses (blanks after the last line end need no entry). The label definitions, references and diagnostics it reports therefore carry the line number on which their text stands in the source.",
 ["inputs"], "every source text, with LF, CR LF or CR line ends, comments, blank lines, failing and succeeding lines in any order",
 "Tests compare a handful of one- or two-line inputs and never check alignment after a line that fails to parse.",
 ["process.go", "lexer.go", "linter.go"],
 ["line splitting and listing emission in process.go", "mapping of lint results back to lines"],
 ["lines, listing, symbols, references and diagnostics of the result"])

prop("P03", "Tokens reproduce the source text",
 "Scanning any source yields tokens that stand in source order without overlapping, each at the line and byte columns where its text stands, so that everything outside tokens is blanks. Words end at blanks or line ends, a comment runs from // to the end of its line, a quoted string runs to its closing unescaped quote or, unterminated and reported, to the end of its line, and every line end is one token. In the text of a string token an escaped quote stands for the quote, and the word after b64 or base64 is never a comment.",
 ["inputs"], "every source text",
 "The lexer tests list token types for a few fixed strings and check neither positions nor all byte combinations.",
 ["lexer.go"], ["the scanner and its position counters"], ["tokens and scan errors"])

prop("P04", "Label definitions, references and label diagnostics are exact",
 "The analysis reports exactly the labels the source defines and exactly the label operands it uses, with correct reference counts and the list of operands that no definition matches. It raises a duplicate-label error on each definition of a name defined more than once, an unused-label warning on each definition nobody references, and a missing-label error on each use of an undefined name, and none otherwise.",
 ["programs"], "every program: any arrangement of label definitions and branching instructions",
 "Tests contain a handful of label arrangements.",
 ["process.go", "linter.go", "symbols.go"],
 ["symbol and reference collection", "rules LINT0001, LINT0002, LINT0005 (missing label)"],
 ["symbols, references, counts, diagnostics of the result"])

prop("P05", "Unreachable-code and redundant-branch warnings are exact",
 "An instruction is reported unreachable exactly when it follows an unconditional branch, a return or an err with no referenced label in between. An unconditional branch is reported (and offered for removal) exactly when the next thing after it, ignoring lines without instructions, is its own target label; labels are offered for removal exactly when they are unreferenced.",
 ["programs"], "every program",
 "Two fixed programs are tested.",
 ["linter.go"], ["rules LINT0003 and LINT0004 and the redundant-line list"],
 ["diagnostics and redundant lines of the result"])

prop("P06", "Infinite-loop and pragma-placement errors are exact",
 "A backward unconditional branch is reported as an infinite loop exactly when nothing between its target label and itself can leave that stretch of code: no terminating instruction and no label operand that leads outside it. A version pragma is reported as misplaced exactly when an instruction or another version pragma precedes it.",
 ["programs"], "every program",
 "No test exercises these rules over arrangements of labels, conditional branches and terminators.",
 ["linter.go"], ["rules LINT0005 (infinite loop) and LINT0006"], ["diagnostics of the result"])

prop("P07", "Opcode availability follows the language version and mode",
 "For every opcode, every declared version and both execution modes, the analysis reports that the opcode needs a newer version exactly when the AVM introduced it later than the declared version, and that it is unavailable in the mode exactly when the AVM forbids it there. The version and mode in force are those declared by the source from the declaration on (version 1 and application mode by default), and the reported required version is the AVM's (version 8 of the AVM, with the pairing opcodes as of version 9).",
 ["inputs", "configurations"], "every opcode, every declared version (64-bit), both modes",
 "Tests never sweep opcodes against versions and modes.",
 ["process.go"], ["opcode table, version and mode checks, pragma handling"],
 ["diagnostics LINT0007 / LINT0008, required versions, version, mode"])

prop("P08", "Immediate arguments are accepted exactly when valid",
 "A line with a known opcode is accepted exactly when it carries the number of immediates the opcode takes and each is a literal of the right kind within range (8-bit unsigned, 8-bit signed or 64-bit integer, named field, label, quoted signature, byte literal), and the resulting instruction holds exactly the values written. A named field is accepted exactly when it exists in that field group, is available at the declared version, and is usable in that position; a field given by number is accepted exactly when the number denotes such a field.",
 ["inputs"], "every opcode, every immediate text within the bounds, every declared version",
 "Tests parse a few dozen fixed lines.",
 ["process.go", "parser.go", "go_algorand.go"],
 ["immediate readers and per-opcode parsers", "field tables"],
 ["diagnostics and listing of the result"])

prop("P09", "Byte and integer literals denote the right value",
 "Every byte literal form (hexadecimal, base64, base32 with or without padding, in the spaced and parenthesised notations, and quoted strings with escapes) is decoded to exactly the bytes it denotes, and malformed literals are rejected. Integer literals in every radix and the named transaction-type and completion constants denote their exact 64-bit value, and out-of-range ones are rejected. Underscores in integers, impossible base32 lengths and text after padding or a closing parenthesis are not covered.",
 ["inputs"], "every literal text within the bounds",
 "Tests check a few literals only.",
 ["process.go", "go_algorand.go", "lexer.go"],
 ["byte literal parser, string escape decoder, base32 decoder, integer reader"],
 ["listing and diagnostics of the result"])

prop("P10", "A printed program reads back as the same program",
 "Printing the listing of an accepted program and analysing the printed text gives a listing equal to the original, line by line, with no errors (comments are not part of a listing). It holds for every opcode and every immediate value.",
 ["programs", "inputs"], "every accepted instruction with any immediate values, and sequences of them",
 "Nothing in the test suite prints a program and reads it back.",
 ["expr.go", "compiler.go", "process.go"],
 ["textual form of each instruction", "program/listing printing"],
 ["printed text and re-analysis"])

prop("P11", "Optimising a program preserves its behaviour",
 "The optimised form of a program executes, from the start and under every outcome of its conditional branches, exactly the same sequence of effective instructions as the original. Optimising introduces no missing or duplicate labels and removes only what cannot change that sequence.",
 ["programs"], "every program and every outcome of its conditional branches",
 "No test runs the optimiser.",
 ["compiler.go"], ["the optimiser passes"], ["optimised listing"])

prop("P12", "The simulator applies every opcode's stack effect",
 "Stepping an opcode on any stack whose top entries have acceptable types pops exactly the values the AVM pops and pushes exactly as many as it pushes, with the result types of the AVM, leaving deeper entries untouched. On a stack that is too shallow or has a wrong type the step reports an error.",
 ["inputs", "programs"], "every opcode and every stack content (types symbolic) within the bounds",
 "One VM test runs one short program.",
 ["expr.go", "vm.go"], ["per-opcode execution and the stack primitives"],
 ["stack and error of the simulator"])

prop("P13", "Stack-rearranging and scratch opcodes move exactly the right values",
 "The opcodes that duplicate, dig, bury, cover, uncover, swap, select, pop or address the frame move exactly the stack entries the AVM moves, for every depth operand, and fail when the operand reaches outside the stack. Loading a scratch slot whose index is a known constant yields what the last store put there, possibly under the general type.",
 ["inputs", "programs"], "every depth operand and stack content within the bounds",
 "No test covers operand/stack combinations.",
 ["expr.go", "vm.go"], ["stack-manipulating opcodes, frame opcodes, scratch opcodes"],
 ["stack and scratch of the simulator"])

prop("P14", "The simulator follows exactly the program's control flow",
 "From any instruction the simulator continues at exactly the successors the AVM allows: the target of an unconditional branch, both outcomes of conditional branches, every case of a multi-way branch, the callee of a subroutine call and the instruction after the call on return; exit instructions end the branch. Branches explored separately never disturb one another's stack, call frames or trace.",
 ["programs", "histories"], "every program of branches, calls, returns and exits, and every order in which branches are stepped",
 "One VM test runs one straight-line program.",
 ["vm.go", "expr.go"], ["branching, calling, forking, stepping and switching in the simulator"],
 ["position, call stack, trace of each branch"])

prop("P15", "Simulator budget and breakpoints are honoured",
 "A run starts with a budget of 700. A branch executes an instruction only if its remaining budget covers the cost, and its budget falls by exactly that cost, so every run terminates. Running stops at, and only at, a breakpoint that was set on a line holding an instruction, the end of the program, or an error.",
 ["programs", "histories"], "every program, breakpoint set and remaining budget within the bounds",
 "No test sets breakpoints or exhausts the budget.",
 ["vm.go"], ["budget accounting, breakpoint bookkeeping, run loop"],
 ["budget, triggered breakpoints, position"])

prop("P16", "Semantic tokens encode the source's tokens exactly",
 "Decoding the relative encoding of semantic tokens gives back the same tokens in document order, whatever order they were collected in. Tokens the server reports for a document do not overlap, lie on their source text and carry the type of what stands there.",
 ["inputs"], "every list of tokens within the bounds; every source text within the bounds",
 "One test checks the length of one encoding.",
 ["semantics.go", "process.go", "lsp/lsp.go"], ["relative encoding", "collection of numbers, strings, keywords, opcodes"],
 ["encoded token stream"])

prop("P17", "Go-to-definition, highlight, symbols and rename cover every occurrence",
 "For a position on a label operand the language server's definition answer is the definition of that label; for a position on a label definition or label operand its highlights are exactly all occurrences of that label, and its rename edits replace exactly those occurrences' names, so that the renamed document is the original with that label renamed everywhere. For any other position these requests touch nothing (right behind the colon of a definition is left open).",
 ["inputs", "programs"], "every program and cursor position within the bounds",
 "No test drives these requests.",
 ["lsp/lsp.go", "process.go", "range.go"], ["definition, highlight, rename and symbol handlers"],
 ["responses and edits sent by the server"])

prop("P18", "The language server answers for the latest text of each document",
 "After any sequence of opening, changing, saving and closing documents, every answer and every diagnostic list for a document is the one computed from the last text the client sent for that document; a closed document has no diagnostics. Documents never influence one another. Formatting, which a third-party library does, is left out.",
 ["histories"], "every sequence of open/change/close notifications and requests over several documents within the bounds",
 "No test drives the server.",
 ["lsp/lsp.go"], ["document table and result cache"], ["pulled diagnostics and responses"])

prop("P19", "Every request is answered exactly once and no message kills the server",
 "The language server answers every request with exactly one response carrying that request's identifier and never answers a notification (a message without identifier), in order, each as a correctly framed message. An unknown method, an unknown document, missing or malformed parameters produce an error or empty answer rather than silence or a crash, and the server goes on serving until exit or until its input ends or fails. Its exit code is 0 exactly when shutdown preceded exit.",
 ["histories", "inputs"], "every sequence of messages within the bounds",
 "No test drives the server.",
 ["lsp/lsp.go"], ["message loop, request dispatch, framing"], ["bytes written by the server"])

prop("P20", "Applying a quick fix yields the document it promises",
 "Each code action and lens command the server offers, when its edits are applied, yields a document in which exactly the announced repair was made: the redundant line is gone, the missing label is defined, the declared version is raised to the required one, or the literal is replaced by one denoting the same bytes. The command that removes a label removes exactly its definitions. All other text is untouched.",
 ["inputs", "programs"], "every program within the bounds that triggers an action",
 "No test drives code actions.",
 ["lsp/lsp.go"], ["code action handler"], ["edits sent by the server applied to the text"])

prop("P21", "Hover, completion, signature help and inlay hints agree with the analysis",
 "For every position, the documentation, parameter and value lists and inlay hints offered are those of the opcode and argument at that position: the active argument is the one under the cursor or else the next one, offered values are available at the declared version, and a hint shows the name or text that the literal denotes. Completed labels carry their own comment and signature, completed snippets are correct programs, and features switched off when the server is initialised are neither announced nor served.",
 ["inputs"], "every line within the bounds and every cursor position",
 "No test drives these queries beyond one symbol lookup.",
 ["process.go", "lsp/lsp.go"], ["argument lookup, value lists, documentation lookup, inlay hints"],
 ["query results"])

prop("P22", "The debug adapter answers every request once, with ordered sequence numbers",
 "The debug adapter answers every request with exactly one response that names the request's sequence number and command, numbers its own messages increasingly, and survives any request in any order, until its input ends. Requests that cannot be served (unknown command, unreadable program, stepping or pausing with no program) are answered with a failure.",
 ["histories", "inputs"], "every sequence of requests within the bounds",
 "No test drives the adapter.",
 ["dbg/dbg.go"], ["message loop and request dispatch"], ["bytes written by the adapter"])

prop("P23", "The debug adapter shows the simulator's true state",
 "After any sequence of launch, breakpoint, step, continue and pause requests, the threads, stack frames, scopes and variables reported are those of the simulator after the same steps: current line, call frames, stack contents and scratch slots. Paged variable requests return exactly the requested slice.",
 ["histories", "programs"], "every sequence of debugger requests and paging window within the bounds",
 "No test drives the adapter.",
 ["dbg/dbg.go", "vm.go"], ["state views of the adapter"], ["responses"])

prop("P24", "The scanner's report lists exactly the diagnostics of the scanned files",
 "Scanning a file, or a folder, prints one SARIF report whose artifacts are exactly the scanned files (for a folder all .teal files at or below it) and whose results are exactly their diagnostics: each once, with its rule (declared once in the report), its level (error, warning or note as its severity), its message, its one-based line and column, and a reference to its own file's artifact. The order of the results of one file is left open.",
 ["inputs"], "every file content and every folder of files within the bounds",
 "No test runs the scanner.",
 ["cmd/tealsarif/main.go", "internal/sarif"], ["report construction, folder walk"],
 ["the printed report"])

prop("P25", "A program built with the Go constructors is the program they name",
 "A program composed in Go from the exported instructions, constructors, blocks, functions and slices compiles into exactly their instructions, in order (a labelled block starts with its label, a function with its label and prototype), each with exactly the immediates it was given. Its printed text, analysed, is that program: string constants denote the same bytes, labels keep their names. The asserting constructors pass exactly for the values they announce. Compositions given the same parts do not disturb one another.",
 ["inputs", "programs"], "every composition and every immediate value within the bounds",
 "No test builds a program with the constructors.",
 ["expr.go", "compiler.go"], ["constructors, compilation of nested expressions, printing"],
 ["compiled listing and printed text"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
