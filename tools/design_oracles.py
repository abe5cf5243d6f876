ORACLE={
'P01':("teal.Process (scanner, parser, per-line recovery, linter) and every query method of its result.",
 "No panic leaves the code, the step limit (20 million instructions per path) is not hit, a result comes back.",
 "Arbitrary bytes, so every byte combination within the length at once; per-opcode shapes cover the rest of the parser."),
'P02':("teal.Process.","An independent line splitter (LF, CR LF, CR): number of lines and listing entries, kind of the entry of each line, line of each symbol, reference and diagnostic."),
'P03':("teal.Lexer.","A re-scan of the source in the harness: tokens tile the source, words, comments, strings and line ends have the stated extents, columns are the byte offsets."),
'P04':("teal.Process, linter rules for labels.","The program is generated together with the list of definitions and operands; expected counts, diagnostics and missing references follow from it by definition. Maps are iterated in both orders."),
'P05':("teal.Process, Linter.","A direct reading of the statement over the generated lines."),
'P06':("teal.Process, Linter.","A direct reading of the statement: the stretch between label and branch, what leaves it."),
'P07':("teal.Process with the opcode table and pragma handling.","libavm: version of introduction per mode."),
'P08':("teal.Process and the per-opcode argument readers.","libavm's immediates with an independent number reader; the parsed operation is inspected for the value kept."),
'P09':("teal.Process and the literal readers.","Independent decoders for each notation in the harness, compared byte by byte with what the parsed operation holds."),
'P10':("teal.Process, the String methods of every operation, Listing.String.","Print, parse again, print again: same operations (type and immediates), same text, no diagnostics the original did not have."),
'P11':("teal.Compile / Optimize (compiler.go).","Both programs are executed by an abstract machine in the harness under the same symbolic outcomes of conditional branches; the sequences of effective instructions must agree."),
'P12':("Vm.Step and every Execute method.","libavm: values taken and left, and their types; type errors exactly when a known type differs."),
'P13':("Vm.Step, the stack, frame and scratch operations.","A list model of the stack in the harness."),
'P14':("Vm.Step, branches, frames.","An interpreter of the control flow in the harness that lists the possible successor lines; branches must be exactly the possible continuations and isolated from each other."),
'P15':("Vm.Step, Run, SetBreakpoints, Cost methods.","libavm's costs, and stepping one by one as the reference for Run."),
'P16':("SemanticTokens.Encode; the server's semanticTokens/full over whole documents.","The decoder of the protocol; lines are built from segments of known kind."),
'P17':("The language server's definition, documentHighlight, rename, prepareRename, documentSymbol.","Programs are generated with their list of label occurrences; rename edits are applied and compared with the text generated under the new name."),
'P18':("The language server, whole dialogues.","A fresh server that is sent only the last text of the document: every answer equal."),
'P19':("The language server's Run over whole input streams.","The protocol: one response per id, none for notifications, order, framing, exit code."),
'P20':("The server's codeAction and executeCommand.","The edits are applied to the text; the result must be the one the title announces, and the re-analysed text must lack the complaint."),
'P21':("The server's hover, completion, signatureHelp, inlayHint.","libavm's immediates, fields and versions."),
'P22':("The debug adapter's Run over whole input streams.","The protocol: one response per request, request_seq, command, success, increasing seq, events after."),
'P23':("The debug adapter over whole dialogues.","A simulator (teal.Vm) driven in lockstep by the harness; every view compared with its state."),
'P24':("cmd/tealsarif's main, with flags, folder walk and printing.","teal.Process on each file's text, compared as multisets; the harness knows which files are to be scanned."),
'P25':("The constructors of expr.go, teal.Compile, Program.String, and teal.Process on the printed text.","The expected instruction list is written beside each construction; libops on the re-read text; an evaluator of integer instructions for the asserting constructors."),
}
CAUGHT={}
