#!/usr/bin/env python3
"""Writes MANIFEST.json.  Properties without an entry in CHECKS are listed as
not applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = "TLA+ specification, TLC model checking, "
CHECKS = {
 "C01": (TV + "replay of random specification histories into the real tool and trace validation of the recorded trees",
         "The specification (Regen.tla) is explored exhaustively for small constants; histories generated from it are replayed through the baron binary built from /repo and every run is judged by TLC against the specification. Assurance is bounded by the histories run; trusted: TLC, the replay driver, its projection of a Go file to declarations, gofmt."),
 "C02": (TV + "replay of specification histories into the real tool and trace validation",
         "As C01, judged on the handler methods, their message types and the order of stubs."),
 "C03": (TV + "replay of specification histories into the real tool and trace validation",
         "As C01, judged on create-once files and on files baron knows nothing about, by content."),
 "C04": (TV + "replay of specification histories into the real tool and trace validation",
         "As C01; every generated file is compared by content hash with that of a run in an empty project."),
 "C05": (TV + "replay of specification histories into the real tool with every run repeated from the same tree and on its own output",
         "As C01, with three repetitions of each run in a different directory and process."),
 "C06": (TV + "fault injection at every file-changing system call of the real tool, judged against the crash specification by trace validation",
         "RegenCrash.tla is checked exhaustively (and its truncate-in-place variant refuted); the real baron process is killed before, in the middle of and failed at each file-changing system call of runs taken from generated histories, and the surviving tree is judged by TLC. Trusted: the ptrace injector, whole-call atomicity of rename, process kill rather than power loss."),
 "C07": (TV + "definitions generated from a pushdown grammar specification read by the real parser and compared with their meaning",
         "SvcGrammar.tla generates annotated services with every layout the specification knows together with the bindings they declare; each is read by svcparse.ParseService and by svcdef.New built from /repo. Agreement of the two specifications (generator and reader) is model checked; a sample of the texts is confirmed by protoc."),
 "C08": (TV + "recorded histories of reads validated against the specification",
         "Texts (generated definitions, every cut of some, mutated ones, enumerated token soups) are read in a fresh process and in shuffled sequences in one process; TLC judges the history: never a crash or hang, same outcome as in a fresh process."),
 "C09": (TV + "exhaustively enumerated texts and simulated read/push-back sessions replayed into the real scanner and lexer",
         "Scanner.tla defines the units, tokens and line numbers of a text; all texts of up to 4 (thorough 5) symbols over the significant alphabet, and random sessions of reads and push-backs over longer ones, are compared with the real SvcScanner and SvcLexer."),
 "C10": (TV + "definitions generated from the specification run through protoc and svcdef.New and compared with their meaning",
         "SvcDef.tla gives a definition its meaning (Go names, types, oneofs, RPCs); random definitions over one to three files with awkward names are rendered, run through protoc and read several times in one process in mixed orders. SvcDefRead.tla (how files are combined) is checked exhaustively and its faulty variant refuted."),
 "C11": (TV + "exhaustively enumerated and random bindings run through protoc and svcdef.New",
         "Every combination of path variables (up to 2 of 5; thorough all), body clause, verb and position among the bindings for a request with a field of every kind, plus random definitions; HTTPBinding.Params compared with the specification's rule."),
 "C12": (TV + "definitions generated from the specification, and the definitions they are changed to, generated by the real tool and compiled",
         "GoNames.tla deals every name over a four-letter alphabet up to length 4 (thorough 5) to messages, enums, fields, oneofs, RPCs and services; HttpMatrix.tla has every type in every form and place; HttpSim.tla adds random definitions changed to larger, smaller and retyped ones, for every transport and client option. Everything generated is compiled by go build. Trusted: stand-ins for go-kit, mux and nats.go have the exported names of the originals."),
 "C13": (TV + "calls generated from the specification made with the generated client and server, wire and handler compared with it; concurrent traffic by trace validation",
         "Http.tla gives every message its layout by a binding and reads it back (checked by TLC: reading back inverts, every field in one place; escaping rules checked character by character and faulty ones refuted). Calls with every value of the tables in every type, form and place, all short texts over the significant characters, and random definitions run through real generated code over loopback HTTP. Traffic of many callers is judged by TLC against Rpc.tla."),
 "C14": (TV + "raw requests generated from the specification, right and broken in one way, sent to the generated server",
         "As C13, judged on whether and with what the handler is invoked, for requests of 20-odd kinds of breakage."),
 "C15": (TV + "every form of every list generated from the specification sent to the generated server",
         "As C13, for lists of every element type in every accepted form, all short texts included."),
 "C16": (TV + "errors, headers and context values generated from the specification sent through generated client and server",
         "Errs.tla tells what crosses beside request and response; every combination of the tables and random ones."),
 "C17": (TV + "calls and concurrent traffic generated from the specification made over real gRPC, judged call by call and by trace validation",
         "Rpc.tla (callers, servers, handlers, responses) is checked exhaustively and faulty variants refuted; the events recorded in handlers and callers are validated by TLC against it."),
 "C18": (TV + "calls and concurrent traffic generated from the specification made over a message broker, judged call by call and by trace validation",
         "As C17, over a stand-in of nats.go and its server which implements subjects, queue groups and inboxes as documented."),
 "C19": (TV + "enumerated wrapping calls and requests run against a generated service and judged against the specification",
         "Middleware.tla gives a chain of wraps its effect on every endpoint; chains of calls with lists of names, repeated, unknown and empty ones, and the order in which middleware runs are enumerated by TLC, run in a project generated from /repo and compared. Variants of the specification with a fault are refuted."),
 "C20": (TV + "enumerated configurations and histories of environment, connections, requests, faults and signals run against the generated server",
         "Server.tla (addresses from flags and environment, listeners, requests under way, stopping) is checked exhaustively and its faulty variants refuted; its histories are run against the server generated for each selection of transports."),
 "C21": (TV + "enumerated names, directories and histories run against the real tool, what it creates generated and compiled",
         "Start.tla (what --start does to a directory, over several runs and with files, directories and links in the way) and StartNames.tla (which names give which definition) are checked by TLC, faulty variants refuted; cases run in scratch directories, the started definition goes through baron and go build."),
 "C22": (TV + "enumerated and random histories of runs with every form of output option, the whole tree compared after each",
         "Layout.tla tells every path a run makes, removes and leaves; all single runs over 24 output options, 4 current directories, with and without client, refused inputs, and random histories over other projects are run by the real tool; all paths, contents and the import paths written are compared, and a sample compiled."),
}
NA = {}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, note = CHECKS[i][:2]
        checks.append({"property": i, "quick_cmd": "./check %s quick" % i, "thorough_cmd": "./check %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": CHECKS[i][2] if len(CHECKS[i]) > 2 else "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: every check builds the code as it is. Specifications are TLA+ checked with TLC. Replay a violation with ./check --replay FILE."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
