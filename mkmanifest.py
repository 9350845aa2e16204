#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json
AI = "abstract interpretation of the SSA form"
checks = {
 "C05": (AI + " (symbolic buffers, loop fixpoints)", "Every path of every encoder, appender and exported function is followed with a symbolic destination buffer; the result must be the untouched buffer followed by new pieces and no branch may read the buffer. Code of the standard library and of the caller is modelled, not analysed."),
 "C22": (AI + " (ranges, linear bounds, type facts)", "Every index, slice, division, assertion and make of the library is an obligation that the facts of each path must discharge. The three operations listed under not_reached in the evidence use arithmetic or slices the domain does not follow and are not decided."),
}
OR = "abstract interpretation of the SSA form, every encoder compared with the rule of its type"
ORN = "The making of encoders is run for an unknown type and every encoder made is run on an unknown value; all paths are compared with the rule. Code of the standard library and of the caller is modelled. A construct outside the domain makes the run undecided, which is printed and listed in the evidence."
for _i in ("C10", "C11", "C12", "C19", "C21", "C23"):
    checks[_i] = (OR, ORN)
TX = "A byte or path the text analysis does not understand makes the run undecided, which is printed and listed in the evidence."
checks["C02"] = (AI + ", product of the text loop with an escaping automaton", "Every appender that writes JSON strings is run abstractly, as its callers call it, as a transition system with a read and a write position; its product with the automaton of the escaping rules is explored for every byte class. utf8 decoding is modelled. " + TX)
checks["C03"] = (AI + ", language of the number predicate against the number automaton", "The paths of the predicate that json.Number texts must pass are compared, as languages, with the JSON number grammar; the encoder must call it on every path that writes the text. " + TX)
checks["C04"] = (AI + ", product of the compaction loop with an automaton", "The compaction appender is run abstractly as a transition system and its product with the automaton of compaction is explored. That the text is valid JSON is the work of encoding/json.Valid, modelled. " + TX)
checks["C16"] = (AI + ", with a record of the uses of caches; pairwise comparison of the paths that share a cache", "The makers of encoders, of lists of fields and of tests for emptiness are run for unknown arguments. For every two paths that use one cache, what one stores must be what the other makes for its own arguments whenever their keys can be equal. Every recursive call for the element type of a pointer, slice or map must come after an entry for the type was made, or be impossible for a type that is its own element; the visit of embedded structs must leave out the types of outer depths; encoders that stand in for one under construction must hand over to it and be released. Makers whose results depend on counters or the like are reported. That the Go runtime gives every type one address is assumed, and that the arguments of Sprintf can be read off its result for the formats used.")
checks["C24"] = (AI + ", per iteration of the reading and table loops, with the history of updates and errors of each path", "Each iteration of the reading loop is compared with the line formats (header, record, empty line), each update of the tables with the record it comes from, each path to a successful exit with the errors it met. strings.Split, Index, Trim and strconv.ParseFloat keep their names in the terms; a line split with other functions is undecided.")
checks["C17"] = (AI + ", comparison of memory reads with the layout of the kinds; dataflow of numbers made from pointers", "Every read through the address of a value is compared with the layout of the kind the value has on that path; the test for types stored in interface words with the rule of the runtime; linked functions and the map iterator with the source of the Go distribution that builds the repository; pieces of memory used as another type by size and pointer layout; the ways to fields by the analysis of the members. Numbers made from pointers and kept only for the length of a call are undecided, since the caller holds the value. 64-bit platforms only. That compiler and runtime lay types out as go/types computes is assumed.")
checks["C18"] = (AI + ", extracted byte expressions tabulated over calendar cycles", "Encoders of times are compared with the rule of the type; the bytes the appender writes are extracted as expressions and evaluated over the finite domains they depend on (offsets, fractions digit patterns, seconds of a day, days of a cycle, month ends). Combinations of these are not tabulated. " + TX)
checks["C01"] = (AI + ", a pushdown automaton of JSON run over the symbolic output", "The automaton is run over what every encoder appends on every successful path, loops included, for unknown types and values; nested encoders are assumed to write one value and are themselves checked. Escaped, compacted, number and time texts rest on C02, C03, C04, C18, C19 and C21. A construct outside the domain makes the run undecided, which is printed and listed in the evidence.")
checks["C09"] = (AI + ", typestate of error results", "On every path of every encoder, appender and exported function an error obtained from a nested encoder, appender or method of the caller must reach the result, and nothing may be written after it; the wrapper type and message are compared with the rule. Errors built inside the standard library are modelled.")
checks["C06"] = (AI + ", typestate and provenance of pooled objects", "On every path of every function that uses a pool, each pooled object is followed: no use after it was given back, no second giving back, none of its old content in an output, and results that share no memory with it. sync.Pool is modelled.")
PT = "points-to analysis of the SSA form with effects"
checks["C07"] = (PT + ", and " + AI, "The points-to analysis covers every function reachable from the exported ones and is insensitive to the path; where it cannot tell the value's memory from the call's own, the paths followed by the abstract interpreter decide. Methods of the caller are outside.")
checks["C08"] = (PT + ": lockset, publication and barrier rules", "Memory that two calls can reach is found by a points-to analysis; each access must be atomic, under a lock or inside a concurrent container, and what is published may only be written behind a barrier that its readers wait for. The runtime and the standard library are assumed to be safe.")
checks["C13"] = (OR + ", and loop transition systems of the map encoders", "Through every loop that walks a map, the position of the next entry is followed in the output or in the list entries are kept in; every entry must be written once, key next to value, from a list sorted by key text unless there is one entry or UnsortedMap. The iterators of the runtime and of sync.Map and package sort are modelled. " + TX)
checks["C15"] = (AI + ", case analysis of the members that are left out", "The encoder of a struct is run for a list of fields of unknown length and content; every path that leaves a field out must have a reason the rule allows, and every path that writes one must have excluded every reason. What the marks of a field mean is determined from how they are built out of the tag and the type. " + TX)
checks["C14"] = (AI + ", case analysis of the fields and comparison of the selection with the rule", "The scan of the fields of a type, the search over the levels of embedding, the order, the elimination of rivals, the completion of the ways to the fields and the reading of the members are each run for unknown types and lists; every path is compared with the rule of encoding/json for every kind of field. " + TX)
checks["C20"] = (AI + ", case analysis of the members that are left out", "The lookups in the lists of AllowList and DenyList are found on every path of the encoder of a struct, their key is compared with the name of the member and their content with the elements given to the option; the nested encoders must be given the same options. " + TX)
na = {
 "C25": "Whether a text denotes exactly the number or instant it was made from is arithmetic on run-time values inside strconv, time and the calendar algorithm; no dataflow or type argument in reach bounds it. The form of the texts is decided under C18, C19 and C21.",
 "C26": "Termination and cost on cyclic data depend on the shape of the heap at run time; the recursion through pointers has no static measure (encoding cyclic data in fact overflows the stack).",
}
TODO = "the check of this property is not built yet"
props = [json.loads(l) for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        t, n = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i, "technique": t, "level": "other", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, TODO)})
json.dump(m, open("MANIFEST.json", "w"), indent=1)
