#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = ("Trusts the analyser (tool/), go/ssa's translation, the models of the standard-library calls in tool/model.go, and that "
      "the caller's writers, walkers, resolvers and options obey Go's memory model.")
ENG = "abstract interpretation of the SSA form"
GR = ("Recursion is handled by function contracts that are themselves checked. " + AI)
CHECKS = {
 "C01": (ENG + " of scanner and parser, with function contracts for recursion",
   "All inputs and modes: the scanner over symbolic source, then ParseFile and ParseExpr over every sequence of tokens, to a fixpoint; each index, slice, nil dereference, map write, type assertion and panic is an obligation. The token sequences over-approximate what the scanner returns. " + AI),
 "C02": (ENG + " with a progress monitor per loop and recursive call",
   "Each scanner call must consume a byte or return EOF (and keep returning it); each parser loop iteration and recursive call must have consumed a token, or leave, and all must leave at EOF. " + AI),
 "C04": (ENG + " of every entry point, per node type, on symbolic trees",
   "Every index, slice, nil dereference, map write, type assertion and panic in Walk, Resolve, the built-in resolvers, default and plain-text rendering, author extraction and the position methods, on one node with symbolic content, recursion and callbacks abstracted by induction. Assumes of parsed trees what C18 to C21 and C23 decide: fields are set except Doc, Key and Comment, comment groups are not empty. " + AI),
 "C32": (ENG + " with an error-list monitor",
   "Every error recorded in any state, for every value of the mode; the list must be sorted, bounded unless AllErrors is set, one per line, and returned by every exit. " + AI),
 "C33": (ENG + " with function contracts (decreasing measure per recursive call), plus call-graph and data-flow rules",
   "Every recursive call must be made under a bound that the recursion counts towards and restores; the scanner must not recurse; no parser loop may nest nodes. " + AI),
 "C03": (ENG + " of scanner and parser, run in step with a specification of the grammar (typestate of tokens, nodes and recorded errors)",
   "All token sequences, to a fixpoint: wherever the grammar does not allow the token, or a placeholder node is made, an error must be recorded before the function that saw it is left, and every error recorded must be returned. " + GR),
 "C18": (ENG + " of scanner and parser with position terms",
   "Scanner: every token's offset is compared as a term with the first character consumed, and every newline with the line table. Parser: every node stored is compared with the position of the token it was built from. " + GR),
 "C19": (ENG + " of the parser, run in step with a specification of string contents",
   "Every token inside strings must become one node of its type, with its text as a term, appended to the enclosing piece list in order. " + GR),
 "C20": (ENG + " of the parser, run in step with a specification of entries",
   "Type, key, extra keys and tags of each entry are compared as terms with the tokens they come from, on every path. " + GR),
 "C21": (ENG + " of the parser, run in step with a specification of declarations",
   "Command to declaration type, order, opening and closing delimiters, concatenation operands. " + GR),
 "C23": (ENG + " of the parser's token step with comments as further tokens",
   "The step that fetches the next token is interpreted over any sequence of tokens and comments; comments must be skipped, grouped and recorded once. " + GR),
 "C05": (ENG + " with an order monitor (typestate)",
   "Sound over all trees: one run per node type with symbolic content, every walker answer at every call, induction over children. Child fields come from the type declarations. " + AI),
 "C06": (ENG + ", per node type, plus table enumeration",
   "Decides the constant kind of each type, pairwise distinctness, a non-nil default renderer per kind constant, and that no renderer's type assertion or table index can fail for the types of its kind. " + AI),
 "C07": (ENG + " with an emission monitor",
   "Per node type with symbolic content: the concatenation of everything written equals the specified text on every path. Container kinds and the kinds that print nothing today (numbers, unparsed text) are specified as printing nothing. " + AI),
 "C08": (ENG + " with an emission monitor",
   "Per expression type with symbolic content and children abstracted by induction. " + AI),
 "C27": (ENG + " of the author extraction, with list positions and builder contents as ranges",
   "Any list of pieces. Three steps, each with the functions it calls replaced by what is decided about them: the split at 'and' (which ranges become names, in what order, what fails), the search for commas and the trimming, and the assignment of pieces to the parts of a name for no, one and more commas. Which word begins the von part (a question of letter case) is not decided, only that every piece goes to one part, in order, and where the parts may begin and end. " + AI),
 "C28": (ENG + " of the renderer on every accent/letter pair of the table, plus enumeration of the accent and letter tables",
   "Enumerates every table entry in the source and interprets the renderer with the accent and the letter fixed; the expected composed character comes from Unicode's canonical composition, computed in the analyser. " + AI),
 "C29": (ENG + ", per kind and token constant",
   "Every constant of the kind and token types gets its own run; values outside the tables are one symbolic run. " + AI),
 "C25": (ENG + " of New, each option and Parse, plus enumeration of the parser flags",
   "New over any list of options (each must be applied once, in order, to the value returned, starting from the defaults), each option on a Biber in any state (which locations it writes and with what), Parse over both outcomes of the parser, and the scanner mode for every set of declared parser flags. What the other flags do is decided by C12 (Trace) and C32 (AllErrors). " + AI),
 "C24": (ENG + " of Resolve, per node type, with order monitors for resolvers, declarations and tags",
   "Any resolver list (each resolver may fail), any node, any list of declarations, tags and files: the entries are compared as terms with the declarations they come from. " + AI),
 "C26": (ENG + " of each resolver and of the function it passes to ast.Walk, per node type, with a store monitor",
   "The walker is run on every node type with symbolic content, entering and leaving; every store into the tree is checked, every piece and tag must be handled, and no walk status may skip a part of the tree that can hold one. ast.Walk itself is C05, rendering C08, author extraction C27. " + AI),
 "C31": (ENG + " of the position methods, per node type",
   "Every Pos and End on a node with symbolic content, against the extent its type documents (text length with delimiters, closer, or last child); positions of children are abstracted. That the fields themselves are ordered is C18's part. " + AI),
 "C34": (ENG + " with an effect monitor on map stores",
   "Decides which entries a registration call writes for every argument. " + AI),
 "C09": (ENG + " with fault outcomes for every write",
   "At every write the failing outcome is explored: no later write or visit happens and the returned error wraps the writer's (%w or the error itself). " + AI),
 "C10": (ENG + " with an error-propagation typestate",
   "Every function of the module that can receive an error is interpreted with each failing call forked into success and failure; the error must be returned, wrapped, recorded in the error list or handed on. " + AI),
 "C11": ("inclusion-based points-to and effect analysis",
   "Flow- and context-insensitive (so it over-approximates): no store reachable from the entry points may hit an object reachable from a package variable or from the caller's Biber, resolvers, renderers or options. Custom resolvers and renderers are the caller's. " + AI),
 "C12": ("effect analysis by allow-list over the call sites, dominance of the Trace flag, abstract interpretation of the file read",
   "Every call that leaves the module must be on the list of effect-free standard functions or be one of the documented effects under its guard. " + AI),
 "C13": ("dataflow lint for order- and address-dependent values (map ranges, map key lists, random sources, address formatting)",
   "Decides absence of the sources of nondeterminism in the module's code; standard-library calls are trusted by name. " + AI),
 "C14": ("inclusion-based points-to and effect analysis",
   "The source slice, buffer and anything aliasing it are objects of the points-to graph; no store may hit them and nothing returned or kept may reach them. " + AI),
 "C30": (ENG + " per source kind",
   "One run of ParseFile per kind of source with symbolic content; the term handed to the scanner is compared with the bytes of that source. " + AI),
 "C15": (ENG + ", run in step with a specification automaton of the token language",
   "All characters, scanner states and modes: Init and an arbitrary sequence of Scan calls are interpreted to a fixpoint over symbolic source; every consumed character is fed to the automaton, which fixes token kind, extent and error. " + AI),
 "C16": (ENG + ", run in step with a specification automaton of string tokens",
   "As C15, in string-tokenising mode, with the nesting depth and the opening delimiter as specification state. " + AI),
 "C17": (ENG + ", run in step with a specification automaton",
   "Literals are compared as terms with the source slice the automaton says the token covers; every character read must be the next one of the source. " + AI),
 "C22": (ENG + " with a must-initialised typestate per scanner field",
   "Every field read in Init and in any sequence of Scan calls must have been stored since Init began, on every path; the initial specification state must follow. " + AI),
}
ALL = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {
 "C35": "Conformance with the reference BibTeX program quantifies over the meaning of whole inputs and needs an executable oracle (bibtex itself, not installed); no structural rule on this code's source decides it, and abbreviation expansion is not implemented here.",
}
PENDING = "not built yet"
m = {"version": 1, "setup_cmd": "./run.sh setup",
     "checks": [{"property": i, "quick_cmd": f"./run.sh {i} quick", "thorough_cmd": f"./run.sh {i} thorough",
                 "technique": CHECKS[i][0], "level": "other", "level_note": CHECKS[i][1]} for i in ALL if i in CHECKS],
     "not_applicable": [{"property": i, "reason": NA.get(i, PENDING)} for i in ALL if i not in CHECKS],
     "notes": "All checks are static: tool/ is an abstract interpreter and a set of dataflow rules over /repo's type-checked SSA form; nothing of /repo is executed. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
