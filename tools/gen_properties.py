#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays diffable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "Scanning and parsing never panic",
 "For every byte string and every scanner or parser mode, scanning it to the end, ParseFile, ParseExpr, ParsePackage and Biber.Parse return normally: no index or slice out of range, nil dereference, nil-map write, failed type assertion or internal panic reaches the caller. Only the documented argument errors (a nil file set, a scanner file whose size differs from the source) may panic.",
 ["inputs", "configurations"], "all byte strings, all mode flag combinations, all source kinds",
 "The tests parse about 60 short inputs and one large valid file; truncated and malformed inputs (where slices run off the end) are not sampled.",
 ["scanner/scanner.go", "parser/parser.go", "parser/interface.go", "bibtex.go"],
 [("bounds of every index and slice of the source and of token literals", "scanner/scanner.go, parser/parser.go"), ("recover of the internal bailout in the entry points", "parser/interface.go")],
 ["parser.ParseFile", "parser.ParseExpr", "parser.ParsePackage", "bibtex.Biber.Parse", "scanner.Scanner.Scan"])

prop("C02", "Scanning and parsing always terminate",
 "Each Scan call either consumes at least one byte of input or reports end of file, and once it has reported end of file it keeps doing so, inside an unterminated string as well. Every scanner and parser loop and recursion therefore finishes on every input: each iteration consumes input or leaves, and all of them leave at end of file.",
 ["inputs", "configurations"], "all byte strings, all modes",
 "A hang needs an input that ends in a particular place (inside a quoted string, a url macro, a brace group); the tests contain no unterminated string in string-parsing mode.",
 ["scanner/scanner.go", "parser/parser.go", "parser/interface.go"],
 [("Scan always makes progress", "scanner/scanner.go Scan, scanInString"), ("end-of-file exits of the parser loops", "parser/parser.go"), ("resynchronisation counter", "parser/parser.go advance")],
 ["parser.ParseFile", "parser.ParseExpr", "scanner.Scanner.Scan"])

prop("C03", "Malformed input is never accepted silently",
 "Whenever the scanner yields an illegal token, or the parser stores a Bad* placeholder node, skips tokens to resynchronise, or meets a required delimiter, assignment or value that is missing (a comma between tags is optional), at least one error has been recorded and the parse returns a non-nil error. Biber.Parse and ParseExpr return either a result or an error, never both and never neither, and ParseFile returns a usable file together with the error.",
 ["inputs", "configurations"], "all inputs and modes, all error paths",
 "The four negative tests check that some error is returned for four inputs; every other recovery path is unsampled.",
 ["scanner/scanner.go", "parser/parser.go", "parser/interface.go", "bibtex.go"],
 [("scanner error handler feeding the parser's error list", "parser/parser.go init"), ("errorExpected/expect/advance", "parser/parser.go"), ("errors.Err() at the entry points", "parser/interface.go")],
 ["parser.ParseFile", "parser.ParseExpr", "bibtex.Biber.Parse"])

prop("C04", "Resolving, rendering and author extraction never panic on parsed trees",
 "For every tree returned by a parse without error, Biber.Resolve with any of the built-in resolvers, Biber.Render with the default renderers, the plain-text renderer, author extraction, ast.Walk and the node position methods return normally (with an error if they cannot handle the content) and never panic.",
 ["inputs", "configurations"], "all trees the parser can produce, all built-in resolvers in any order",
 "The tests resolve eight well-formed entries; an entry without a key, an accent with no table entry, or a macro in an author field is never sampled.",
 ["bibtex.go", "resolver.go", "author.go", "render/render.go", "render/accent.go", "ast/ast.go", "ast/walk.go"],
 [("exhaustive type switches over the expression nodes", "author.go parseDefault, render/render.go Render"), ("type assertions of the default renderers", "render/render.go"), ("optional node fields", "ast/ast.go")],
 ["bibtex.Biber.Resolve", "bibtex.Biber.Render", "bibtex.ExtractAuthors"])

prop("C05", "Walk visits every syntax child exactly once, in order",
 "Walk calls the walker on a node with entering=true, then visits every child node held in the node's content fields exactly once in source (field and index) order (comments, cite keys and the unresolved list of a file are not content), then calls the walker with entering=false. If the walker asks to skip children none is visited but the leaving call still happens; a stop status or an error ends the traversal at once and the error is returned unchanged.",
 ["inputs", "programs"], "all trees, all walkers",
 "The tests walk three small hand-built trees covering 4 of the 20 node types.",
 ["ast/walk.go", "ast/ast.go"],
 [("per-type recursion", "ast/walk.go walkHelper")],
 ["ast.Walk"])

prop("C06", "Every node kind is dispatched to a matching default renderer",
 "The default renderer table has a non-nil renderer at the kind of every node type, each type reports the kind it is registered under (no two types that need different renderers share a kind), and the default renderer of a kind accepts every node type that reports this kind. Rendering a node whose kind has no renderer, or whose renderer fails, returns an error naming the kind rather than output.",
 ["inputs", "programs"], "all node types, both visiting directions",
 "No test calls Biber.Render.",
 ["render/render.go", "ast/ast.go", "bibtex.go"],
 [("Defaults table indexed by kind", "render/render.go Defaults"), ("Kind methods", "ast/ast.go"), ("dispatch", "bibtex.go Render")],
 ["bibtex.Biber.Render", "render.Defaults"])

prop("C07", "Default rendering writes each leaf once and balances delimiters",
 "With the default renderers, rendering a leaf text node writes exactly its source text once (a comma, hyphen, escaped character with its backslash, math between single dollar signs, identifier name, text and white space), container nodes write nothing of their own, and a parsed string writes its opening delimiter when entered and the matching closing delimiter when left. Bad expression and statement nodes produce an error instead of output.",
 ["inputs"], "all node types and values, both visiting directions",
 "No test calls the default renderers.",
 ["render/render.go"],
 [("render* functions", "render/render.go")],
 ["render.Defaults", "bibtex.Biber.Render"])

prop("C08", "Plain-text rendering emits every piece once, in order",
 "The plain-text renderer writes, for each expression type, exactly its text: nested strings and macro arguments in order without their braces, quotes or macro name, the two operands of a concatenation in order with a '#' between them, escaped characters without the backslash, math with one dollar sign on each side, white space and ties as one space, and accents as the accented letter. An unsupported node or accent gives an error, never silently missing text.",
 ["inputs"], "all expression trees",
 "Tests render three small trees and eight entries; macros, concatenation, math and hyphen paths are mostly unsampled.",
 ["render/render.go", "render/accent.go"],
 [("type switch of TextRenderer.Render", "render/render.go")],
 ["render.TextRenderer.Render"])

prop("C09", "A failing writer is always reported by rendering",
 "Whenever a write to the caller's writer fails during default rendering or plain-text rendering, the render call stops and returns an error that wraps the writer's error. No write result is ignored.",
 ["inputs", "fault_sequences"], "all trees, a write failure at any point",
 "No test renders into a failing writer.",
 ["render/render.go", "bibtex.go", "resolver.go"],
 [("error checks after each Write", "render/render.go")],
 ["render.TextRenderer.Render", "bibtex.Biber.Render"])

prop("C10", "Failures of sources, resolvers and walkers propagate to the caller",
 "An error from reading the source, from a resolver, from author extraction, from a walker or from a nested render reaches the caller of Parse, Resolve, Render or Walk as a non-nil error that wraps it, and no result derived from the failed step is returned as success. No error value produced inside the module is dropped.",
 ["inputs", "fault_sequences", "programs"], "every error return at every call site on every path",
 "Only success paths are asserted; no test injects a failing reader, resolver, walker or renderer.",
 ["bibtex.go", "resolver.go", "author.go", "parser/interface.go", "ast/walk.go", "ast/transform.go"],
 [("if err != nil return wrapped", "all listed files")],
 ["bibtex.Biber.Resolve", "bibtex.Biber.Parse", "bibtex.Biber.Render", "parser.ParseFile"])

prop("C11", "Independent operations share no mutable state",
 "No parse, resolve, render or construction call writes package-level state or state shared between instances: package tables are never modified after initialisation, every New gets its own renderer table, and Parse, Resolve and Render do not modify the Biber, the resolvers or the renderers they use. Concurrent use on different inputs therefore needs no locking and cannot change results.",
 ["schedules", "histories"], "all interleavings of calls on distinct inputs; all call histories",
 "No test runs anything concurrently or checks that one instance's options leave another's alone.",
 ["bibtex.go", "resolver.go", "render/render.go", "render/accent.go", "parser/parser.go", "scanner/scanner.go", "ast/ast.go", "token/token.go"],
 [("package variables written only by their initialisers", "all packages"), ("fresh table per call", "render/render.go Defaults")],
 ["bibtex.New", "bibtex.Biber.Parse", "bibtex.Biber.Resolve", "bibtex.Biber.Render"])

prop("C12", "The library's only side effects are the documented ones",
 "The library writes to standard output only when the Trace flag is set, reads only the named file and only when no source is given, and otherwise performs no file, network, process, environment, clock or random access, starts no goroutine and never exits the process. Without Trace a parse has no effect except reading its source and recording positions and errors.",
 ["inputs", "configurations"], "all call paths from the exported API, all modes",
 "Tests do not observe side effects; half of them run with Trace on.",
 ["parser/parser.go", "parser/interface.go", "scanner/scanner.go", "bibtex.go", "render/render.go"],
 [("p.trace guards", "parser/parser.go"), ("readSource", "parser/interface.go")],
 ["every exported function"])

prop("C13", "Results are a deterministic function of the input",
 "Parsing, resolving, walking and rendering the same input with the same options gives the same entries, the same order, the same errors and the same output every time. In particular no result depends on map iteration order, on addresses, time, randomness or scheduling.",
 ["inputs", "schedules", "histories"], "all inputs, all runs",
 "One run per test cannot show independence of map order; packages of several files are never resolved in a test.",
 ["bibtex.go", "ast/walk.go", "parser/parser.go", "resolver.go", "asts/asts.go"],
 [("iteration over Package.Files", "bibtex.go Resolve, ast/walk.go")],
 ["bibtex.Biber.Resolve", "ast.Walk", "parser.ParseFile"])

prop("C14", "The caller's source is never modified or retained",
 "Parsing never writes to the byte slice or buffer the caller passes as source, and no string in the returned tree or errors shares memory with it. Reusing or overwriting the source after the parse therefore leaves the tree unchanged.",
 ["inputs", "histories"], "all inputs and every later use of the source buffer",
 "No test keeps and changes the source after parsing.",
 ["parser/interface.go", "parser/parser.go", "scanner/scanner.go"],
 [("string(...) copies of source slices", "scanner/scanner.go"), ("source slice handed through", "parser/interface.go readSource")],
 ["parser.ParseFile"])

prop("C15", "Outside strings each character class yields its token",
 "Outside a string, after skipping blanks, the scanner maps the next character to one token kind and nothing else: a digit starts a number of digits, any other BibTeX name character starts the longest name, '@' plus letters is a command (comment, string and preamble case-insensitively, anything else an entry), '%' is a comment up to the line end, and ',', '=', '#', '(', ')', '{' and '}' are themselves. A double quote, or a '{' directly after '=', '#' or '{', starts a string; every other character is illegal and is reported.",
 ["inputs", "configurations"], "all characters (all of Unicode plus invalid bytes), all scanner states and modes",
 "The scanner tests sample 28 token spellings; character classes have over a million members and the comparisons are a long hand-written disjunction.",
 ["scanner/scanner.go"],
 [("Scan's switch and IsName/isLetter/isDecimal", "scanner/scanner.go")],
 ["scanner.Scanner.Scan"])

prop("C16", "Inside strings each character class yields its token and nesting is tracked",
 "In string-tokenising mode the scanner splits string contents into math, space, comma, tie, brace, escape, accent, macro and plain-text tokens by the character (and the character after a backslash). A string opened by a quote ends only at a quote outside all braces, a string opened by a brace ends only at its matching brace, and after it ends the scanner is back outside strings.",
 ["inputs", "histories"], "all characters, all nesting depths and delimiters",
 "About 30 short strings are sampled, with nesting depth at most 2.",
 ["scanner/scanner.go"],
 [("scanInString, scanStringEscape, scanSpecialCharStringAccent, isSpecialStringChar", "scanner/scanner.go")],
 ["scanner.Scanner.Scan"],
 [("endQuoteCh", "delimiter that ends the current string, 0 outside", "scanner/scanner.go"), ("braceDepth", "open braces inside the string", "scanner/scanner.go")])

prop("C17", "Token literals are exactly the source text they cover",
 "The literal of a number, name, command, comment, escape, plain-text, math or unparsed string token is exactly the bytes of the source between the token's start and end, without the delimiters (quotes, braces, dollar signs) and without anything outside. For a macro it is the command name; tokens follow each other without overlap or skipped bytes other than blanks outside strings.",
 ["inputs"], "all inputs, all token kinds",
 "Tests compare the literals of a few dozen samples; off-by-one slips at nesting, escapes or end of input are not sampled.",
 ["scanner/scanner.go"],
 [("string(s.src[lo:hi])", "scanner/scanner.go")],
 ["scanner.Scanner.Scan"])

prop("C18", "Positions are token starts and every newline is counted",
 "The position returned with each token is the offset of its first character, every newline the scanner consumes (in blanks, strings, comments and at the end) is entered into the file's line table exactly once at the offset after it, and an error is reported at a position inside the source. Every node built from a token carries that token's position.",
 ["inputs"], "all inputs",
 "Scanner tests check positions for two token sequences; node positions are not compared by any test.",
 ["scanner/scanner.go", "parser/parser.go"],
 [("pos = file.Pos(offset)", "scanner/scanner.go"), ("AddLine in next", "scanner/scanner.go"), ("ValuePos/NamePos/Entry fields", "parser/parser.go")],
 ["scanner.Scanner.Scan", "parser.ParseFile"])

prop("C19", "Each string token becomes its own faithful AST node",
 "While parsing string contents each math, hyphen, tie, text, space, comma, escape and accent token becomes exactly one node of the corresponding type holding that token's text (escapes without the backslash, accents split into mark and letter), in source order; a brace group becomes a nested string holding its pieces in order; a macro becomes a macro node with its name. No piece is dropped, duplicated, merged or replaced by nil.",
 ["inputs"], "all token sequences inside strings, all nesting depths",
 "Parser tests compare about a dozen strings.",
 ["parser/parser.go"],
 [("parseText, parseStringLiteral, parseStringAccent, parseMacroURL", "parser/parser.go")],
 ["parser.ParseFile", "parser.ParseExpr"])

prop("C20", "Entries keep their type, key and all tags in source order",
 "A parsed entry has the lower-cased type, the first bare key as its cite key, later bare keys (and nothing else) as extra keys, and one tag per assignment in source order with the name as written, its lower-case form, and the value parsed from its right-hand side. A tag name is never taken for a cite key, with or without trailing commas.",
 ["inputs"], "all entries, any number and order of keys and tags",
 "Eight entries are compared and their extra keys are not compared at all.",
 ["parser/parser.go"],
 [("parseBibDecl, parseTagStmt", "parser/parser.go")],
 ["parser.ParseFile"])

prop("C21", "Declarations are dispatched by command and closed by their own delimiter",
 "Each top-level command yields exactly one declaration of its own type (@string an abbreviation, @preamble a preamble, any other name an entry), in source order, and anything else at top level is an error. A declaration opened with '{' is closed only by '}' and one opened with '(' only by ')'; a concatenation keeps both operands in order.",
 ["inputs", "configurations"], "all token sequences, all modes",
 "A dozen declarations are sampled and two mismatched pairs.",
 ["parser/parser.go"],
 [("parseDecl, parsePreambleDecl, parseAbbrevDecl, expectCloser, parseExpr", "parser/parser.go")],
 ["parser.ParseFile"])

prop("C22", "A re-initialised scanner behaves like a new one",
 "After Init the scanner's behaviour depends only on Init's arguments: whatever was scanned before, in whatever state it stopped (inside a string, after '=', after errors), the tokens, positions and error count of the next source are those of a fresh scanner.",
 ["histories"], "all previous scanner histories",
 "Every test uses a new scanner.",
 ["scanner/scanner.go"],
 [("Init resets all fields", "scanner/scanner.go Init")],
 ["scanner.Scanner.Init"])

prop("C23", "Comments never reach the grammar and none is lost",
 "A '%' comment outside a string never changes what is parsed around it: the parser skips any number of comments between any two tokens. Every comment is recorded once, in order, in the file's comment list, with its text and position, and comment groups are never empty.",
 ["inputs"], "all placements and numbers of comments",
 "No parser test contains a comment.",
 ["parser/parser.go"],
 [("next, consumeComment, consumeCommentGroup", "parser/parser.go")],
 ["parser.ParseFile", "ast.File.Comments"])

prop("C24", "Resolve yields one entry per declaration after running all resolvers",
 "Resolve runs the configured resolvers in the order given on the node it was passed, stops at the first failure, and only then builds the entries. Each entry declaration gives exactly one entry, in source order (files of a package in a fixed order), carrying its type, its key (empty if it has none) and every tag value under its lower-case name (the last one of equally named tags); other declarations give none, and a node that cannot hold entries is an error.",
 ["inputs", "configurations"], "all trees, all resolver lists",
 "Each test resolves a file with one or two entries and a fixed resolver list.",
 ["bibtex.go"],
 [("Resolve, resolveEntry", "bibtex.go")],
 ["bibtex.Biber.Resolve"])

prop("C25", "Options take effect exactly as documented",
 "New starts from the documented defaults (string parsing on, default renderers, no resolvers) and applies every option in order: a parser mode replaces the previous mode, resolvers are appended in order, a renderer replaces only the one of its kind. Parse uses exactly the configured mode, and the parser turns each mode flag into its effect.",
 ["configurations"], "all option lists",
 "Tests use one option once.",
 ["bibtex.go", "parser/parser.go"],
 [("New, With*", "bibtex.go"), ("mode mapping in init", "parser/parser.go")],
 ["bibtex.New"])

prop("C26", "Built-in resolvers change only what they document",
 "The escaped-text resolver replaces each escaped-character piece by plain text of the same character at the same index and touches nothing else; the parsed-text resolver replaces each tag value that is a parsed string by plain text holding its rendering and leaves other values alone; the author resolver replaces the value of exactly the named tags by the authors extracted from it. All of them reach every tag of every entry of the tree they are given.",
 ["inputs"], "all trees",
 "Resolver tests use single expressions, not files, and two escapes.",
 ["resolver.go", "ast/walk.go"],
 [("Resolve methods", "resolver.go")],
 ["bibtex.Biber.Resolve"])

prop("C27", "Author lists are split at 'and' and every name part is kept",
 "Author extraction yields one author per 'and'-separated group, in order, and fails if a group is empty. With no comma the words go to first, von and last name with at least the final piece in the last name; with one comma the part before it gives von and last and the part after it gives first; with two commas the middle part is the suffix. Within each part the pieces stand in their order, and the text of a piece is its own.",
 ["inputs"], "all author fields",
 "About 20 names are sampled; no suffix form is tested.",
 ["author.go"],
 [("ExtractAuthors, resolveAuthor0, resolveAuthorN", "author.go")],
 ["bibtex.ExtractAuthors"])

prop("C28", "Accents render to the right composed letter and nothing else",
 "For every accent mark and letter for which an accent is rendered, the result is the Unicode letter composed of that base letter (same case) and that diacritic; every accent mark the scanner recognises is rendered for its common letters. Any other combination is an error, never a wrong or empty character.",
 ["inputs"], "all accent marks times all texts",
 "One accent is rendered in the resolver tests and four in author tests, of over seventy in the table.",
 ["render/accent.go", "token/accent.go", "scanner/scanner.go"],
 [("accentMap, RenderAccent", "render/accent.go")],
 ["render.RenderAccent"])

prop("C29", "Token and kind names are total, distinct, and classes partition tokens",
 "Every token, node kind, object kind and delimiter has its own non-empty name, naming never fails even for unknown values, and each token belongs to at most one of the literal, string-literal, operator and command classes, which contain exactly the tokens of their group. Distinct mode flags are distinct bits.",
 ["inputs", "programs"], "all values of the enumerations",
 "Names and classes are checked only for the tokens the scanner tests happen to use.",
 ["token/token.go", "ast/ast.go", "ast/scope.go", "parser/interface.go", "scanner/scanner.go"],
 [("tokens, kindNames, objKindStrings tables", "token/token.go, ast/ast.go, ast/scope.go")],
 ["token.Token.String", "ast.NodeKind.String"])

prop("C30", "All source kinds are read alike",
 "A source given as string, byte slice, buffer or reader is parsed as exactly its bytes, and only when no source is given is the named file read. A read failure, a nil buffer or an unsupported source type is returned as an error together with a nil file, and nothing is parsed.",
 ["inputs", "fault_sequences"], "all source kinds and read failures",
 "Tests pass only strings, one file name and one reader; failures are not sampled.",
 ["parser/interface.go"],
 [("readSource, ParseFile", "parser/interface.go")],
 ["parser.ParseFile"])

prop("C31", "Node spans are well ordered and cover their children",
 "For every node of a tree parsed without error the end position is not before its start, and is computed from the node's own extent (its text length, its closing delimiter, or the end of its last child), so that a parent's span covers its children. An empty node has an empty span.",
 ["inputs"], "all parsed trees",
 "No test calls Pos or End.",
 ["ast/ast.go"],
 [("Pos and End methods", "ast/ast.go")],
 ["ast.Node.Pos", "ast.Node.End"])

prop("C32", "Error reporting is sorted, bounded and self-contained",
 "Errors are returned sorted by position; unless all errors are requested the parser stops after a small fixed number of its own errors and never records two of them in a row on the same line. Stopping early never loses the errors already found and never surfaces as a panic.",
 ["inputs", "configurations"], "all erroneous inputs, both settings of the flag",
 "No test has more than one error.",
 ["parser/parser.go", "parser/interface.go"],
 [("error, bailout", "parser/parser.go"), ("deferred recover", "parser/interface.go")],
 ["parser.ParseFile", "parser.ParseExpr"])

prop("C33", "Nesting in the input cannot exhaust the stack",
 "The depth of recursion of the scanner and the parser, and the depth of the trees they produce, is bounded by a constant for every input: deeper nesting is reported as an error. Hence no input, however deeply nested, can crash the process in parsing or in the recursive traversals of its result.",
 ["inputs"], "all inputs, unbounded nesting",
 "The deepest test input has two levels.",
 ["scanner/scanner.go", "parser/parser.go"],
 [("recursion of parseText/parseExpr and scanBraceString", "scanner/scanner.go, parser/parser.go")],
 ["parser.ParseFile", "parser.ParseExpr"])

prop("C34", "Scopes keep the first declaration and look up exactly one scope",
 "Inserting an object into a scope stores it under its own name only if that name is free, and otherwise leaves the scope unchanged and returns the existing object. Lookup returns exactly what was inserted under the name in that scope and never looks at outer scopes or changes the scope.",
 ["histories"], "all sequences of inserts and lookups",
 "No test touches scopes.",
 ["ast/scope.go"],
 [("Insert, Lookup", "ast/scope.go")],
 ["ast.Scope.Insert", "ast.Scope.Lookup"])

prop("C35", "Parsing then plain rendering conforms to BibTeX's own reading",
 "For every valid bibliography the resolved entries equal what the reference BibTeX program would read: the same entries, fields, abbreviation expansion, concatenation and name parts.",
 ["inputs"], "all valid .bib files",
 "Only a handful of entries are compared, against hand-written expectations.",
 ["parser/parser.go", "bibtex.go", "author.go"],
 [("whole pipeline", "parser, resolver")],
 ["bibtex.Biber.Resolve"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
