#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one place to edit the texts).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    d={"id":id,"title":title,"statement":statement,
       "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(d)
G="logstash_config.go"; H="logstash_config_helper.go"; A="ast/ast.go"
p("C01","The parser accepts exactly the documented Logstash grammar",
  "A text is accepted as a configuration exactly when it derives from the documented configuration grammar under ordered-choice semantics, including the documented commitments (an opened block, array, hash, string, regexp or negated group must be closed, otherwise the whole parse fails). No accepted construct is refused by the code attached to the grammar, apart from numbers outside the float64 range.",
  ["inputs"],"every byte sequence handed to a parse entry point",
  "The suite samples some dozens of texts; a changed character class, alternative, repetition or commitment matters only for texts nobody sampled.",
  [G,"logstash_config.peg",H,"parse_error_helper.go"],[("grammar table","logstash_config.go: g"),("PEG interpreter","logstash_config.go: parseExpr and parse*Expr"),("error predicates","parse_error_helper.go")],
  ["Parse","ParseReader","ParseFile"])
p("C02","Parsing always ends with a result or an error, never a panic",
  "Parsing any byte sequence with the default options finishes and returns either a tree or a non-nil error; it never panics out to the caller and never returns neither. A failure raised anywhere inside the parser surfaces as a returned error.",
  ["inputs"],"every byte sequence, valid UTF-8 or not",
  "Termination and absence of escaping panics are claims about all inputs; the tests run a few short ones.",
  [G,H,"parse_error_helper.go"],[("no left recursion, no repetition of an empty match","grammar table"),("recover handler","logstash_config.go: parser.parse")],["Parse","ParseReader","ParseFile"])
p("C03","Every parsed construct reaches the tree once, in order, in its place",
  "The tree returned for an accepted text contains every section, plugin, attribute, array element, hash entry, branch block, condition operand and operator of the text exactly once, in source order, in the field that denotes its role, with its exact value and string/quote kind. Nothing is dropped, duplicated, reordered or exchanged.",
  ["inputs"],"every accepted text, every nesting of constructs",
  "Tests compare a handful of trees; a dropped third element, a swapped operand or a lost nested value appears only for other shapes.",
  [G,H,A],[("semantic actions","logstash_config_helper.go"),("label plumbing","logstash_config.go: callon*/on*"),("constructors","ast/ast.go: New*")],["value returned by Parse"])
p("C04","Comments are attached once at their construct, warned about or ignored",
  "Every comment at a regular location ends up, with its text and blank-line information, exactly once and in order in the comment field of the construct it precedes (or the enclosing footer). With the warning option each comment at an exceptional location yields exactly one warning naming its position, and with the ignore option no comment reaches the tree.",
  ["inputs","configurations"],"every accepted text with comments anywhere, every setting of the two comment options",
  "Comment placement times construct times option is unbounded; the tests hold a fixed list of placements.",
  [H,G,"logstash_config_options.go"],[("commentBlock / comment","logstash_config_helper.go"),("warnComment with backtracked state","logstash_config_helper.go: warnComment"),("__ rule","logstash_config.peg")],["Comment, CommentBlock and FooterComment fields","Config.Warnings"],
  [("warning list","kept in the backtracked parser state","current.state")])
p("C05","Every node carries the position where its source text starts",
  "Each node of a parsed tree reports line, column and byte offset of the first character of its own source text. Lines count newlines, columns count characters since the last newline, offsets count bytes.",
  ["inputs"],"every node of every accepted text",
  "The position tests pin a few small texts with ASCII content.",
  [G,H,A],[("read/restore position bookkeeping","logstash_config.go: parser.read"),("astPos in every action","logstash_config_helper.go")],["Pos() of every node"])
p("C06","An abandoned alternative leaves no trace in the parse",
  "Whenever the parser tries an alternative and gives it up, input position, backtracked state, label scopes and rule stack are exactly as before the attempt, so the result depends only on the alternatives finally taken. Look-ahead never consumes input and never changes the state.",
  ["inputs"],"every input and every alternative tried at every position",
  "Leaks show only when a particular alternative fails after a particular partial match.",
  [G],[("savepoint and state restore","logstash_config.go: parse*Expr"),("cloneState/restoreState","logstash_config.go")],["value and error returned by Parse"],
  [("pt, cur.state, vstack, rstack, recoveryStack","interpreter state","logstash_config.go: parser")])
p("C07","Parses are independent of one another and may run concurrently",
  "The value and error of a parse depend only on its input and options, not on earlier or concurrent parses. Parsing, printing and editing different trees from several goroutines involves no unsynchronised access to shared mutable data.",
  ["schedules","histories"],"every interleaving of parses in one process and every sequence of parses",
  "Tests parse sequentially in a fixed order and no test runs parses concurrently.",
  [G,H,"parse_error_helper.go",A,"ast/astutil/escape.go","ast/astutil/quote.go"],[("per-parse parser object","logstash_config.go: newParser"),("mutex around the farthest-failure record","parse_error_helper.go")],["Parse from several goroutines"],
  [("farthestFailure","record of the last failing position","parse_error_helper.go")])
p("C08","The farthest-failure report names exactly the farthest expectations",
  "After a failed parse the farthest-failure report gives the greatest position any expectation failed at, and lists each distinct expectation missed there once and no other; a committed (fatal) failure replaces the record. Every parse starts with an empty record.",
  ["inputs","histories"],"every failing input after every sequence of earlier parses",
  "The interplay of many failed expectations at different positions is sampled by few error tests.",
  ["parse_error_helper.go",H,G],[("pushError / fatalError / GetFarthestFailure","parse_error_helper.go"),("reset at the start rule","logstash_config_helper.go: initParser")],["GetFarthestFailure"],
  [("farthestFailure","messages at the farthest position","parse_error_helper.go")])
p("C09","Printing a tree writes every part once, in grammatical form",
  "The text printed for a tree contains every section, comment, plugin, attribute, element, entry, block, operand and operator once and in order, delimited and separated as the configuration grammar demands, and nothing else; each comment ends its line. Only an else block without content and comments may be left out.",
  ["programs","inputs"],"every tree with non-nil children, built by the parser or by hand",
  "Golden outputs cover a fixed set of trees; a missing separator or lost part can need a particular combination of empty and non-empty children.",
  [A],[("String and ValueString methods","ast/ast.go")],["Config.String","String/ValueString of each node"])
p("C10","Operators and kinds print as the very token they were parsed from",
  "Each comparison, regexp and boolean operator, section type and string kind has its own token; parsing that token yields that operator or kind and printing it yields the same token. No two of them share a token and none is mapped to another.",
  ["inputs"],"every operator, section type and quoting kind",
  "Tests touch single operators in single positions; the claim is agreement of several independent tables.",
  [H,A,G],[("operator actions","logstash_config_helper.go: compareOperator, regexpOperator, booleanOperator"),("String tables","ast/ast.go")],["Parse followed by String"])
p("C11","Indentation never alters the content of tokens",
  "Nesting a printed construct inside another changes only white space outside strings, regular expressions and selectors; every other character of the printed text appears unchanged and in order in the nested text. In particular no character is lost, whatever quotes, slashes, brackets, hashes or newlines the tokens contain.",
  ["inputs"],"every token content and every nesting depth",
  "It depends on arbitrary user text inside tokens; tests use a few quotes.",
  ["ast/ast_helper.go",A],[("chunking regular expression and line indentation","ast/ast_helper.go: linesRe, prefix")],["Config.String"])
p("C12","A printed number denotes the number that was stored",
  "The text printed for a number matches the number syntax of the grammar and reading it again yields the same float64. The float64 stored by the parser is the one denoted by the source text.",
  ["inputs"],"every finite float64 and every number literal",
  "The suite pins a dozen literals.",
  [A,H],[("ValueString of numbers","ast/ast.go: NumberAttribute.ValueString"),("number action","logstash_config_helper.go: number")],["NumberAttribute.ValueString","Parse"])
p("C13","Constructors and accessors store and return exactly what they are given",
  "A value built with a constructor reports, through its accessors and exported fields, exactly the arguments it was built from, in order, and nothing else is set. Setting the boolean operator of an expression makes precisely that operator visible.",
  ["programs","inputs"],"every argument combination of every constructor",
  "Tests build trees but compare them mostly through printing.",
  [A],[("New* functions and accessor methods","ast/ast.go")],["constructors and accessors of package ast"])
p("C14","Printing tolerates absent children in any position",
  "Printing any tree never panics, also when list elements or optional operands, keys or values are nil or lists are empty. A nil child adds nothing to the text.",
  ["programs"],"every subset of absent children of hand-built trees",
  "Existing tests cover some nil positions, not all nodes times positions.",
  [A],[("nil checks in the String methods","ast/ast.go")],["String/ValueString/Name of each node"])
p("C15","Unescape inverts Escape and both touch only escape sequences",
  "Unescaping an escaped string gives back the original string for every string. Escaping replaces only carriage return, newline, tab, backslash and the two quote characters by their two-character sequences, unescaping replaces only those sequences, and everything else is passed through.",
  ["inputs"],"every string",
  "Tables of sample strings cannot cover all byte sequences or adjacent sequences.",
  ["ast/astutil/escape.go"],[("Escape / Unescape tables","ast/astutil/escape.go")],["astutil.Escape","astutil.Unescape"])
p("C16","Quoting yields a token of the requested kind that keeps the value",
  "Quoting without escaping returns the value between the requested quotes only if the grammar reads that token back as exactly this value, and an error otherwise. Quoting with escaping only inserts backslashes before unescaped quotes of the requested kind, or for barewords replaces each offending character by an underscore.",
  ["inputs"],"every value and every quote kind",
  "Quotes at particular indexes, leading digits or trailing backslashes are sampled sparsely.",
  ["ast/astutil/quote.go"],[("Quote / QuoteWithEscape","ast/astutil/quote.go")],["astutil.Quote","astutil.QuoteWithEscape"])
p("C17","Traversal visits every plugin once and edits exactly the current one",
  "Applying a function to the plugins of a block list calls it once for every plugin (and nil slot), in order, including those in if, else-if and else blocks at any depth, and never for nodes inserted during the traversal. Replace, Delete, InsertBefore and InsertAfter change exactly the current slot or its immediate neighbourhood, the cursor stays on the current plugin, and all other nodes keep their order in the returned and nested lists.",
  ["programs","histories"],"every tree and every combination of cursor operations (Delete being the last operation on its plugin)",
  "The tests run fixed edits on small lists.",
  ["ast/astutil/apply.go"],[("ApplyPlugins and Cursor","ast/astutil/apply.go")],["astutil.ApplyPlugins","Cursor methods"],
  [("parent, index, step","cursor state","ast/astutil/apply.go: Cursor")])
p("C18","Read-only commands never change a file",
  "Checking, linting without the fix option and formatting without the write option open files only for reading; no file is created, truncated, renamed, removed or otherwise modified. The same holds for the parsing, printing and editing library.",
  ["inputs","configurations"],"every argument list, file content and option setting of the command line tool",
  "No test observes the file system after a command.",
  ["internal/app/check/check.go","internal/app/format/format.go","internal/app/lint/lint.go","internal/app/app.go",G],[("write guarded by the option","internal/app/format/format.go, internal/app/lint/lint.go: Run")],["file system after mustache check/lint/format"])
p("C19","In-place rewriting replaces a file only by its own printed tree",
  "With the write option of format, or the fix option of lint when an id was added, a file is rewritten exactly once, only after it was parsed successfully and its complete new text was computed, and with the printed form of the tree parsed from that same file. A file that cannot be parsed is left untouched, and every failure to write is reported.",
  ["inputs","fault_sequences"],"every argument list, file content and write failure",
  "The commands have no tests at all.",
  ["internal/app/format/format.go","internal/app/lint/lint.go"],[("Run","internal/app/format/format.go, internal/app/lint/lint.go")],["file contents after mustache format -w / lint --auto-fix-id"])
p("C20","Every failure reaches the exit status and names its file",
  "If any argument cannot be examined, read, parsed, printed or written, or lint finds something, the command's exit status is non-zero and its error output contains a message for each such failure naming the file; otherwise the status is zero. No error is dropped between the place it occurs and the exit status.",
  ["inputs","fault_sequences"],"every argument list and every failing operation",
  "No test drives the command line tool.",
  ["internal/app/app.go","internal/app/check/check.go","internal/app/format/format.go","internal/app/lint/lint.go","internal/app/check.go","internal/app/format.go","internal/app/lint.go","internal/format/multierr.go","cmd/mustache/main.go"],[("error aggregation","check.Run, lint.Run, format.Run"),("exit code","internal/app/app.go: Execute; cmd/mustache/main.go")],["exit status and error output of mustache"])
p("C21","Every argument is processed, whatever happens to the others",
  "Check and lint examine every path argument that is not a directory, in order, also when earlier ones fail; format processes all arguments up to the first failure. The result for one file does not depend on the other arguments.",
  ["inputs","histories"],"every list of arguments with any mixture of good and failing files",
  "Interactions between several arguments are never tested.",
  ["internal/app/check/check.go","internal/app/format/format.go","internal/app/lint/lint.go"],[("argument loop of Run","check.Run, lint.Run, format.Run")],["mustache with several arguments"])
p("C22","Lint reports every missing and duplicate id and every warning",
  "Lint reports, with position and name, exactly the plugins of input, filter and output sections (at any branch depth) that have no usable id and those whose id was already used by an earlier plugin of the same file, plus every parser warning. Plugins with a unique id are never reported.",
  ["inputs"],"every configuration file",
  "The lint command has no tests.",
  ["internal/app/lint/lint.go",A,"ast/astutil/apply.go"],[("validator.walk","internal/app/lint/lint.go"),("traversal of all sections","internal/app/lint/lint.go: Run")],["error output of mustache lint"])
p("C23","Automatically added ids are well-formed, unique and never override",
  "With the fix option each plugin lacking an id attribute gets exactly one id attribute, appended to its own attributes, whose value is a valid quoted string different from every other id in the file. Plugins that have an id attribute are left unchanged.",
  ["inputs"],"every configuration file and plugin name",
  "No test runs the fix option.",
  ["internal/app/lint/lint.go",A],[("validator.walk / newID","internal/app/lint/lint.go"),("Plugin.ID","ast/ast.go")],["file contents after mustache lint --auto-fix-id"])
p("C24","Every parser option sets its switch and returns the one that restores it",
  "Applying a parser option changes exactly the setting it names to the given value, and the option it returns restores the previous value when applied. Options not given leave the documented defaults in force.",
  ["configurations"],"every option, value and sequence of applications",
  "No test applies the returned options.",
  ["logstash_config_options.go",G],[("option closures","logstash_config_options.go and the option section of logstash_config.go")],["Option values passed to Parse"])
p("C25","Plugin ids are looked up exactly, and not-found errors stay recognisable",
  "A plugin's id lookup returns the value of its first id attribute if that is a string, an ordinary error if it is not a string, and a not-found error exactly if there is none. A not-found error is recognised as such through any wrapping, no other error is, and wrapping nil yields nil.",
  ["inputs","programs"],"every attribute list and every error chain",
  "Tests sample a few attribute lists and one wrapping depth.",
  [A,"ast/errors.go"],[("Plugin.ID","ast/ast.go"),("notFoundError, IsNotFoundError","ast/errors.go")],["Plugin.ID","ast.IsNotFoundError"])
p("C26","The grammar file and the generated parser describe the same language",
  "The parser table compiled into the package is the one the committed grammar file describes: the same rules, alternatives, literals, character classes, repetitions, predicates, labels and attached code, up to the generator's inlining. Regenerating the parser would not change behaviour.",
  ["inputs"],"every rule of the grammar and every input",
  "Tests only run the generated parser and never look at the grammar file.",
  ["logstash_config.peg",G],[("grammar source","logstash_config.peg"),("generated table","logstash_config.go: g")],["go generate"])
p("C27","Parse entry points report read, syntax and close errors and keep nothing open",
  "Parsing from bytes, a reader or a file gives the same result for the same bytes and options; an error opening, reading or closing the source or parsing it is returned and never replaced by success. A file opened for parsing is closed on every path.",
  ["inputs","fault_sequences"],"every source, content and I/O failure",
  "Tests only parse in-memory strings.",
  [G],[("ParseFile, ParseReader, Parse","logstash_config.go")],["Parse","ParseReader","ParseFile"])
p("C28","Parsing, printing and parsing again gives the same tree",
  "For every accepted text the tree obtained by parsing the printed tree equals the original tree up to positions, and printing again gives the same text.",
  ["inputs"],"every accepted text",
  "Round trips are tested on a handful of texts.",
  [A,H,G,"ast/ast_helper.go"],[("whole pipeline","Parse, Config.String")],["Parse followed by String followed by Parse"])
p("C29","Parsing takes time linear in the input size for realistic files",
  "Parsing time and memory grow at most proportionally with the input size for configurations of bounded nesting depth.",
  ["inputs"],"all inputs of bounded nesting","Time is not observed by the tests.",
  [G],[("PEG interpreter","logstash_config.go")],["Parse"])
p("C30","An interrupted in-place rewrite leaves the old or the new file",
  "If the process dies while rewriting a file in place, the file holds either its complete old text or its complete new text.",
  ["crash_points"],"every crash point of format -w and lint --auto-fix-id","No test crashes the tool.",
  ["internal/app/format/format.go","internal/app/lint/lint.go"],[("direct truncating write","Run")],["file contents after a crash"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for d in P:
        assert len(d["title"])<=80,d["title"]; assert d["statement"].count(". ")<=2
        f.write(json.dumps(d)+"\n")
print(len(P))
