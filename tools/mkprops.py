import json,os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

G="generator/generator.go";T="generator/types.go";GG="generator/generics.go";PR="printer/printer.go";CG="cmd_generate.go"
p("C01","Generated decorators implement the source interface exactly",
 "For every supported source interface and every destination (the interface's own package or another one), the file gowrap writes compiles, and a decorator built from the methods given to the template has exactly the source interface's methods with identical signatures: same parameter and result types after import renaming and package qualification, same variadicity, same channel directions, same struct fields and tags. The decorator is therefore assignable to the source interface.",
 ["inputs","programs","configurations"],
 "All valid Go interface declarations whose signatures use basic, named, imported, pointer, slice, array, map, channel, function, struct and interface-literal types nested to any depth; all destination package choices; every hosted template.",
 "Unit tests print a handful of hand-built AST nodes and never compile what gowrap writes; nothing regenerates a decorator in the test suite, so no test looks at generated code for an interface other than the two committed ones.",
 [G,T,PR,CG,"templates"],
 [("type printing with source-package qualification","printer.PrintType and its helpers"),("signature rendering","Method.Declaration/Signature/Pass in generator/types.go"),("import propagation","makeImports, headerTemplate, imports.Process in Generate")],
 [("typesPrefix","selector put before source-package types when the destination differs","printer.Printer / NewGenerator")],
 ["the output file, type-checked against the source package with go/types"])
p("C02","Embedded and aliased interfaces are flattened completely",
 "The methods a template sees are exactly the method set of the source interface, whatever mixture of direct methods, embedded local or imported interfaces (any depth, any file, overlapping) and interface aliases declares it. Nothing is dropped, duplicated or invented, and each method keeps the signature it has in its declaring package.",
 ["inputs","programs"],
 "All interface declarations composed by embedding or aliasing local, same-module and standard-library interfaces, over any placement of the declarations in files and packages and any import spelling.",
 "Tests embed one literal interface in a synthetic AST; method sets that arise from several files, packages, depths and overlaps are unbounded.",
 [G],[("recursive flattening","processInterface/processEmbedded/processIdent/processSelector"),("alias resolution","findMethods/getMethods/findSourcePackage"),("merge keeps the outer method","mergeMethods")],
 None,["TemplateInputs.Interface.Methods, compared with go/types' method set"])
p("C03","Generic interfaces yield valid generic decorators",
 "For a generic interface, the type parameter list and the parameter name list offered to templates declare and instantiate a decorator with the same type parameters, names, order and constraints as the source. The generic decorator compiles and implements the interface for every permitted instantiation, and methods of embedded generic interfaces are presented with the type arguments substituted.",
 ["inputs","programs"],
 "All generic interfaces with one or more type parameters, grouped or not, constrained by any, comparable, local or imported constraint interfaces and unions/approximations, used in plain or nested positions, including embedding other generic interfaces with type arguments.",
 "The tests check constraint strings on a few AST literals and never compile a generic decorator.",
 [GG,G,PR],[("type parameter rendering","genericTypes.buildVars, buildGenericTypesFromSpec, parseGenericType"),("substitution in embedded generics","processEmbedded, buildGenericParamsString")],
 None,["output file of a generic template, type-checked"])
p("C04","Every parameter and result gets a usable, unique name",
 "In every method given to a template all parameter and result names are non-empty valid identifiers other than the blank one and pairwise distinct, so that a decorator body can refer to each of them. A last result of type error is named err, a first parameter of type context.Context is named ctx, and any other declared name is kept unless it is blank, repeated, or clashes with these two.",
 ["inputs"],
 "All methods: named, unnamed, blank and repeated parameter and result names, with or without a leading context and a trailing error, names equal to the generated ones.",
 "Name clashes depend on combinations of types, positions and declared names; no existing test generates names for more than a trivial signature.",
 [T],[("name allocation","NewMethod, NewParam, makeParams, genName, typePrefix")],
 [("usedNames","names already taken in the method","NewMethod")],["TemplateInputs.Interface.Methods[*].Params/Results"])
p("C05","Context and error methods are recognised exactly",
 "A method is reported to templates as accepting a context exactly when its first parameter is context.Context, and as returning an error exactly when its last result is the built-in error type; under any import spelling of the context package. Which methods a hosted template instruments follows these two facts.",
 ["inputs","programs"],
 "All method signatures, with contexts and errors in every position, grouped, variadic, pointers to them, similarly named types, and renamed imports.",
 "Tests never look at the two flags; misclassification only shows for signature shapes outside TestInterface.",
 [T,"templates"],[("flag computation","NewMethod"),("use in templates","templates/*")],None,["Method.ReturnsError, Method.AcceptsContext; methods declared by each hosted template"])
p("C06","Template inputs describe the interface faithfully",
 "Templates receive the requested interface name, its correctly qualified type, and for every method its doc and trailing comments, parameters and results in order with their types and variadic flags; the helper renderings (call, pass, declaration, signature, name lists, params/results structs and maps, struct return, imports block) are valid Go that denotes the same method. Passing parameters through the call helper forwards variadic arguments with an ellipsis.",
 ["inputs","programs"],
 "All supported interfaces with arbitrary comments, zero to many parameters/results and any variadic element type.",
 "Each helper is unit-tested on one or two literals; consistency between the helpers and the declared signature over all signatures is not.",
 [T,G],[("helper methods on Method/ParamsSlice/TemplateInputs","generator/types.go, TemplateInputs.Import in generator/generator.go")],None,["rendered helper strings parsed as Go"])
p("C07","A failed generation is a clean refusal",
 "When gowrap cannot produce a decorator (unknown interface or package, empty interface, non-interface, unexported methods or types needed from another package, broken template, bad flags, unwritable output, missing template) it reports an error, never panics, and leaves the output file exactly as it was: not created, truncated or altered. The command exits with status 2 for command-line errors, 1 for other failures and 0 only when the output was written completely.",
 ["inputs","configurations","fault_sequences"],
 "All combinations of flags, source packages, interface names, templates and pre-existing output files that contain a reason to fail, alone or combined.",
 "Each failure is tested once through mocks; pre-existing outputs and the real process's exit status are not exercised at all.",
 [CG,G,PR,"cmd/gowrap/gowrap.go","command.go"],[("write only after everything succeeded","GenerateCommand.Run"),("refusals","NewGenerator, findTarget, printIdent"),("exit codes","main, die")],None,["exit status, stderr, output file bytes"])
p("C08","Generation is deterministic and independent of declaration order",
 "Running the same command on the same sources always writes byte-identical output. Reordering methods, embedded elements (overlapping ones declare their methods alike), declarations or imports inside the source package, moving declarations between its files, or the presence of unrelated declarations and files does not change the generated decorator.",
 ["inputs","programs","histories"],
 "All supported interfaces; all permutations of declarations and of their distribution over files; repeated runs, including over an existing output of an earlier run.",
 "Go map iteration order makes a wrong order show only in some runs; tests run each case once and mostly with one file.",
 [G,CG],[("template ranges over a sorted map","TemplateInputInterface.Methods"),("file iteration","iterateFiles"),("sorted import block","TemplateInputs.Import, imports.Process")],None,["output file bytes"])
p("C09","The go:generate line reproduces the file",
 "The generated file contains a go:generate instruction which, executed by go generate in the output directory, writes the same file again byte for byte, for any combination of source package, interface, local template path, template variables and local import prefixes. With -g the instruction is left out and nothing else changes.",
 ["inputs","configurations"],
 "All working directories, source package spellings, output locations, template locations, -v values (including spaces, quotes, equal signs, empty and boolean ones), -l values and -g.",
 "A test checks that one -l string appears in the output; no test executes the instruction.",
 [CG],[("header template","headerTemplate"),("argument rendering","varsToArgs"),("relative template path","GenerateCommand.loadTemplate")],None,["output of executing the instruction"])
p("C10","Template variables reach the template as given",
 "Every -v name=value given on the command line is visible to the template under that name with exactly that string, split at the first equal sign; a -v without an equal sign is visible as boolean true; the last occurrence of a name wins. Hosted templates honour their documented variables (such as the decorator name or metric name).",
 ["inputs","configurations"],
 "All sequences of -v arguments with arbitrary names and values.",
 "Two literals are tested in isolation from the command line and the template engine.",
 [CG,G],[("flag parsing","vars.Set, vars.toMap, GenerateCommand.getOptions"),("passing","Generator.Generate")],None,["text rendered by a template that prints .Vars"])
p("C11","Template helper functions do what is documented for all strings",
 "up and down map every Unicode letter to upper or lower case; upFirst and downFirst change the case of the first character only and keep every other byte; replace substitutes all occurrences; snake turns mixed-case identifiers into lower-case words joined by underscores without losing or inventing other characters. All of them are total (never fail on any input) and every sprig function remains available.",
 ["inputs"],
 "All strings: empty, ASCII and multi-byte identifiers, letters whose case changes their encoded length, digits, underscores, invalid UTF-8.",
 "Tests use a few literals, none with case pairs of different width or malformed input.",
 [CG],[("helper functions","helperFuncs, upFirst, downFirst, toSnakeCase")],None,["text rendered through a template"])
p("C12","Templates are loaded from the right place, whole or not at all",
 "A -t value naming a readable local file uses that file's bytes; otherwise an http(s) URL is fetched verbatim, a file:// path is read relative to the working directory or the git root, and a bare name is fetched from the project repository at the latest commit touching it. The loaded bytes are exactly the source's bytes and the reported location identifies it; any failure on the way (network error, non-200 status, truncated body, malformed or empty listing, unreadable file) is reported as an error.",
 ["inputs","fault_sequences"],
 "All template references and contents, all HTTP status codes, and all sequences of faults in requests and bodies.",
 "Tests script one mock response per branch; faults in the body or combined with others are not covered.",
 ["loader/loader.go","loader/gitpath.go",CG],[("precedence","loader.Load in cmd_generate.go"),("schemes","Loader.Load"),("commit pinning","fetchFromGithub"),("status check","Loader.get")],None,["requests made, bytes and location returned"])
p("C13","template list and template copy are faithful",
 "template list prints exactly the names of the entries below templates/ in the repository listing, in order; template copy writes exactly the template's bytes to the named file and reports where it came from. On any error nothing is written to the destination and the error is returned.",
 ["inputs","fault_sequences"],
 "All repository listings and template contents, all destinations, all load and write faults.",
 "Tests use mocked loaders and writers with one literal each.",
 ["cmd_template.go","loader/loader.go"],[("list","TemplateCommand.list, Loader.List"),("copy","TemplateCommand.fetch")],None,["stdout and destination file"])
p("C14","The output file is a well-formed member of its package",
 "A generated file starts with the standard generated-code marker, declares the package that already exists in the output directory (or, in a new directory, the directory's name), is gofmt-clean, imports exactly what it uses, no import repeated and nothing unused, and keeps imports matching the -l prefixes in a separate last group. It compiles together with the other files of that package.",
 ["inputs","configurations"],
 "All output locations (new or existing directory, package name different from directory name, same package as the source), all import sets and all -l lists.",
 "One test checks import grouping for one literal; package clause and import set are never checked against an existing package.",
 [G,CG,"pkg/package.go"],[("destination package","loadDestinationPackage, makePackage"),("import fixing and grouping","Generator.Generate via imports.Process"),("header","headerTemplate")],None,["output file parsed with go/parser and type-checked"])
TT="No test generates code from templates/*: the runtime tests exercise committed copies for one interface with a few literals."
p("C15","Decorators are transparent to the call",
 "Calling any method through a decorator made from a logging, metrics, tracing, pool, timeout, rate-limit, retry, circuit-breaker or validation template, when that feature has no reason to interfere, calls the same method of the wrapped value exactly once with the same arguments (variadics included; context either the same or derived from it) and returns exactly its results. A panic in the wrapped method reaches the caller.",
 ["inputs","programs","histories"],
 "All supported interfaces, all methods, all argument and result values, including nil and zero ones, errors and panics, for every such hosted template.",
 TT,["templates",T],[("pass-through","Method.Pass, Method.Call"),("bodies","templates/*")],None,["calls recorded by a spy implementation; results and panics at the caller"])
p("C16","log and logrus decorators record each call and outcome",
 "For every call the log decorator writes one line naming the decorator, the method and the parameter values to the standard output writer before the wrapped call, and one line with the method and result values afterwards: to the error writer exactly when the method returned a non-nil error, to the standard one otherwise. The logrus decorator does the same with one debug entry before and one entry after, the latter at error level exactly when the returned error is non-nil, carrying all parameters or results as fields keyed by name.",
 ["inputs","histories"],"All supported interfaces, argument and result values, and call sequences.",TT,
 ["templates/log","templates/logrus"],[("deferred result logging","templates/log, templates/logrus")],None,["writers; logrus hook"])
p("C17","Tracing decorators emit exactly one finished span per context call",
 "With opentracing, opencensus, opentelemetry and Elastic APM decorators, each call of a context-accepting method starts exactly one span named after the interface and method, as a child of the span in the incoming context, passes a context carrying it to the wrapped method, and finishes it exactly once even if the method panics. The error is recorded on the span exactly when the returned error is non-nil (or the custom span decorator gets all parameters and results instead); methods without a context emit no span.",
 ["inputs","histories"],"All supported interfaces, call sequences, nesting, outcomes (value, error, panic) and decorator options.",TT+" The opentracing test even hangs at this commit.",
 ["templates/opentracing","templates/opencensus","templates/opentelemetry","templates/elasticapm"],[("span start and deferred finish","the four templates")],None,["recording tracers"])
p("C18","The prometheus decorator counts every call under the right labels",
 "Every call through the decorator adds exactly one observation, no smaller than the time the wrapped method took, to the summary with the configured metric name under the labels instance name, method name, and result, where result is error exactly when the method returned a non-nil error and ok otherwise. Different decorator instances and methods never mix their counts.",
 ["inputs","histories"],"All supported interfaces, instance names, metric names and call histories.",TT,
 ["templates/prometheus"],[("deferred observation","templates/prometheus")],None,["the default prometheus registry"])
p("C19","The circuit breaker follows its state machine",
 "The breaker opens when the configured number of consecutive non-ignored errors has occurred across all error-returning methods, and while open every error-returning method fails at once without touching the wrapped value; after the open interval calls pass again, an error then reopens it at once and a success closes it and resets the count. A success or an error matching the ignore list (errors.Is) resets the count; methods that do not return an error are never blocked or counted.",
 ["histories","schedules","inputs"],"All call histories with outcomes (success, error, ignored error, wrapped ignored error) and time steps, for all thresholds, intervals and ignore lists, including overlapping calls.",
 "The test walks one path with a threshold of one; the state machine has unbounded histories and depends on time and concurrency.",
 ["templates/circuitbreaker"],[("state under lock","templates/circuitbreaker")],[("_consecutiveErrors","errors since the last success","templates/circuitbreaker"),("_closesAt","end of the open period","templates/circuitbreaker")],["results and spy calls under virtual time"])
p("C20","retry makes the right attempts and returns the last outcome",
 "A method returning an error is called once, and after a failure again up to the configured number of retries, one (positive) retry interval apart, with the same arguments, stopping at the first success; the results of the last attempt are returned. If the context ends while waiting, no further attempt is made and the last attempt's results are returned at once; methods without an error result are called exactly once.",
 ["inputs","histories","schedules"],"All retry counts and intervals, outcome sequences, contexts cancelled at any time.",
 "Tests cover one failure and one deadline in real time.",
 ["templates/retry"],[("ticker loop","templates/retry")],None,["spy call times under virtual time"])
p("C21","fallback returns the first success and always terminates cleanly",
 "A call runs the first implementation and starts the next one when the (positive) interval passes without a result or a started one fails; it returns the first successful result, an error naming every failure when all fail, or the context's error as soon as the context ends. It never hangs when implementations answer, no implementation is called more than once or with other arguments per call, contexts of outstanding attempts are cancelled on return, and no goroutine outlives implementations that have returned.",
 ["inputs","schedules","histories"],"All numbers of implementations, intervals, per-implementation delays and outcomes, cancellation times, for methods with and without context and error.",
 "Tests use two implementations with generous sleeps; order and timing of results is a schedule.",
 ["templates/fallback"],[("launcher and select loop","templates/fallback")],None,["spy call times, results, remaining goroutines under virtual time"])
p("C22","ratelimit never exceeds its budget and never starves",
 "From creation, at any time t at most burst + floor(t*rps) calls have reached the wrapped value; unused budget accumulates up to the burst (plus at most the ticks under way), so long idle times are not saved up. A call passes at once while budget is left, and while calls wait one of them is let through every 1/rps, so each is eventually let through. A call with a context and error result whose context ends while waiting returns the context's error at once, without reaching the wrapped value and without consuming budget.",
 ["schedules","histories","inputs"],"All bursts, rates, arrival patterns, concurrent callers and cancellation times.",
 "Tests measure one pattern in real time.",
 ["templates/ratelimit"],[("token channel and ticker","templates/ratelimit")],None,["spy call times under virtual time"])
p("C23","robinpool distributes calls evenly and in rotation",
 "Consecutive calls visit the implementations in a fixed rotation, so after any number of calls, sequential or concurrent and on any mix of methods, every implementation has received the same number of calls give or take one. Construction from an empty pool fails (error or panic, depending on the constructor) and a call is never sent to a value outside the pool.",
 ["histories","schedules"],"All pool sizes, call sequences over all methods, concurrent callers.",
 "The test makes a few sequential calls on one method.",
 ["templates/robinpool"],[("atomic counter","templates/robinpool")],None,["spy call counts"])
p("C24","syncpool gives each implementation to one call at a time and gets it back",
 "At any moment each pooled implementation serves at most one call; calls in excess wait and proceed as soon as one is free; after a call ends, by return or panic, its implementation is available again, so the pool never shrinks or grows. Construction from an empty pool panics.",
 ["schedules","histories"],"All pool sizes, concurrent call patterns, durations and panics.",
 "The test makes sequential calls; exclusivity is a schedule property.",
 ["templates/syncpool"],[("channel as pool and deferred return","templates/syncpool")],None,["spy overlap under virtual time"])
p("C25","timeout bounds the context of each method by its own setting",
 "For a context-accepting method with a positive configured timeout the wrapped value sees a context derived from the caller's whose deadline is the earlier of the caller's and now plus that method's timeout, and which is cancelled when the call returns; with a zero timeout it sees the caller's context unchanged. Methods without a context are untouched and one method's setting never affects another.",
 ["inputs","histories","schedules"],"All interfaces, per-method timeouts, parent deadlines and cancellation.",
 "Tests cover one method with and without a timeout.",
 ["templates/timeout"],[("per-method config and context.WithTimeout","templates/timeout")],None,["context seen by the spy under virtual time"])
p("C26","Validation decorators check every argument before the call",
 "For methods returning an error, the validate, grpc_validate and twirp_validate decorators call Validate on each non-context argument that has it, in order; at the first failure the wrapped method is not called and the error is returned as is, as a gRPC InvalidArgument status, or as a twirp InvalidArgument error, with the original message. When all pass, or for methods without an error result, the call goes through unchanged.",
 ["inputs","programs"],"All supported interfaces with arguments of validatable and plain types (values, pointers, interfaces, nil interfaces, variadics) in every position and all validation outcomes.",
 TT,["templates/validate","templates/grpc_validate","templates/twirp_validate"],[("type assertion loop","the three templates")],None,["validation calls, spy calls and returned errors"])
p("C27","twirp_error attaches the request to every returned error",
 "When a method returns a non-nil error the caller gets a twirp error whose metadata holds the JSON of the request argument: the same code and message if the wrapped method returned a twirp error, otherwise an internal error wrapping the original. A nil error stays nil and results are unchanged.",
 ["inputs"],"All supported interfaces, request values and errors.",TT,
 ["templates/twirp_error"],[("deferred injection","templates/twirp_error")],None,["returned errors"])
p("C28","Decorators can be shared by goroutines",
 "A decorator made from any hosted template can be used by several goroutines at once if the wrapped values can: concurrent calls, of the same or of different methods, never race on memory of the decorator, each reaches a wrapped value with exactly its own arguments and context, and each caller gets the results of its own call.",
 ["schedules","histories","programs"],"All supported interfaces, hosted templates, configurations, numbers of goroutines and interleavings of their calls.",
 TT+" The committed copies are tested with one goroutine, mostly.",
 ["templates",T],[("state kept in locals of the method","templates/*"),("shared state under locks, atomics and channels","templates/circuitbreaker, templates/robinpool, templates/syncpool, templates/ratelimit, templates/fallback")],None,["race detector; calls recorded by spies and results at the callers"])
p("C29","Types are printed as they are written",
 "Printing a type with the printer package gives Go source that denotes the same type, whatever the type is composed of (names, pointers, arrays, slices, maps, channels of each direction, functions, structs with tags and embedded fields, interface literals, instantiated generics, unions, variadic parameters, parentheses): types the source package declares get the package's selector if one is given and no other name gets one, replaced names are replaced wherever they denote a type and nowhere else, one printer gives the same text for the same type however often and in whatever order it prints, and a type that cannot be named elsewhere is refused with an error instead of being printed wrongly.",
 ["inputs","histories"],"All type expressions of Go, sets of declared types, selectors, replacements and sequences of printed types.",
 "The tests print a handful of types of one level; wrong text in a deeper position compiles to another type or does not compile.",
 ["printer"],[("Printer","printer/printer.go"),("use by the generator","generator/types.go")],None,["printed text parsed back"])
p("C30","The generator package writes what the command writes",
 "A program which uses the generator package itself gets, for the same options, the file the command writes, whichever way the source package and directory are given (import path, relative path, a package already loaded): a generator can write any number of times and writes the same each time, generators made from the same options, imports, variables or loaded package do not influence each other in whatever order they are made and write, the caller's options stay as they are, and errors of the template and of the writer are returned.",
 ["inputs","histories","fault_sequences"],"All source modules, templates, options, histories of making and using generators, and writers that fail after any number of bytes.",
 "The tests make one generator for each case and write once; sharing between generators shows only in particular histories, and only in bytes of a later file.",
 ["generator"],[("NewGenerator, Generate","generator/generator.go"),("loading","pkg/package.go")],None,["bytes written, options after each call, errors"])
p("C31","The command line means what its help says",
 "For every command line: help, usage and unknown commands write their text where documented with the documented exit status and change no file; `help COMMAND` describes each flag of the command; the ways to write one set of flags (one or two dashes, value attached with = or in the next argument, any order of different flags) mean the same, repeated -v flags accumulate with the later value of a name winning, and a program that registers commands of its own finds each under its name and lists all of them.",
 ["inputs","histories"],"All argument lists of the command, all spellings of a set of flags, and all sets of registered commands.",
 "The tests call single functions of the command line with a few arguments; the equivalence of spellings is never tested.",
 ["cmd"],[("main","cmd/gowrap/gowrap.go"),("registry and usage","command.go"),("flags","cmd_generate.go")],None,["exit status, standard output and standard error, files written"])
p("C32","The model of a method can be used by itself",
 "A program which uses the package's model of methods without a generator (NewMethod, NewParam, or methods it fills in itself) gets a faithful one: every parameter and result in order with its type as the given printer prints it, its comments and whether it is variadic, a usable name that no other one and nothing in the given set of taken names has (its own if it has one that is free; ctx and err for the context and the error), errors of the printer returned wherever they occur, and what is not a method refused. Everything a method says about itself (declaration, signature, call, passing on, lists of names, structs of values and pointers, maps, return statements) is Go source about exactly its parameters and results.",
 ["inputs","fault_sequences"],"All method fields with comments and names of any kind, types from the whole grammar, sets of taken names, printers that fail at any position, and methods filled in by a program.",
 "The tests fill in one or two parameters per helper and compare text.",
 ["generator/types.go"],[("NewMethod, NewParam and names","generator/types.go"),("notations of Method and ParamsSlice","generator/types.go")],None,["values and strings returned by the library"])
with open(ROOT+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
