#!/usr/bin/env python3
"""Writes ../properties.jsonl. Edit the table here, not the generated file."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mech, where=files[0])]))
    d["anchors"].update(kw)
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "No network or file access that was not switched on",
  "Parsing a schema performs no network request unless HTTP fetching is enabled in the parser options, and reads no file unless file system fetching is enabled, apart from the one schema file handed to the parse-file entry points. Generating values never performs network or file access, and the embedded validator never loads a document by itself.",
  ["inputs", "configurations"], "every schema text and every parser option value",
  "Tests only ever parse a few schemas with a few options; none observes the absence of I/O for all others.",
  ["document.go", "fetchers.go", "schema.go", "parse.go"],
  "Fetchers are registered per scheme only when enabled; the validator's loader is replaced by one that always fails.")
p("C02", "HTTP fetch policy holds for every URL that is requested",
  "Every URL requested while parsing, including relative references resolved against their base and every redirect that is followed, uses https unless insecure connections are allowed, and has a host on the allow-list unless that list is empty. A response is only used when its status is 200, and the chain of redirects followed is bounded.",
  ["inputs", "configurations", "histories"], "every reference string, base document, option value and server behaviour",
  "Tests sample a handful of references against one local server and never follow a redirect.",
  ["fetchers.go"], "Policy checks on the resolved URL in resolveDocumentId and in the redirect hook.")
p("C03", "File references stay inside the allowed directories",
  "A file reference is only accepted when its absolute, symlink-free path lies inside one of the allowed paths, and, unless access outside of it was allowed, inside the current working directory. The path that is read is exactly the path that was checked, and allowed paths are themselves made absolute and symlink-free first.",
  ["inputs", "configurations"], "every reference string, base document, allowed path list and directory layout",
  "Tests try a few fixed paths; traversal, prefix look-alikes and symlinks form an unbounded set.",
  ["fetchers.go"], "getRealPath followed by containment checks on the same value that is returned.")
p("C04", "Only identifiers approved by a fetcher's policy are fetched",
  "A document is fetched only under an identifier that the same kind of fetcher approved beforehand, whether the fetch happens at once or from the queue of documents still to be parsed. What is fetched is stored under that same identifier, so that a document is never served for another identifier.",
  ["inputs", "histories"], "every sequence of references over any number of documents",
  "Tests follow two or three documents in one order; any other chain of references is unchecked.",
  ["document.go"], "Identifiers flow from resolveDocumentId through the queue into resolveDocument and addDocument.")
p("C05", "Following references while generating is bounded and cycle-checked",
  "While generating, a reference is followed only if the number of references being followed does not exceed the configured maximum and, unless the cyclic check is bypassed, the same reference is not already being followed; otherwise a diagnostic string is produced instead. The chain of references being followed is the same after a value was generated as before.",
  ["inputs", "histories"], "every reference graph and option value",
  "Tests have a few small cycles; the bound must hold for every graph and every sibling order.",
  ["reference.go", "reference_hander.go"], "Depth and membership tests before PushRefResolution, deferred pop.")
p("C06", "Parsing terminates on recursive and multi-document schemas",
  "Nested parsing never goes deeper than the configured maximum parse depth, and a reference that is being expanded while merging is never expanded again inside itself. Every external document is parsed at most once, and every other loop of the parser has a finite bound.",
  ["inputs", "histories"], "every schema graph, including cyclic ones, and every set of documents",
  "Tests contain a few recursive schemas; termination is a claim about all of them.",
  ["parse.go", "merge.go", "document.go", "not.go"], "Depth counter, resolution stack, queue membership and parsed flags.")
p("C07", "Retries and loops while generating are bounded by the configured attempts",
  "Every loop that runs while generating has a finite bound fixed by the schema or the options. Retry loops for not, oneOf, if and uniqueItems make at most as many attempts as the option for that keyword configures and at least one whenever attempts are configured.",
  ["inputs", "configurations"], "every schema, including unsatisfiable ones, and every option value",
  "A test cannot observe that no schema makes a loop run forever or past its budget.",
  ["constraint.go", "combination.go", "if.go", "array.go", "string.go", "generator.go"],
  "Counted loops bounded by ScaledRetryBudget or the option itself.")
p("C08", "Past the cutoff no generator descends any further",
  "Arrays, objects, combinations and references each count at least one generation step before generating children, and once the number of steps exceeds a configured cutoff they produce null without generating any child. The step counter never decreases while a value is generated.",
  ["inputs", "configurations"], "every schema, option value and step at which the cutoff is crossed",
  "Tests never cross the cutoff at each possible point of each kind of generator.",
  ["generator.go", "array.go", "object.go", "combination.go", "reference.go"], "overallComplexity counter and ShouldCutoff.")
p("C09", "Generated values pass their oneOf, not and if constraints or say so",
  "A value produced for a schema with several oneOf branches matches exactly one of them, a value produced under not passes every excluded pattern, format, value and property check, and a value produced under if has its condition re-checked against the branch that produced it; otherwise a diagnostic string is produced or the cutoff was passed. Parsing such a keyword always attaches its constraint to the generator.",
  ["inputs"], "every constraint and every generated candidate value, including the last attempt",
  "Randomised tests rarely exhaust the attempts, so the last-attempt and mixed cases are not reached.",
  ["constraint.go", "combination.go", "if.go", "not.go", "parse.go"], "Apply only returns values whose check succeeded on the same path.")
p("C10", "allOf merging keeps every keyword with the tightest bounds",
  "Merging allOf sub-schemas keeps every keyword of every sub-schema: lower bounds merge to the largest, upper bounds to the smallest, required names and sub-schema lists are united, and types and allowed values are intersected. A false schema wins over any other, and keywords that cannot be combined are reported as an error (array-form items and $id, $defs and definitions are not merged).",
  ["inputs"], "every combination of present and absent keywords in the merged sub-schemas",
  "There are over thirty keywords and two sides; tests combine a handful of them.",
  ["merge.go", "internal/util/util.go"], "mergeSchemaNodes copies or combines each field of the schema node.")
p("C11", "Applying a not keeps the schema's own keywords",
  "When a not is resolved against a schema, every keyword the schema itself has is still in force: it survives as it is, or is replaced by one made from it that is at least as restrictive, and never by the not's own. Several nots are applied one after the other, each to what the one before left (a schema no type is left for is reported as an error; values worked out in advance may stand in for multipleOf and its bounds).",
  ["inputs"], "every combination of keywords next to a not",
  "Tests pair a not with one or two keywords at a time.",
  ["not.go", "constraint.go"], "notMerge rebuilds the node field by field; constraints accumulate.")
p("C12", "A reference path leads to the sub-schema written at that location",
  "Each step of a reference path selects the sub-schema of the keyword, name or index it names, and a step that names something absent is an error rather than another schema or a crash. A sub-schema that is parsed is registered for later lookup under the location it is written at (keywords merged away by allOf, and those written beside oneOf, anyOf or allOf, excepted; escapes are not supported).",
  ["inputs"], "every location of every keyword that holds sub-schemas",
  "Tests reference a few locations; a wrong mapping for any other keyword goes unnoticed.",
  ["reference_path.go", "array.go", "object.go", "root.go", "combination.go", "if.go"], "Path walker table and ParseNodeInScope scopes.")
p("C13", "Parser bookkeeping is balanced on every path",
  "The current location, the stack of references being resolved and the nesting depth of the parser are the same after a sub-schema was parsed or merged as before, whichever way it ended. Errors and references recorded later are therefore attributed to their own location.",
  ["inputs", "fault_sequences"], "every schema, including ones that fail at any nested position",
  "Tests do not fail at each nested position and then look at the location of a later sibling.",
  ["reference_hander.go", "parse.go", "merge.go", "not.go"], "Push and pop pairs, deferred or explicit.")
p("C14", "No problem found while parsing is dropped silently",
  "Whenever parsing replaces a sub-schema by a null generator or leaves it out because of an error, that error is either returned to the caller or recorded in the error collection. The error collection reports every recorded error of every document.",
  ["inputs", "fault_sequences"], "every failing sub-schema at every position",
  "Tests check few failing positions; a swallowed error looks like success.",
  ["parse.go", "merge.go", "not.go", "if.go", "combination.go", "object.go", "array.go", "error.go"], "AddError calls on each error path.")
p("C15", "Every option takes effect under its own meaning",
  "Every generator and parser option the caller sets is the value used, an unset option gets its documented default, and an option is never used in place of another one. Options that configure strings, pattern properties, fetching, retries and limits each reach the place they describe.",
  ["configurations"], "every option value",
  "Tests set few options and cannot tell two options with equal defaults apart.",
  ["generator.go", "parse.go", "object.go", "string.go", "array.go", "constraint.go", "combination.go", "if.go"], "Default-filling constructors and their uses.")
p("C16", "Command line flags are honoured for files and standard input alike",
  "Each command line flag sets the library option it names, both when the schema is read from a file and from standard input. Network access stays off unless allowed hosts are given, and file system access stays off unless allowed paths or access outside the working directory are given.",
  ["configurations", "inputs"], "every combination of flags and both input modes",
  "The command line tool has no tests.",
  ["cli/cli.go"], "Flag variables flow into ParserOptions and GeneratorOptions.")
p("C17", "The command line tool never overwrites files or reports failure as success",
  "When the schema cannot be read or parsed, or the output cannot be encoded or written, the tool exits with a non-zero status and prints no generated value. An output file that already exists is never opened for writing.",
  ["inputs", "fault_sequences"], "every input, output path and failing operation",
  "The command line tool has no tests.",
  ["cli/cli.go"], "checkErr after each fallible call, existence check before creating the file.")
p("C18", "Generation is reproducible from the random source handed in",
  "With the same random source state, options and generator, the structural choices of a generated value (branches, keys, counts, numbers, enum values) are the same. Only pattern, format and free text contents draw on other sources, and no choice depends on map iteration order, time or addresses.",
  ["inputs", "histories"], "every schema and seed",
  "Map iteration order differs between runs by chance; a test passes most of the time.",
  ["rand/random.go", "object.go", "array.go", "generator.go", "number.go"], "All draws go through the rand utility of the options; keys are sorted.")
p("C19", "Generating leaves the generator and options reusable",
  "Generating a value never modifies the parsed generator tree (pattern generators' random sources apart), package level state, or anything reachable from the options other than the random source. Values of one generation are therefore unaffected by earlier ones, and the option struct handed in keeps its contents.",
  ["histories", "schedules"], "every sequence of generations on one generator",
  "Tests generate repeatedly but compare no state between generations.",
  ["root.go", "generator.go", "object.go", "array.go"], "Value receivers, copied options, fresh result containers.")
p("C20", "Parsing leaves the caller's options and package state untouched",
  "Parsing a schema never modifies the parser options handed in, anything reachable from them, or package level state. Two parses with the same options value are therefore independent.",
  ["inputs", "histories"], "every schema, options value and sequence of parses",
  "Tests hand over fresh options each time.",
  ["parse.go", "document.go", "internal/regen/regen.go"], "Options are copied before defaults are filled in.")
p("C21", "Pattern generators emit the parts of the pattern they were built from",
  "A concatenation emits all of its parts in order, an alternation emits one of its own branches, a repetition emits its own sub-pattern between its minimum and maximum number of times, a literal emits its own characters and a class only characters of its ranges. A pattern construct without a generator is an error, not an empty string (anchors and boundaries emit nothing).",
  ["inputs"], "every pattern",
  "Tests generate from a fixed list of patterns.",
  ["internal/regen/internal_generator.go", "internal/regen/char_class.go"], "Operator table and per-operator closures.")
p("C22", "Parsing never uses an absent part of a schema",
  "No schema, however malformed, makes the parser dereference, call or write through something that is not there: an absent optional keyword, a null entry, a failed look-up or type assertion, the result of a call that reported an error, a document without a schema or a generator that could not be built. (Index arithmetic, and panics inside other libraries, are not part of this property.)",
  ["inputs"], "every schema text that is valid JSON, and every option value",
  "Tests contain mostly valid schemas; each absent keyword, null and failing look-up is a separate case.",
  ["parse.go", "merge.go", "not.go", "array.go", "object.go", "number.go", "string.go", "reference_path.go", "document.go", "document_fetcher.go"], "nil tests, defaulting helpers and error tests before each dereference.")
p("C23", "Generating never uses a missing sub-generator or option",
  "Generating from a schema that was parsed never calls or dereferences something that is not there: a sub-generator that the schema has no keyword for or that could not be parsed, an optional condition or constraint, an option the caller left unset, or an unresolved reference. (Index arithmetic, and panics inside other libraries, are not part of this property.)",
  ["inputs", "configurations"], "every parsed schema and option value",
  "A crash needs one particular combination of absent keywords and one draw; tests sample neither exhaustively.",
  ["array.go", "object.go", "string.go", "reference.go", "combination.go", "multiple_type.go", "if.go", "constraint.go", "generator.go", "root.go"], "Sub-generators are tested before use or always set by the parser; options are filled in with defaults.")
p("C24", "A declared type only yields values of that JSON type",
  "A schema that declares a single type, and has no keyword that overrides it, yields values of that JSON type only, or null past the cutoff, or a diagnostic string. A type array yields values of its members only, and an unknown type name is reported as an error.",
  ["inputs"], "every schema with a type",
  "Tests validate samples; the dispatch of each type and each return of each generator must hold.",
  ["parse.go", "multiple_type.go", "array.go", "object.go", "number.go", "string.go", "boolean.go", "null.go"], "parseType dispatch and the result types of each generator.")
p("C25", "Generated objects have their required keys and only allowed ones",
  "Unless cut off, a generated object contains every required key, and every key with a declared schema carries a value generated from that key's own schema. Keys made from a pattern carry values of that pattern's schema, and other further keys carry values of the additionalProperties schema if there is one. When additional properties are disallowed and there are no pattern properties, it has no keys other than the declared and required ones. (Required keys without a declared schema get placeholder strings; a pattern that cannot be used yields the empty key with null.)",
  ["inputs"], "every object schema, random draw and option value",
  "Each run samples one subset of optional keys.",
  ["object.go"], "Loops over the required and optional keys storing into one result map; parseObject builds the generator.")
p("C26", "Generated arrays keep tuple order and honour their bounds",
  "Unless cut off, a generated array starts with the values of its tuple schemas in order, has nothing else when additional items are disallowed, and otherwise has at least the minimum number of items. The items demanded by contains are generated from the contains schema, and under uniqueItems every added item differs from the ones before or is a diagnostic.",
  ["inputs"], "every array schema, random draw and option value",
  "Each run samples one length; bounds hold by loop conditions only.",
  ["array.go"], "Tuple loop first, then contains items, then a loop that runs until the minimum is reached.")
p("C27", "Generated free strings respect minLength and maxLength",
  "A string schema without pattern or format yields a string at least as long as its minimum length and, if a maximum is set, at most as long as the maximum. Contradictory or negative lengths are reported when parsing.",
  ["inputs"], "every pair of lengths and every text drawn",
  "The text is random; tests sample few lengths.",
  ["string.go"], "Fill loop until the minimum, truncation at the maximum.")
p("C28", "enum and const yield only listed values that fit their siblings",
  "A schema with enum or const yields only values listed there that validated against the schema's other keywords; if none fits, an error is reported. Each such validation uses the schema at hand and not another one.",
  ["inputs"], "every list of values and sibling keywords",
  "Tests use a few lists without conflicting siblings.",
  ["enum.go", "const.go", "schema.go"], "Filtering by a validator compiled from the node itself.")
p("C29", "Schemas survive being rewritten to JSON and back",
  "Whenever a schema is written out to JSON and read again (to rewrite references or to build a validator), every supported keyword comes back under its own name with the same meaning, including false and true schemas, single and multiple types, both forms of items and a null const. Rewriting the references of a schema reaches every object and list in it.",
  ["inputs"], "every schema",
  "Tests do not compare round trips.",
  ["json.go", "parse.go", "document.go"], "Struct tags and paired marshal and unmarshal methods.")
p("C30", "Generated values validate fully against the schema",
  "Every value generated from a supported schema validates against that schema.",
  ["inputs"], "every schema and random draw", "Tests sample; the relation is semantic over all schemas.",
  ["object.go", "array.go", "number.go", "string.go"], "The whole system.")
p("C31", "Generated numbers are exact multiples within their bounds",
  "A generated number lies within its inclusive and exclusive bounds and is a multiple of multipleOf.",
  ["inputs"], "all floating point bounds and factors", "Floating point rounding differs per input.",
  ["number.go"], "Range reduction and rounding.")
p("C32", "Strings generated for a pattern match the pattern",
  "A string generated for a pattern matches that pattern.",
  ["inputs"], "every pattern and draw", "Patterns form an unbounded language.",
  ["internal/regen/internal_generator.go", "regex.go"], "Regex generator and dot rewriting.")
p("C33", "Generated format strings are valid for their format",
  "A string generated for a supported format is valid for that format.",
  ["inputs"], "every draw of the faker", "Contents come from a third-party faker.",
  ["string.go"], "generateFormat.")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
