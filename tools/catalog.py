FORMAT = 'rust/tombi-cli/src/app/command/format.rs'; LINT = 'rust/tombi-cli/src/app/command/lint.rs'
BASE = 'Facts come from rustc (types, resolved callees, MIR); dynamic dispatch is over-approximated by all impls. Trusted: rustc, the fact driver, the models of std combinators.'
PROPS = [
dict(id='P01', title='Checking never writes: lint and format --check leave files untouched',
 statement='''`tombi lint` and `tombi format --check` never modify, truncate, create or delete any file outside Tombi's own cache directory, whatever the inputs, the configuration and the outcome. The only user files any command writes are the inputs of `tombi format` without `--check`.''',
 over=['inputs','configurations'], forall='every input file, option combination, configuration and error outcome of the lint and format commands',
 why='Tests run a few documents through the library API; none enumerates the paths of the CLI commands that reach a write.',
 files=[FORMAT, LINT, 'crates/tombi-cache/src/lib.rs'],
 mechanism=[('check flag tested before reset/write_all; files opened read-only when checking', FORMAT), ('cache writes confined to the cache path', 'crates/tombi-cache/src/lib.rs')],
 technique='effect analysis + path-sensitive flow analysis over resolved MIR',
 note='All call sites of file-mutating primitives reachable from the commands are enumerated and classified; the format command is explored path by path with check=true. ' + BASE),
dict(id='P02', title='In-place formatting: rewrite only changed files, completely, or report',
 statement='''`tombi format` rewrites an input in place only after that input was read and formatted successfully and only if the formatted text differs from what was read. A rewrite first empties the file and then writes the whole formatted text and nothing else. An input is reported as formatted only if every step of the rewrite, including the final flush, succeeded.''',
 over=['inputs','fault_sequences'], forall='every input document and every success or failure of each read, truncate, write and flush',
 why='No test injects I/O failures or observes the file between the steps of the rewrite.',
 files=[FORMAT], mechanism=[('read_to_string, Formatter::format, comparison, reset, write_all+flush in order', FORMAT)],
 technique='typestate analysis (path-sensitive, fault outcomes enumerated) over flattened MIR',
 note='Every outcome of every fallible I/O call is enumerated on the flattened function that formats one file; the order, data and result of the writes are checked on each path. ' + BASE),
dict(id='P03', title='Exit status and counts tell the truth; no input or failure is dropped',
 statement='''For `tombi format` and `tombi lint`, every discovered input is counted in exactly one outcome class that matches what happened to it (success, unchanged, skipped, failed). The process exits with a nonzero status if and only if some input failed or the run itself failed, and every failed input (unreadable, not formatted under `--check`, with error diagnostics, or with any diagnostics under `--error-on-warnings`) has a message printed for it.''',
 over=['inputs','fault_sequences','configurations'], forall='every set of inputs and every outcome of discovery, opening, reading, formatting, linting and task completion',
 why='CLI outcome accounting has no tests; failures of reading, joining and searching are never provoked.',
 files=[FORMAT, LINT], mechanism=[('summary counters and exit', FORMAT), ('lint_file result and exit', LINT)],
 technique='path-sensitive accounting automaton over flattened MIR',
 note='An automaton follows each taken input to its counter with every outcome of the fallible operations enumerated; exit paths are explored under zero and nonzero error counts; what one input returns is explored under each outcome of reading, formatting, comparing and writing. ' + BASE),
dict(id='P04', title='Formatting standard input never loses the text',
 statement='''`tombi format -` without `--check` writes to standard output exactly once, on every path: the formatted text if formatting succeeds, and the unmodified source text if the document cannot be formatted, formatting is disabled by an override, or the configuration or schema setup fails. Only when standard input itself cannot be read is nothing written.''',
 over=['inputs','configurations','fault_sequences'], forall='every document, configuration, and outcome of loading, reading and formatting',
 why='Editors pipe buffers through this command and replace them with the output; no test drives the stdin path of the binary.',
 files=[FORMAT], mechanism=[('print!/copy of stdin on every arm', FORMAT)],
 technique='path-sensitive output automaton with provenance slices over flattened MIR',
 note='Each write to standard output is classified by a backward slice (formatter result, text read, raw copy) and every path of the flattened command must perform exactly one of the right class. ' + BASE),
dict(id='P05', title='Offline means offline: no network request is made',
 statement='''With the offline option set (`--offline` on the command line, or for the language server started with it), no command and no language-server request or background task reaches the HTTP client: schemas, catalogs, remote JSON documents of the extensions and remote files opened by the editor are served from embedded data and the cache, or not at all. The only code that touches the network is the schema store's HTTP client, and every schema store and every cache-warming task gets the user's offline option, unchanged.''',
 over=['inputs','configurations','histories'], forall='every document, schema URI, configuration, editor request and background task',
 why='The tests run without network and never count requests; a fetch path that forgets the option is invisible to them.',
 files=['crates/tombi-schema-store/src/store.rs','crates/tombi-extension/src/remote_cache.rs','crates/tombi-lsp/src/remote_file.rs','crates/tombi-lsp/src/config_manager.rs'],
 mechanism=[('self.offline() / offline parameter tested before get_bytes','crates/tombi-schema-store/src/store.rs'),('Options{offline} handed to every store','crates/tombi-lsp/src/config_manager.rs')],
 technique='who-may-call rule + guard analysis (path-sensitive, option assumed set) + interprocedural provenance of the option',
 note='Every caller of the HTTP client is explored with the option assumed true; the value of every parameter relied upon is traced to the option at all call sites. '+BASE),
dict(id='P06', title='Download cache: confined, honest, expiring, bypassable, and a fallback',
 statement='''Files are written only below Tombi's cache directory (apart from formatted inputs). What is stored there are the bytes of a successful (2xx) HTTP response, under the cache path derived from the scheme, host and path of the very URI that was fetched. With the cache disabled (`--no-cache`) a cached file is never read; an entry older than the configured lifetime is not served by a normal lookup, and a younger one is. When the store is offline, or when a fetch of a schema, catalog or remote JSON fails, an existing cached copy is consulted regardless of its age before giving up.''',
 over=['inputs','histories','fault_sequences','configurations'], forall='every URI, age of cache entry, option combination and outcome of the fetch',
 why='Tests never populate, expire or disable the cache and never make a fetch fail.',
 files=['crates/tombi-cache/src/lib.rs','crates/tombi-schema-store/src/store.rs','crates/tombi-extension/src/remote_cache.rs'],
 mechanism=[('read_from_cache: no_cache, TTL','crates/tombi-cache/src/lib.rs'),('load_*_from_cache_ignoring_ttl fallbacks','crates/tombi-schema-store/src/store.rs')],
 technique='effect + provenance analysis, path-sensitive exploration of the cache reader and the fetching functions with failing fetches',
 note='Option values and the age comparison are assumed in turn and all paths explored; what is saved and where is decided by backward slices. '+BASE),
dict(id='P16', title='Broken or opted-out documents are never reformatted',
 statement='''If a document has any lexing or parsing error, formatting it returns an error carrying the diagnostics: nothing is edited or printed, and the language server returns no edits and keeps its stored text. A document whose comment directive disables formatting comes back unchanged. Otherwise the result is the complete printed document. The parse result the formatter tests contains all errors of the lexer and of the parser, and edits sent to an editor are computed between the stored document and its formatted text.''',
 over=['inputs'], forall='every document, with and without syntax errors and directives',
 why='Tests format valid documents; they cannot show that every error of lexer and parser stops the formatter.',
 files=['crates/tombi-formatter/src/formatter.rs','crates/tombi-parser/src/lib.rs','crates/tombi-lsp/src/handler/formatting.rs'],
 mechanism=[('errors collected => Err before the editor runs','crates/tombi-formatter/src/formatter.rs'),('lexer errors + build_green_tree errors','crates/tombi-parser/src/lib.rs')],
 technique='path-sensitive exploration of the entry point + provenance of results and error lists over MIR',
 note='The entry point is explored with syntax errors / a disabling directive / neither assumed; returned values and the error list are classified by backward slices. '+BASE),
dict(id='P24', title='Options: overrides take precedence and reach exactly the matching files',
 statement='''For every file, the first `[[overrides]]` entry whose include patterns match it and whose exclude patterns do not decides: `enabled = false` in its format (lint) section means the file is not formatted (linted) by the command line, the language server or the web build; otherwise every rule the entry gives wins over the base rule, and every rule it does not give keeps its base value. Every document is formatted and linted with the options selected for its own path. Each documented format option controls the setting of its own name (`key-quote-style` falls back to `string-quote-style`; a date-time delimiter is written as configured). `files.include` and `files.exclude` are applied completely: matched means some include pattern and no exclude pattern matches.''',
 over=['inputs','configurations'], forall='every combination of given and missing options, override entries and patterns',
 why='Tests use a handful of configurations with one or two options; dropping or swapping one of 23 options, or one caller forgetting the overrides, goes unnoticed.',
 files=['crates/tombi-config/src/format.rs','crates/tombi-config/src/lint.rs','crates/tombi-config/src/lib.rs','crates/tombi-glob/src/lib.rs','crates/tombi-glob/src/file_match.rs','crates/tombi-formatter/src/formatter/definitions.rs'],
 mechanism=[('FormatRules::merge / LintRules::merge','crates/tombi-config/src/format.rs'),('get_format_options / get_lint_options','crates/tombi-glob/src/lib.rs'),('FormatDefinitions::new','crates/tombi-formatter/src/formatter/definitions.rs')],
 technique='abstract interpretation over MIR (all given/missing combinations per field) + provenance + who-may-call rule',
 note='Each field of the rules is tracked as an abstract value through the merge; option selection and pattern matching are explored over all outcomes; every call constructing a formatter or linter is traced to the selection. '+BASE),
dict(id='P18', title='Linting reports every problem it finds, at the configured severity',
 statement="""`Linter::lint` returns Ok exactly when nothing was reported: every syntax error, the error of loading a schema, every diagnostic of the comment directives, and - whenever no error-level diagnostic was found before - every error of building the document tree and every schema violation is in the returned list, and nothing reported is removed again. Rules are skipped only when a comment directive disables linting and nothing was reported. Every rule that exists for a kind of node runs at every node of that kind, every child of every node is visited, and a rule goes on after its first report. The severity of `dotted-keys-out-of-order` and `tables-out-of-order` is that of the comment directive if it gives one, else that of the configuration; the other rules report errors. A report of severity error (warn, off) becomes an error (a warning, nothing). The configured level of `key-empty` changes no other diagnostic.""",
 over=['inputs','configurations'], forall='every document, schema, comment directive and configured level',
 why='Tests lint small documents with one problem each; a report dropped on one path, a child or rule skipped at one kind of node, or a severity taken from the wrong option is invisible to them.',
 files=['crates/tombi-linter/src/linter.rs','crates/tombi-linter/src/diagnostic.rs','crates/tombi-linter/src/lint/value.rs','crates/tombi-linter/src/rule/tables_out_of_order.rs','crates/tombi-linter/src/rule/dotted_keys_out_of_order.rs'],
 mechanism=[('Linter::lint collects into diagnostics','crates/tombi-linter/src/linter.rs'),('Lint impls: Rule::check and child.lint()','crates/tombi-linter/src/lint/value.rs'),('SetDiagnostics by level','crates/tombi-linter/src/diagnostic.rs')],
 technique='path-sensitive accounting automaton over flattened MIR + traversal-completeness check over all impls + provenance of levels',
 note='The entry point is explored with every outcome of each source of diagnostics; every Lint and Rule implementation found in the program is explored; levels are classified by backward slices. '+BASE),
dict(id='P17', title='Formatting keeps every comment and every element',
 statement="""Whatever the document and options, the printer writes every part of the syntax tree that is there, exactly once and in source order: for the root, tables, arrays of tables, key-values, keys, arrays, inline tables, literals and comment groups alike, the leading, trailing, header, bracket and dangling comments, the keys, the values, all elements of every group, and the comments before and after a comma. A node with a comment inside its brackets is never printed in the single-line form (which has no room for it), except while a comment directive's own content is normalized. A comment is written to its end: apart from whitespace and the normalized content of `#:schema`, `#:tombi` and `# tombi:` directives, none of its characters is left out. Comments are skipped only while a width is being measured, and measuring leaves the text printed so far, the indentation and the modes as they were. Quotes are never changed on text that contains a backslash or the new quote character.""",
 over=['inputs','configurations'], forall='every node kind, every combination of parts present and absent, every option, every shape of comment',
 why='The formatting tests fix expected outputs for chosen layouts; a comment dropped only in one combination of comma, comment and alignment option shows in none of them.',
 files=['crates/tombi-formatter/src/format/comment.rs','crates/tombi-formatter/src/format/key_value.rs','crates/tombi-formatter/src/format/value/array.rs','crates/tombi-formatter/src/format/value/inline_table.rs','crates/tombi-formatter/src/formatter.rs','crates/tombi-ast/src/impls/inline_table.rs'],
 mechanism=[('Format impl per node writes each accessor','crates/tombi-formatter/src/format/value/array.rs'),('format_comment','crates/tombi-formatter/src/format/comment.rs'),('skip_comment / format_to_string','crates/tombi-formatter/src/formatter.rs'),('should_be_multiline','crates/tombi-ast/src/impls/inline_table.rs')],
 technique='path-sensitive completeness automaton over every Format implementation + provenance of what is written, over MIR',
 note='Every Format impl found in the program is explored for every presence combination of its accessors; what a write covers is decided by backward slices. Whether the accessors of the syntax tree themselves find every comment is not decided here. '+BASE),
dict(id='P32', title='Every document is read under the TOML version that applies to it',
 statement="""The TOML version in force for a document is that of its comment directive if it gives one, else that of its schema (the `[[schemas]]` entry of the configuration before the schema's own `x-tombi-toml-version`), else the configured one, else the default; this holds in the formatter, the linter and the language server, which also reports the right source. Every later use (schema context, document tree, rules, printing) gets the selected version. The command line and the web build start from the configured version; the language server formats and lints with the version stored for the document, which is resolved whenever the text of a document is replaced, so that after a change the stored version is the one the new text resolves to. Nowhere is a fixed version put in its place (except for Tombi's own configuration, comment directives and accessor patterns).""",
 over=['inputs','configurations','histories'], forall='every combination of given and missing directive, schema, schema entry and configuration, and every sequence of edits',
 why='Tests fix the version per test case; none combines all sources, and none edits a directive in an open document.',
 files=['crates/tombi-formatter/src/formatter.rs','crates/tombi-linter/src/linter.rs','crates/tombi-lsp/src/backend.rs','crates/tombi-lsp/src/handler/did_change.rs','crates/tombi-schema-store/src/schema/source_schema.rs'],
 mechanism=[('Formatter::format / Linter::lint select self.toml_version','crates/tombi-formatter/src/formatter.rs'),('text_document_toml_version_and_source','crates/tombi-lsp/src/backend.rs'),('SourceSchema::toml_version','crates/tombi-schema-store/src/schema/source_schema.rs')],
 technique='abstract interpretation with symbolic versions over flattened MIR + provenance of every version argument',
 note='Each source of a version is a symbol; the symbol reaching every use is compared with the documented precedence for every combination. '+BASE),
dict(id='P31', title='Keys and strings are decoded exactly as the TOML grammar says',
 statement="""For every string token and every TOML version: a string is decoded to exactly the characters the grammar assigns to it - each escape to its character (`\\e` and `\\xHH` only from TOML 1.1), unicode escapes with exactly the required number of hex digits, a line-ending backslash skips only spaces, tabs and newlines and needs a newline, every other character is copied exactly once - and a text the grammar rejects (unknown escape, control character, CR without LF) is an error. The delimiters are removed exactly, with at most one newline (LF or CRLF) after the opening delimiter of a multi-line string. Escapes written by the formatter when it changes quotes are read back as the same character under every version. A bare key contains only A-Z, a-z, 0-9, `_` and `-`. A newline or trailing comma in an inline table is reported exactly under TOML 1.0; seconds may be left out of a time only from TOML 1.1, and then mean `:00`. Every kind of string and key is decoded by the decoder of its own kind, and every decoding failure in the document tree is reported."""
 ,over=['inputs','configurations'], forall='every string, key and time token and every TOML version',
 why='The character-level decoder has unboundedly many inputs; tests sample some escapes, each under one version.',
 files=['crates/tombi-toml-text/src/lib.rs','crates/tombi-document-tree/src/support/chrono.rs','crates/tombi-document-tree/src/value/string.rs','crates/tombi-ast/src/impls/key.rs','crates/tombi-linter/src/rule/inline_table_toml_version.rs'],
 mechanism=[('parse_basic_string / parse_literal_string / try_from_*','crates/tombi-toml-text/src/lib.rs'),('try_new_* time parsing','crates/tombi-document-tree/src/support/chrono.rs'),('inline table version rule','crates/tombi-linter/src/rule/inline_table_toml_version.rs')],
 technique='abstract interpretation over character classes: product of the decoder MIR with a reference decoder automaton',
 note='Each decoder is explored over all sequences of character classes in product with the grammar; a decision of one that the other does not share is the violation. The treatment of a CR without LF after a line-ending backslash is left open. '+BASE),
dict(id='P19', title='A value is rejected exactly when its schema says so, with every reason given',
 statement="""When a value is validated against a schema, each keyword decides as JSON Schema defines it. Scalars: const, enum, minimum, maximum, exclusiveMinimum, exclusiveMaximum, multipleOf, minLength, maxLength (counted in graphemes), pattern, and every string format by its own checker. Arrays: minItems, maxItems, uniqueItems, items, prefixItems, additionalItems, contains, minContains, maxContains, unevaluatedItems. Tables: minProperties, maxProperties, required, properties, patternProperties, additionalProperties, propertyNames, dependencies, dependentRequired, dependentSchemas, unevaluatedProperties, and the strict mode. A violated keyword makes the result a failed assertion, even if its report is switched off, and is reported once per offending element, at the severity of its own lint rule where it has one; a satisfied keyword, alone or beside any other one, reports nothing and fails nothing. A failure or warning of an applied subschema is kept, whatever else happened. allOf fails if any member fails, anyOf if none succeeds, oneOf unless exactly one succeeds, not if its schema succeeds, if/then/else by the branch selected; a result that only carries warnings counts as success; applicators next to other keywords are all applied and their results kept. Every kind of value under every kind of schema is handed to the validator of that kind; another type, or a schema that allows nothing, is an error. Reading a schema, the value of each keyword arrives unchanged in the place from which it is applied, each type name makes the schema of that type, and `oneOf`, `anyOf`, `allOf` and `not` beside other keywords are read wherever they are given."""
 ,over=['inputs','configurations'], forall='every value, every schema keyword and every pair of keywords, every outcome of every subschema',
 why='The combinations of keywords, outcomes of subschemas and severities are far more than the schema tests sample; a flag that is overwritten instead of accumulated fails only when two conditions meet.',
 files=['crates/tombi-validator/src/validate.rs','crates/tombi-validator/src/validate/table.rs','crates/tombi-validator/src/validate/array.rs','crates/tombi-validator/src/validate/string.rs','crates/tombi-validator/src/validate/one_of.rs','crates/tombi-validator/src/validate/any_of.rs','crates/tombi-validator/src/validate/all_of.rs','crates/tombi-validator/src/validate/if_then_else.rs','crates/tombi-schema-store/src/schema/schema_view.rs','crates/tombi-schema-store/src/schema/semantic_schema.rs','crates/tombi-schema-store/src/schema.rs'],
 mechanism=[('Validate impls dispatch on the schema view','crates/tombi-validator/src/validate/value.rs'),('validate_table / validate_array / validate_string','crates/tombi-validator/src/validate/table.rs'),('validate_one_of / any_of / all_of / not / if_then_else','crates/tombi-validator/src/validate/one_of.rs'),('Invalid { assertion_failed, diagnostics }','crates/tombi-validator/src/invalid.rs'),('*Schema::new, SchemaView::new_single, adjacent_applicators','crates/tombi-schema-store/src/schema/schema_view.rs')],
 technique='focused path-sensitive abstract interpretation: assumed keyword outcomes against the result and reports computed over flattened MIR; provenance slices of the fields a schema is read into',
 note='For every keyword, every pair of keywords, every outcome of every kind of subschema and every kind of value and schema, the validator MIR is explored under that assumption and its result compared with the definition. For every field of every structure a schema is read into, a backward slice shows which keywords its value comes from. Not decided: the arithmetic of multipleOf with tolerance, the format checkers themselves, which locations count as evaluated, and the projection of schemas to instance types. '+BASE),
dict(id='P08', title='The language server works on the last text the editor sent, and says which',
 statement="""In the language server, a stored document is coherent: its line index, syntax tree, document tree and errors come from the text and TOML version stored with them. didOpen stores the text and version of the notification; didChange stores the last full content change together with its version and drops no edit, whatever the handlers running at the same time wait for. A text is stored in order of arrival, or else only after checking, under the same lock, that the document is still at the version or text the work started from, or absent, or not open in the editor; an open document is never removed or replaced by what is on disk. Diagnostics, published or returned, carry the version of the text they were computed from; a cached result is returned or stored only while the document is at that version; cached results are dropped whenever the text (open, change, save, watched files) or the editor, configuration or schema settings change. On didClose, on every path, the document is no longer marked open and its cached diagnostics are dropped. A document read from disk has no version."""
 ,over=['histories','schedules'], forall='every order of notifications and requests, and every point at which a handler waits',
 why='Handlers run concurrently and wait for schemas from the network; an edit lost or a stale result returned needs a particular interleaving that no test schedules.',
 files=['crates/tombi-lsp/src/document.rs','crates/tombi-lsp/src/diagnostic.rs','crates/tombi-lsp/src/backend.rs','crates/tombi-lsp/src/workspace_diagnostic.rs','crates/tombi-lsp/src/workspace_diagnostic/cache.rs','crates/tombi-lsp/src/handler/did_open.rs','crates/tombi-lsp/src/handler/did_change.rs','crates/tombi-lsp/src/handler/did_close.rs','crates/tombi-lsp/src/handler/did_save.rs','crates/tombi-lsp/src/handler/diagnostic.rs'],
 mechanism=[('DocumentSource::new / set_text','crates/tombi-lsp/src/document.rs'),('handle_did_open / handle_did_change','crates/tombi-lsp/src/handler/did_change.rs'),('get_diagnostics_result / publish','crates/tombi-lsp/src/diagnostic.rs'),('WorkspaceDiagnosticsCache','crates/tombi-lsp/src/workspace_diagnostic/cache.rs')],
 technique='typestate by path exploration of every function that touches stored documents (lock held, waited, compared, cached); provenance of derived fields',
 note='Every function that creates, replaces, versions, closes or removes a document is explored over all paths with the state of the document lock, of what was awaited before taking it and of what was compared under it. The optimistic text stored by a formatting request (replaced only while the text is unchanged) is not required to drop cached results. Not decided: that lints of other open documents are recomputed when a file they refer to changes. '+BASE),
dict(id='P33', title='Keys and tables cannot be defined twice, and only then is it an error',
 statement="""A document that defines a key twice is rejected, in every combination of ways to define it: a value or a static array is never defined again by anything; a table defined by its header is not defined by another header, an inline table, or dotted keys of another table; a table made by dotted keys is not defined by a header or an inline table; an inline table is neither extended nor redefined; a table implied by a longer header is not redefined by an inline table. The combinations TOML allows are merged without an error: a header for a table so far only implied, further sub-tables, dotted keys that extend a table made by dotted keys or only implied so far, another element of an array of tables, and headers that go through an array of tables, which extend its last element. Keys that denote the same text are the same key however they are quoted. Every part of a document ends up in its tree, and every error found in a part is among the errors of the whole document."""
 ,over=['inputs'], forall='every pair of ways to define the same key and every error in every part of a document',
 why='Duplicate definitions arise from every pair of table kinds at every depth; the tests contain some of the pairs, and three of them were decided wrongly.',
 files=['crates/tombi-document-tree/src/value/table.rs','crates/tombi-document-tree/src/value/array.rs','crates/tombi-document-tree/src/root.rs','crates/tombi-document-tree/src/key.rs'],
 mechanism=[('Table::merge / Table::insert','crates/tombi-document-tree/src/value/table.rs'),('Array::merge','crates/tombi-document-tree/src/value/array.rs'),('into_document_tree_and_errors of every node','crates/tombi-document-tree/src/root.rs')],
 technique='inductive path exploration: every pair of kinds of definitions assumed, outcome of the merge MIR compared with the TOML rules; set-valued flow of error lists',
 note='Table::merge, Table::insert and Array::merge are explored for every pair of kinds of the tables, and of the values under a common key, with nested merges replaced by the same rules (induction on depth). Every builder of the tree is explored once per fallible part, that part failing. Not decided: which preceding headers a header finds as its array of tables. '+BASE),
dict(id='P15', title='Text is split into tokens exactly where the TOML grammar ends them',
 statement="""For every document the lexer's tokens tile the text: each starts where the one before ends and covers every byte of the characters consumed, the parser hands every token on (white space and comments included), and none is stepped over. Where TOML has a token, the token read ends where the grammar ends it and has its kind: runs of spaces and tabs, line feeds and carriage return with line feed, comments up to the line end, punctuation, bare keys up to the next separator, the words true, false, inf and nan only as whole words, single-line strings up to the first quote that is not escaped (an escaped backslash escapes nothing) and never across a line end, multi-line strings up to the three quotes that end them with up to two more quotes belonging to the text, integers of every base, floats, dates and times; digits that are none of these are bare keys. An error token is only produced where no token of TOML could be."""
 ,over=['inputs'], forall='every text at every position, of any length and any mix of character classes',
 why='The lexer decides on characters ahead and on several expressions in order; tests sample some texts per kind, and one kind of ending of multi-line strings was read wrongly.',
 files=['crates/tombi-lexer/src/lib.rs','crates/tombi-lexer/src/cursor.rs','crates/tombi-parser/src/parser.rs'],
 mechanism=[('Cursor::advance_token and the readers it calls','crates/tombi-lexer/src/lib.rs'),('bump, eat_while, pop_span_range','crates/tombi-lexer/src/cursor.rs'),('do_bump, bump_float_key','crates/tombi-parser/src/parser.rs')],
 technique='abstract interpretation of the lexer MIR against a reference tokenizer; regular-language inclusion for its expressions; flow analysis of the cursor',
 note='The text is unbounded: only the characters looked at and not yet consumed are known, one representative per class of characters the code and the grammar tell apart. What the expressions for numbers and dates say is kept as a set of regular languages; at each return a word of a TOML language consistent with it and read as something else is searched by product automata. Not decided: which characters outside ASCII are bare keys, and how a token that is no TOML is cut. '+BASE),
dict(id='P12', title='Parsing ends on every input and leaves no part of the text out',
 statement="""The parser finishes on every sequence of tokens, valid or not: no loop and no recursion of it goes round without consuming a token, and every recursion is bounded by a limit on nesting that is checked before going deeper, so deep input is reported instead of exhausting the stack. Every token up to the end of the text is consumed by some node, the end of the text never is, and every node that is started is completed or abandoned exactly once, so that the tree built from the events contains the whole text. No token sequence makes the parser panic or fail one of its assertions.""",
 over=['inputs'], forall='every sequence of tokens, however malformed',
 why='An endless loop or a lost token needs a malformed document of a particular shape at the place where recovery gives up; tests contain a few hundred shapes.',
 files=['crates/tombi-parser/src/parser.rs','crates/tombi-parser/src/marker.rs','crates/tombi-parser/src/parse/root.rs','crates/tombi-parser/src/parse/table.rs','crates/tombi-parser/src/parse/key_value.rs','crates/tombi-parser/src/parse/key.rs','crates/tombi-parser/src/parse/value.rs','crates/tombi-parser/src/parse/array.rs','crates/tombi-parser/src/parse/inline_table.rs'],
 mechanism=[('Parser::{nth,at_ts,bump,eat}','crates/tombi-parser/src/parser.rs'),('Marker::{complete,abandon}','crates/tombi-parser/src/marker.rs'),('Parse for Root: loop until EOF','crates/tombi-parser/src/parse/root.rs'),('nesting limit in arrays and inline tables','crates/tombi-parser/src/parse/value.rs')],
 technique='typestate exploration over token windows with procedure summaries; search of the state graph for cycles that consume no token; call graph of the recursion',
 note='Each parsing procedure is explored from every token it can start at, other procedures replaced by what was found about them, with a window of at most five tokens of lookahead. Only the parser is covered: later passes over the syntax tree recurse along nesting (which the parser bounds) and along dotted keys (which nothing bounds). '+BASE),
dict(id='P09', title='The language server never deadlocks: one lock order, nothing waited for twice',
 statement="""Whatever requests, notifications and background tasks of the language server run at the same time, they never block one another for ever: no task waits for a lock it already holds itself; any two locks that are ever held together (documents, configurations, the default configuration, associated schemas, schema stores, caches of the extensions and of remote JSON, diagnostics caches, background tasks) are taken in one and the same order by everybody, over every chain of calls; a lock inside a schema is not written while the same task still holds such a lock; and no lock is held while the server waits for an answer of the editor or for what another task does. So every request is answered.""",
 over=['schedules','histories'], forall='every interleaving of requests and background tasks, every chain of calls under a lock',
 why='A deadlock needs two tasks to meet at the wrong moment, or a schema of the right shape under a guard that lives a line too long; tests send one request at a time.',
 files=['crates/tombi-lsp/src/config_manager.rs','crates/tombi-lsp/src/backend.rs','crates/tombi-lsp/src/handler/did_save.rs','crates/tombi-lsp/src/handler/did_change.rs','crates/tombi-lsp/src/goto_type_definition/value/table.rs','crates/tombi-schema-store/src/store.rs','crates/tombi-schema-store/src/schema/table_schema.rs','crates/tombi-extension/src/json_cache.rs','extensions/tombi-extension-cargo/src/workspace.rs'],
 mechanism=[('the RwLocks of ConfigManager','crates/tombi-lsp/src/config_manager.rs'),('Backend.document_sources and its caches','crates/tombi-lsp/src/backend.rs'),('TableSchema::resolve_property_schema','crates/tombi-schema-store/src/schema/table_schema.rs'),('get_or_load_json','crates/tombi-extension/src/json_cache.rs')],
 technique='lock-order analysis: guard liveness (may-dataflow over MIR) + interprocedural acquisition summaries, cycle and self-wait search',
 note='Locks are told apart by the type they protect. A guard counts as held from where it is made to where it is dropped or moved away; a call under it counts with every lock the callee and the futures it makes may wait for, except in tasks it spawns. Locks of schema nodes (one per node of a schema) are only checked for writers; nested reading of them is counted, not judged: a queued writer between two reads of one node by the same task is not excluded. Locks that are tried, not waited for, count as held only. Starvation and the time a lock is held are not decided. '+BASE),
dict(id='P10', title='A feature that is switched off does nothing, one left on works',
 statement="""Each switch of the configuration for a language-server feature or an extension (lsp.<feature>.enabled; the extension as a whole, its lsp group, each feature group and each single feature below them) does what it says in the request it is about. With a feature of the server off, the request answers with nothing and asks no extension. With an extension, its lsp group or a feature group off, that extension answers the request with nothing for every document and cursor position. Switching anything off only ever leaves work out: nothing is done only because a feature is off, except withdrawing diagnostics shown before. No extension's switch takes away what another extension does. Every switch that can be written in the configuration has an effect. A switch that is not mentioned counts as its default, which is on unless documented otherwise.""",
 over=['inputs'], forall='every switch, every request handler, every document and position',
 why='There are about eighty switches, nested three deep, read in nineteen handlers with twelve-line chains that are copied from each other; a chain naming the wrong switch compiles and passes every test that does not combine that switch with that request.',
 files=['crates/tombi-config/src/lib.rs','crates/tombi-config/src/extensions.rs','crates/tombi-config/src/server.rs','crates/tombi-lsp/src/backend.rs','crates/tombi-lsp/src/handler/hover.rs','crates/tombi-lsp/src/handler/completion.rs','crates/tombi-lsp/src/handler/goto_definition.rs','crates/tombi-lsp/src/handler/goto_declaration.rs','crates/tombi-lsp/src/handler/references.rs','crates/tombi-lsp/src/handler/document_link.rs','crates/tombi-lsp/src/handler/inlay_hint.rs','crates/tombi-lsp/src/handler/code_action.rs','extensions/tombi-extension-cargo/src/lib.rs','extensions/tombi-extension-pyproject/src/lib.rs','extensions/tombi-extension-tombi/src/lib.rs'],
 mechanism=[('extension_features! and toggle_features!','crates/tombi-config/src/extensions.rs'),('Config::{cargo,pyproject,tombi}_extension_enabled','crates/tombi-config/src/lib.rs'),('the LanguageServer methods','crates/tombi-lsp/src/backend.rs'),('cargo_goto_declaration_enabled and its likes','extensions/tombi-extension-cargo/src/goto_declaration.rs')],
 technique='differential abstract interpretation of the compiled handlers: one switch assumed on, off or absent, all calls made under the one compared with those made under the other',
 note='The switches are read off the configuration types, so a new one is covered when it appears. "Does" means the calls reachable in the handlers and in every function of the server and the extensions that looks at a switch, directly or through what it calls. Not decided: what the answers contain, and switches of single features whose requests are told apart only by the cursor position (that such a switch has some effect in its request is decided, not that the effect is the right one). Prefetching when a document is opened is only checked for doing nothing extra. '+BASE),
]
