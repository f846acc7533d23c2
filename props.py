#!/usr/bin/env python3
"""The properties; `python3 props.py` writes properties.jsonl and MANIFEST.json."""
import json, os

P = []
NA = [
    dict(property='C70', reason='The deciding code is file-system calls (write, rename, modification time) behind tokio\'s blocking thread pool; the executor has no file system or threads, and a model of them in place of the real calls would decide nothing about crash points. The pure parts (reading what was fetched) are covered by C20.'),
    dict(property='C71', reason='The handlers are asynchronous functions scheduled by tokio over locks of several crates. The executor polls one future at a time; making the scheduler\'s choices symbolic needs the multi-threaded runtime, which is outside its reach. Sequential histories are covered by C45.'),
    dict(property='C72', reason='The walk (walk_dir.rs) is directory reads on several threads, that is, operating-system calls; without a symbolic file system nothing can be encoded.'),
]
V = os.path.dirname(os.path.abspath(__file__))


def prop(id, title, statement, over, text, why, files, mech, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mech]), _note=note))


def na(id, title, statement, over, text, why, files, mech, reason):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=files[0]) for m in mech])))
    NA.append(dict(property=id, reason=reason))


IN = ['inputs']
CFG = ['inputs', 'configurations']
ORACLE = 'Oracle: the independent TOML reader in harness/vref, written from the TOML specification. '

prop('C01', 'Lexing loses nothing',
     'Splitting any text into tokens never fails or hangs: the tokens are non-empty, follow each other without gap or overlap, start and end on character boundaries and together cover the whole text. Text that is no token is reported by exactly one error per invalid token.',
     IN, 'every text (well-formed or not)',
     'The lexer tests compare token lists of about a hundred hand-written lines; whether bytes can be lost, duplicated or looped over depends on every combination of characters at token boundaries.',
     ['crates/tombi-lexer/src/lib.rs', 'crates/tombi-lexer/src/cursor.rs'], ['lex', 'Lexed::push_result', 'Cursor::pop_span_range'],
     'no oracle is needed: the assertions compare the tokens with the text itself.')
prop('C02', 'Parsing always yields a tree that reproduces the source',
     'Parsing any text terminates without panic and yields a syntax tree, whatever the errors; the concatenation of the tree\'s tokens in order is exactly the source text, so every tool working on the tree can reproduce the document byte for byte.',
     IN, 'every text (well-formed or not)',
     'The parser tests use well-formed samples and a few errors; error recovery, where text gets lost or a parser loops, depends on what follows an error.',
     ['crates/tombi-parser/src/parse', 'crates/tombi-parser/src/builder.rs', 'crates/tombi-parser/src/output.rs', 'crates/tombi-rg-tree/src/green/builder.rs'],
     ['parse', 'build_green_tree', 'Parser::bump', 'SyntaxTreeBuilder'],
     'no oracle is needed: the tree is compared with the text itself.')
prop('C03', 'Reported positions are the positions in the text',
     'The line and column range of every token, syntax-tree element and syntax error is the place of that text in the document, columns counting user-perceived characters (grapheme clusters) and lines ending at LF or CRLF. Looking an element up by position finds what looking it up by byte offset finds.',
     IN, 'every text, including multi-byte and combining characters, every position in it',
     'Tests fix a few ASCII positions; the arithmetic is relative and split between lexer, tree and text library, and differs only for particular combinations of line endings, multi-line tokens and characters.',
     ['crates/tombi-text/src/position.rs', 'crates/tombi-text/src/relative_position.rs', 'crates/tombi-rg-tree/src/cursor.rs', 'crates/tombi-lexer/src/cursor.rs'],
     ['RelativePosition::of', 'NodeData::range', 'token_at_offset', 'token_at_position', 'Cursor::pop_span_range'],
     'positions are recomputed from the text by a direct scan; grapheme clusters occurring in the bound: ASCII, precomposed, combining, emoji with modifier, ZWJ sequences.')
prop('C04', 'Exactly the documents the TOML specification allows are accepted',
     'A document is reported as having a syntax or value error if and only if the TOML specification of the selected version (v1.0.0 or v1.1.0) rejects it: valid strings, numbers, date-times, keys, arrays, inline tables, headers and comments pass without an error, everything malformed is reported.',
     CFG, 'every document, both TOML versions',
     'The toml-test suite samples some 700 documents; acceptance must be right for every neighbouring character combination (digit separators, escapes, delimiters, control characters, date fields).',
     ['crates/tombi-lexer/src/lib.rs', 'crates/tombi-parser/src/parse', 'crates/tombi-document-tree/src/value', 'crates/tombi-toml-text/src', 'crates/tombi-date-time/src', 'crates/tombi-linter/src'],
     ['lex', 'parse', 'try_from_node / try_new of every literal', 'Linter::lint'],
     ORACLE + 'Where v1.0.0 or v1.1.0 leave room (a bare CR in a comment, for instance) the oracle answers "ambiguous" and the path is dropped.')
prop('C05', 'Values are decoded as the specification says',
     'In every accepted document each key and scalar has the value the TOML specification gives it: escapes, line continuations, first-newline trimming and newline normalisation in strings, integer radix and separators, floats, booleans, and the fields of date-times.',
     CFG, 'every valid document, both TOML versions',
     'Decoding tests list single literals; interactions of escapes, quotes and newlines inside one string and of separators inside one number are unbounded.',
     ['crates/tombi-toml-text/src', 'crates/tombi-document-tree/src/value', 'crates/tombi-date-time/src/private'],
     ['try_from_basic_string', 'try_from_multi_line_basic_string', 'try_from_decimal', 'try_from_float', 'OffsetDateTime::from_str'],
     ORACLE)
prop('C06', 'Tables, dotted keys and arrays of tables combine as specified',
     'Documents built from headers, arrays of tables, dotted keys and inline tables are accepted exactly if the TOML specification allows the combination, and decode to the table structure it prescribes; duplicate or conflicting definitions are always reported.',
     CFG, 'every sequence of headers and key/value pairs, both TOML versions',
     'Conflicts depend on the history of definitions and their kinds (header, implied, dotted, inline, static array), which multiplies out; the tests check single pairs.',
     ['crates/tombi-document-tree/src/value/table.rs', 'crates/tombi-document-tree/src/value/array.rs', 'crates/tombi-document-tree/src/root.rs', 'crates/tombi-ast/src/impls/table.rs'],
     ['Table::merge', 'Table::insert', 'Array::merge', 'parent_array_of_tables_keys'],
     ORACLE)
prop('C10', 'Formatting never changes the data',
     'Formatting a valid document under any formatting options yields a valid document that decodes to the same data (keys, table structure, values, array order).',
     CFG, 'every valid document, every combination of formatting options',
     'Snapshot tests show one output per sample; that no rewrite (quote style, date-time delimiter, line folding, comments, alignment) changes meaning concerns every document and option.',
     ['crates/tombi-formatter/src/format', 'crates/tombi-formatter/src/formatter.rs', 'crates/tombi-ast-editor/src'],
     ['Formatter::format', 'Format for BasicString', 'Format for Array', 'Format for InlineTable'],
     ORACLE + 'Floats are compared as text values. No schema is involved (C15 covers schema ordering).')
prop('C11', 'Formatting is idempotent',
     'Formatting the output of the formatter again with the same options changes nothing.',
     CFG, 'every valid document, every combination of formatting options',
     'Snapshot tests feed few outputs back; instability appears for particular combinations of comments, blank lines, widths and nesting.',
     ['crates/tombi-formatter/src/format', 'crates/tombi-formatter/src/formatter.rs', 'crates/tombi-ast/src/support/comment.rs'],
     ['Formatter::format', 'group_blank_lines', 'format_comment', 'trailing-comment alignment'],
     'the formatter is run twice on the same path.')
prop('C12', 'Formatting keeps every comment',
     'Every comment of a valid document appears in the formatted document exactly once and in the same order, with the same text apart from blanks at its ends (and inside tombi directives).',
     CFG, 'every valid document, every combination of formatting options',
     'A comment can sit before, inside or after any construct, next to any separator; tests place a few.',
     ['crates/tombi-formatter/src/format', 'crates/tombi-ast/src/support/comment.rs', 'crates/tombi-parser/src/parse'],
     ['format_comment', 'dangling_comment_groups', 'leading_comments', 'trailing_comment', 'value_with_comma_groups'],
     'comments are extracted from both texts by an independent scanner.')
prop('C13', 'Formatted text has one line-ending style and clean layout',
     'Non-empty formatted text ends with exactly one newline, starts with no blank line, has no trailing blanks, and uses one line ending throughout (the configured one, or CRLF exactly if the document contains CRLF), apart from the contents of multi-line strings.',
     CFG, 'every valid document, every combination of formatting options',
     'Tests sample LF documents; line ends are written from dozens of places in the formatter.',
     ['crates/tombi-formatter/src/formatter.rs', 'crates/tombi-formatter/src/format', 'crates/tombi-lexer/src/cursor.rs'],
     ['write_line_ending', 'line_ending', 'Cursor::line_ending'],
     'layout is checked on the text with strings blanked out.')
prop('C14', 'The formatter refuses exactly the documents with syntax errors',
     'Formatting any text never panics or hangs; it fails exactly if parsing the text reports a syntax error, and then returns the errors and no text, so a malformed document is never rewritten.',
     CFG, 'every text, every combination of formatting options',
     'Panics and lost errors need particular malformed documents or option values.',
     ['crates/tombi-formatter/src/formatter.rs', 'crates/tombi-formatter/src/format'],
     ['Formatter::format', 'Formatter::format_with_errors'],
     'panics, arithmetic overflow, out-of-bounds and unreachable code on any explored path are reported.')


prop('C15', 'Sorting by schema or directive gives exactly the order asked for and loses nothing',
     'Where a schema (x-tombi-table-keys-order, x-tombi-array-values-order, x-tombi-array-values-order-by, with groups, combinators and references) or a comment directive (format.rules.table-keys-order, format.rules.array-values-order) asks for an order, formatting puts the keys and values into that order (ascending, descending, version-sort, schema) and leaves the rest where it was; sorting is stable, keeps every comment with the key or value it belongs to, keeps the data except for that order, and a second run changes nothing.',
     CFG, 'every document, every schema and directive',
     'Tests sort a handful of documents; orders interact with dotted keys, out-of-order tables, arrays of tables, quoted keys, groups, comments and commas.',
     ['crates/tombi-ast-editor/src/rule', 'crates/tombi-ast-editor/src/edit', 'crates/tombi-ast-editor/src/lib.rs', 'crates/tombi-formatter/src/formatter.rs', 'crates/tombi-schema-store/src/schema'],
     ['table_keys_order', 'array_values_order', 'inline_table_keys_order', 'root_table_keys_order', 'sort_table_targets', 'AstEditor::edit'],
     ORACLE + 'The reference sorter (vref::sort) works on the decoded data and the JSON form of the schema and shares no code with the formatter. Left out, because the documentation does not define them: the order of allOf siblings with different orders, a root order disabled by a directive next to orders of sub-tables, and values that cannot be compared.')


prop('C20', 'Schema validation agrees with JSON Schema',
     'A TOML document is reported as invalid under a schema exactly if the JSON value it denotes is invalid under that schema as JSON Schema defines (dialect declared by $schema, non-strict mode): type, numeric, string, array and object assertions, enum and const, applicators (properties, patternProperties, additionalProperties, items, prefixItems, contains, allOf, anyOf, oneOf, not, if/then/else, dependent*), unevaluated* and local $ref.',
     CFG, 'every document and every schema of the supported dialects',
     'The JSON Schema test suite samples single keywords on single values; keywords interact with each other, with nesting and with the shape in which the TOML document spells the value (headers, dotted keys, inline tables, arrays of tables).',
     ['crates/tombi-validator/src/validate', 'crates/tombi-validator/src/validate.rs', 'crates/tombi-schema-store/src/schema', 'crates/tombi-schema-store/src/store.rs', 'crates/tombi-linter/src/linter.rs'],
     ['validate', 'validate_integer', 'validate_table', 'validate_array', 'validate_one_of', 'validate_adjacent_applicators', 'SchemaView::new', 'Referable::resolve'],
     'oracle: an independent JSON reader and JSON Schema evaluator in harness/vref (js.rs), applied to the data the independent TOML reader yields.')

prop('C21', 'Lint rules report exactly what they describe, and directives turn them off',
     'The lint rules key-empty, dotted-keys-out-of-order and tables-out-of-order report a key or header exactly if it is an empty key, or if the dotted keys (headers) of the same parent are not next to each other; a report lies on the key it is about; directives (lint.rules.X.disabled, in the place the documentation names) turn off that rule for that table only, and every other report stays.',
     CFG, 'every document',
     'Tests show each rule on one or two documents; the rules depend on the table structure of the whole document, on how keys are spelled and on where directives stand.',
     ['crates/tombi-linter/src/rule', 'crates/tombi-linter/src/lint', 'crates/tombi-linter/src/linter.rs', 'crates/tombi-comment-directive-serde', 'crates/tombi-comment-directive-store'],
     ['KeyEmptyRule', 'DottedKeysOutOfOrderRule', 'TablesOutOfOrderRule', 'get_comment_directive_content'],
     ORACLE + 'The containers and their keys, in document order, come from the independent reader (vref::layout).')

prop('C22', 'A directive suppresses exactly the rule it names at the value it belongs to',
     'A comment directive `# tombi: lint.rules.X.disabled = true` removes the reports of rule X at the value it belongs to and changes no other report; a directive that suppresses nothing is reported as unused, and one that does suppress something is not.',
     CFG, 'every document, every schema, every rule of the validator',
     'Each rule has its own code to read its directive, in every type of value; tests cover single rules at single places, not that the other reports stay.',
     ['crates/tombi-validator/src/validate', 'crates/tombi-validator/src/comment_directive', 'crates/tombi-document-tree/src/value', 'crates/tombi-comment-directive/src/value'],
     ['validate_integer', 'validate_float', 'validate_string', 'validate_table', 'validate_array', 'handle_unused_noqa', 'get_tombi_table_comment_directive_and_diagnostics', 'push_diagnostic_with_level'],
     'oracle: the same document with the directive turned into an ordinary comment of the same length. `unused` is checked where the schema does not use the keyword at all.')

prop('C07', 'Keys and strings that tombi writes read back unchanged',
     'Any text that tombi writes as a basic string is a valid TOML string of every version and decodes to that text; any text written as a key is one valid key denoting that text (apart from the `${...}` placeholders, which are written as they are).',
     IN, 'every string',
     'Tests write a few keys and strings; each character has its own escape, and keys switch between bare and quoted.',
     ['crates/tombi-toml-text/src/lib.rs'], ['to_basic_string', 'to_key_string', 'try_from_bare_key', 'try_from_basic_string'],
     ORACLE + 'The tombi decoder is checked as well.')
prop('C23', 'Directives at the head of a document act as the options they name',
     'The directives `#:tombi ...` in the first comments of a document (toml-version, format.disabled, lint.disabled, schema.strict) have exactly the effect of the corresponding option; the same lines elsewhere in the document have none; a directive that is unknown, malformed or given twice is reported by linting.',
     'the directive lines, their position and the document', 'every directive, every document',
     'Tests try a handful of heads; whether a directive counts depends on the comments and blank lines around it.',
     ['crates/tombi-comment-directive/src', 'crates/tombi-validator/src/comment_directive', 'crates/tombi-linter/src/linter.rs', 'crates/tombi-formatter/src/formatter.rs'],
     ['get_tombi_document_comment_directive', 'get_tombi_document_comment_directive_and_diagnostics', 'Linter::lint', 'Formatter::format'],
     'oracle: what the same document without the directive gives with the corresponding option. Not claimed: effects of a head that contains a malformed directive.')

prop('C30', 'Configured files, overrides and rules decide what is formatted and linted, and how',
     'A file is handled exactly if it matches a pattern of files.include and none of files.exclude, relative to the directory of the configuration; the first override that matches the file decides whether it is formatted or linted at all, its rules take precedence over those of the base configuration, and rules it does not set keep their base value.',
     'the configuration, the path of the document and the path of the configuration', 'every configuration, every path',
     'Matching, choosing an override and merging each of two dozen options are separate hand-written code; tests cover a few of the combinations.',
     ['crates/tombi-glob/src', 'crates/tombi-config/src'], ['matches_file_patterns', 'get_format_options', 'get_lint_options', 'FormatRules::merge', 'LintRules::merge', 'config_base_dir', 'serde_tombi::config::from_str'],
     'oracle: own pattern matcher, and the configuration read by the reference reader; the expected options are what the merged text of the rules gives when it is read.')

prop('C31', 'Each schema applies exactly where the configuration says, with the settings it says',
     'The first [[schemas]] entry without root that matches the file, or else the first catalog entry, is the schema of the document (a #:schema directive replaces it); an entry with root applies exactly to the values at that path, whatever the schema above says about them, the most specific path winning; strict and the level of deprecated come from the entry, its overrides, the document\'s directive and the global setting, in the documented order.',
     'the configuration, the catalogs, the path of the document, and the document', 'every configuration, every path, every document',
     'Choosing entries, matching paths of keys and indices, and handing the settings down are spread over the schema store and the validator; tests use one entry at a time.',
     ['crates/tombi-schema-store/src/store.rs', 'crates/tombi-schema-store/src/schema', 'crates/tombi-accessor/src/pattern_accessor.rs', 'crates/tombi-validator/src/validate'],
     ['SchemaStore::load_config', 'resolve_source_schema_from_path', 'resolve_source_schema_from_ast', 'matches_schema_patterns', 'PatternAccessor::parse', 'pattern_match_score', 'get_subschema', 'SchemaContext::strict', 'deprecated_lint_level'],
     'five schemas, each of which refuses the same numbers with a code of its own, show which of them applies where; oracle: an own walk over the document with own matching of files and paths.')

prop('C33', 'Configured orders sort exactly the tables and arrays they name',
     'Formatting sorts the keys of a table (the values of an array) as the comment directive at it asks, or else the most specific [[schemas.overrides]] whose targets match its path (an order, "enabled", or "disabled"), or else the schema that applies there, unless the entry switches the schema\'s order off; everything no rule names keeps the order of the text.',
     'the configuration of the entries, their overrides, the schemas and the document', 'every configuration, every document',
     'Order rules reach tables through headers, dotted keys, inline tables, arrays and sub-schemas, each sorted by code of its own; tests take one at a time.',
     ['crates/tombi-ast-editor/src', 'crates/tombi-schema-store/src/schema', 'crates/tombi-schema-store/src/store.rs', 'crates/tombi-config/src'],
     ['root_table_keys_order', 'table_keys_order', 'get_sorted_accessors', 'inline_table_keys_order', 'array_values_order', 'table_order_override', 'array_order_override', 'schema_table_keys_order_enabled', 'get_subschema'],
     'oracle: own walk which computes the order that the configuration gives each table and array, and vref::sort, which sorts by it.')

prop('C32', 'Version sorting is the documented total order',
     'version-sort compares names as the Rust style guide describes, extended by version operators: digit runs of any length by value, separators before other characters, operators first, leading zeros last; it is antisymmetric and transitive, and equal only for names that differ in nothing but `-` and `_`.',
     IN, 'every pair and triple of names',
     'Tests sort a dozen lists; order laws and digit runs concern all combinations, and a comparison that is no total order makes the sort panic.',
     ['crates/tombi-version-sort/src/lib.rs'], ['version_sort', 'VersionChunkIter::next', 'check_version_operator_at'],
     'oracle: an independent comparison written from the style guide; the order laws need none.')
prop('C41', 'Positions translate exactly between the document and the editor',
     'A position of the document and the LSP position it is reported as name the same place in every negotiated encoding (UTF-8, UTF-16, UTF-32): translating forth and back is the identity, columns inside a character go to its start, columns beyond the line end to the line end.',
     CFG, 'every text, every position, three encodings',
     'Tests convert a handful of positions in lines with one emoji; edits and diagnostics go wrong for particular mixes of character widths and line ends.',
     ['crates/tombi-text/src/features/lsp'], ['LineIndex::from_arc', 'Position::from_lsp', 'take_column_text', 'EncodingKind::measure'],
     'widths and clusters are recomputed by a direct scan.')
prop('C50', 'JSON schemas are read as JSON says',
     'The JSON reader accepts every JSON text (RFC 8259, line breaks LF or CRLF) and refuses every other text, except that a comma may precede a closing bracket, and lone surrogates and duplicate names are refused; strings, integers of 64 bits, fractions, nesting and the order of names are read exactly, and every token has its place in the text.',
     IN, 'every JSON and non-JSON text',
     'Tests parse some forty samples; escapes, surrogate pairs, number syntax and separators combine freely.',
     ['crates/tombi-json/src/parser.rs', 'crates/tombi-json-lexer/src/lib.rs', 'crates/tombi-json-lexer/src/cursor.rs', 'crates/tombi-json-value/src/number.rs'],
     ['parse', 'lex', 'Parser::parse_string', 'Cursor::number', 'Number::from_f64'],
     'oracle: an independent JSON reader in harness/vref (js.rs), written from RFC 8259.')

prop('C60', 'Serialized values read back unchanged',
     'Serializing a value (structs, maps, sequences, enums, options, integers of 64 bits, floats, strings, date-times, nested in any way) yields a TOML document that is valid and denotes exactly that value; a value TOML cannot represent is refused.',
     IN, 'every value of the serde data model whose root is a table',
     'Tests serialize a dozen structs; whether a value is written inline, under a header or as an array of tables depends on the shapes of its neighbours, and every character of keys and strings matters.',
     ['rust/serde_tombi/src/ser.rs', 'rust/serde_tombi/src/document.rs', 'crates/tombi-document/src', 'crates/tombi-formatter/src'],
     ['to_string_async', 'ValueSerializer', 'to_tombi_text', 'Formatter::format'],
     ORACLE)
prop('C61', 'Deserialized values are the document\'s',
     'Deserializing a document succeeds exactly if the document is valid TOML v1.0.0, and yields the data the specification assigns to it: the same tables, keys, arrays and scalar values of the same types.',
     IN, 'every document',
     'Tests deserialize sample structs; each scalar form and each nesting of tables has its own path through the document tree.',
     ['rust/serde_tombi/src/de.rs', 'crates/tombi-document/src'],
     ['from_str_async', 'ValueDeserializer', 'IntoDocument'],
     ORACLE)
prop('C40', 'Formatting in the editor yields the formatter\'s output',
     'Applying the edits answered to a formatting request turns the document exactly into the formatter\'s output; the edits lie within the document and do not overlap; a formatted document gets no edits, and one that cannot be formatted is left alone.',
     CFG, 'every document, three position encodings',
     'Edits are computed by diffing lines and translated to editor columns; tests apply none of them to texts with multi-byte characters at the differing places.',
     ['crates/tombi-lsp/src/handler/formatting.rs', 'crates/tombi-lsp/src/document.rs', 'crates/tombi-text/src/features/lsp'],
     ['handle_formatting', 'compute_text_edits', 'LineIndex'],
     'oracle: the formatter itself, and an editor that applies edits, written from the LSP specification.')
prop('C42', 'Semantic tokens mark the tokens of the document',
     'Semantic tokens come in document order, do not overlap and lie within the document in the negotiated encoding; in a valid document every key, value, comment, header bracket and equals sign has exactly one token, of its kind, position and length.',
     CFG, 'every document, three position encodings',
     'Tokens are delta-encoded from many visitors of the tree; one that is missing, repeated or out of order shifts all that follow.',
     ['crates/tombi-lsp/src/semantic_tokens', 'crates/tombi-lsp/src/handler/semantic_tokens_full.rs'],
     ['SemanticTokensBuilder::add_token', 'AppendSemanticTokens'],
     'expected tokens are recomputed from the syntax tree\'s byte spans (C02, C03 check those).')
prop('C43', 'Folding ranges are ranges of the document',
     'Every folding range lies within the document in the negotiated encoding, ranges nest or are disjoint, comment folds cover whole comment lines, and in a valid document every array, inline table, table and multi-line string that spans lines can be folded over its whole extent.',
     CFG, 'every document, three position encodings',
     'Tests list the folds of sample documents without multi-byte characters.',
     ['crates/tombi-lsp/src/handler/folding_range.rs'], ['handle_folding_range', 'create_folding_ranges'],
     'positions are translated back to the text by a direct scan.')
prop('C44', 'The outline is the document\'s structure',
     'The document symbols of a valid document are its keys, tables and array elements: the same names, nesting and kinds of value, every range within the document, each symbol within its parent\'s range and its selection within its own.',
     CFG, 'every document, three position encodings',
     'Tests compare the outline of a few samples; ranges are merged from headers, dotted keys and sub tables.',
     ['crates/tombi-lsp/src/handler/document_symbol.rs', 'crates/tombi-document-tree/src/value/table.rs', 'crates/tombi-document-tree/src/value/array.rs'],
     ['handle_document_symbol', 'symbols_for_table', 'Table::symbol_range'],
     ORACLE)
prop('C45', 'Answers depend only on the current text',
     'After any history of opening, changing, saving, formatting, requesting and closing, diagnostics, semantic tokens, symbols, folding ranges and formatting edits are those a freshly started server gives for the current text.',
     ['histories', 'inputs'], 'every history of notifications and requests on a document',
     'Caches of text, line index, TOML version and diagnostics are updated by different notifications; tests use one or two.',
     ['crates/tombi-lsp/src/handler/did_change.rs', 'crates/tombi-lsp/src/handler/did_open.rs', 'crates/tombi-lsp/src/document.rs', 'crates/tombi-lsp/src/diagnostic.rs', 'crates/tombi-lsp/src/workspace_diagnostic/cache.rs'],
     ['handle_did_change', 'DocumentSource::set_text', 'get_diagnostics_result', 'WorkspaceDiagnosticsCache'],
     'oracle: a second server that has seen the current text only.')
prop('C46', 'Every request at any place gets an answer',
     'Hover, completion, go-to, references, code-action and inlay-hint requests at any position of any document, well-formed or not, inside or beyond the text, are answered without panic or hang, and the range of a hover lies within the document.',
     IN, 'every document, every position',
     'Tests ask at marked places of sample documents; documents being typed are malformed in all ways.',
     ['crates/tombi-lsp/src/handler', 'crates/tombi-lsp/src/hover', 'crates/tombi-lsp/src/completion', 'crates/tombi-rg-tree/src/cursor.rs'],
     ['handle_hover', 'handle_completion', 'handle_goto_definition', 'token_at_position'],
     'no oracle is needed for panics and hangs.')
prop('C47', 'Editor diagnostics are the linter\'s, at their places',
     'The diagnostics reported to the editor are exactly the linter\'s, each once and in order, with its severity, code and message, at the place of the text the linter names, in the negotiated encoding; an invalid document always gets an error.',
     CFG, 'every document, three position encodings',
     'Tests compare diagnostics in linter coordinates; what reaches the editor is deduplicated, translated and cached.',
     ['crates/tombi-lsp/src/diagnostic.rs', 'crates/tombi-lsp/src/handler/diagnostic.rs', 'crates/tombi-diagnostic/src/lib.rs', 'crates/tombi-text/src/features/lsp'],
     ['get_diagnostics_result', 'FromLsp for Diagnostic', 'LineIndex'],
     'oracle: the linter itself, and positions translated by a direct scan.')
prop('C48', 'Refactorings keep the data',
     'Applying the edits of any offered code action (dotted keys to inline table and back) leaves a valid document that denotes the same data; the edits lie within the document. A dotted key with one entry and an inline table with one entry can be converted into each other.',
     CFG, 'every valid document, every position, three position encodings',
     'Tests apply the actions to simple keys; quoting, neighbouring keys, comments and trailing commas combine.',
     ['crates/tombi-lsp/src/code_action.rs', 'crates/tombi-lsp/src/handler/code_action.rs'],
     ['dot_keys_to_inline_table_code_action', 'inline_table_to_dot_keys_code_action'],
     ORACLE)
prop('C49', 'Completion offers what the schema has',
     'With a schema, completion in a table offers exactly the keys of its schema that the table does not have yet (and keys of nested schemas by their own path); completion of a value offers every value of an enum, const or boolean schema, and only values that conform. Accepting any offered item inserts at the cursor and leaves a valid document that differs by that key or value only.',
     CFG, 'every place in a table, inline table, array of tables, after a dot or an equals sign; keys already present; quoted keys; references, allOf and anyOf',
     'Tests list completion items of sample documents and schemas; which keys are present, where the cursor is and how keys must be quoted combine.',
     ['crates/tombi-lsp/src/completion.rs', 'crates/tombi-lsp/src/completion/value/table.rs', 'crates/tombi-lsp/src/completion/completion_edit.rs', 'crates/tombi-lsp/src/handler/completion.rs'],
     ['get_completion_contents', 'FindCompletionContents for Table', 'CompletionEdit'],
     ORACLE + 'The schema is read by harness/vref/js and followed by an independent walk; the accepted text is read back.')
prop('C51', 'Hover describes what is under the cursor',
     'Hovering over any key or value of a valid document names the path of that key or value and its type, with the title and description of its schema if there is one; the hover range contains the cursor and lies within the document.',
     CFG, 'every key and value position of every valid document, three position encodings, with and without schema',
     'Tests hover at chosen places of real-world files.',
     ['crates/tombi-lsp/src/hover.rs', 'crates/tombi-lsp/src/hover/value/table.rs', 'crates/tombi-lsp/src/handler/hover.rs'],
     ['get_hover_content', 'get_hover_keys_with_range', 'handle_hover'],
     ORACLE + 'The places of keys and values are taken from the syntax tree, their paths from an independent walk.')


prop('C52', 'Published diagnostics are those of the current text',
     'When the client does not pull diagnostics, the last diagnostics the server published for an open document after opening, changing, saving or formatting it are those linting its current text gives, and carry the version of that text; formatting does not replace them.',
     'the history of open, change, save, format and close requests and the texts', 'every history of requests',
     'Whether a handler publishes, which text it lints and which version it names depends on the history.',
     ['crates/tombi-lsp/src/handler', 'crates/tombi-lsp/src/backend.rs', 'crates/tombi-lsp/src/diagnostic.rs'],
     ['handle_did_open', 'handle_did_change', 'handle_did_save', 'handle_formatting', 'publish_diagnostics', 'handle_initialize'],
     'oracle: lint of the text the history leaves. The real `initialize` handshake is run and the messages the server sends are read.')

prop('C53', 'Navigation in Cargo manifests leads where Cargo resolves',
     'In a Cargo.toml, go to definition and go to declaration lead to the entry that Cargo would resolve - the manifest of the package a dependency names by path or inherits, the workspace entry, the member, the feature, the source file - and references are exactly the places in the manifests of the workspace that resolve to the one asked about; every location is that of the key or value in the file it names, in the negotiated encoding.',
     'the manifests of a workspace of a root and two packages, which of them is open and the position asked about', 'every workspace and every position',
     'Resolution crosses several files: where the workspace root is, which entries inherit, which paths coincide, which optional dependencies are features.',
     ['extensions/tombi-extension-cargo/src', 'crates/tombi-lsp/src/handler/goto_definition.rs', 'crates/tombi-lsp/src/handler/references.rs', 'crates/tombi-lsp/src/location.rs'],
     ['goto_definition', 'goto_declaration', 'references', 'find_workspace_cargo_toml', 'dependency_package_name', 'into_lsp_location'],
     'oracle: a resolver of paths, members, inheritance, renames and features over the reference parser. Left open: whether an entry that leads nowhere answers with itself.')
prop('C54', 'Code actions of Cargo manifests keep what the manifests mean',
     'Applying a code action of a Cargo.toml (inherit from workspace, inherit dependency, convert to table format, add to workspace and inherit) leaves every manifest it edits valid, changes the data exactly as its name says - the dependency, resolved through the workspace, keeps its meaning - keeps every comment at the entry it belongs to, and edits no other file; the action is offered exactly where it applies.',
     'the manifests of a workspace root and a member, which of them is open and the position asked about', 'every pair of manifests and every position',
     'The edits are computed from ranges in two documents, in every spelling of tables, dotted keys and inline tables.',
     ['extensions/tombi-extension-cargo/src/code_action.rs', 'crates/tombi-lsp/src/handler/code_action.rs'],
     ['inherit_from_workspace_code_action', 'inherit_dependency_from_workspace_code_action', 'convert_dependency_to_table_format_code_action', 'generate_workspace_dependencies_edit', 'generate_member_workspace_true_edit'],
     'oracle: the expected data, by the reference parser, after applying the edits. Left open: dependencies that name a path, git or registry, comments within the replaced entry.')

prop('C70', 'The schema cache on disk is transparent',
     'With a cache directory, a schema fetched earlier is read back as it was fetched; an interrupted or concurrent write never leaves a truncated schema that later runs read as valid; entries older than the configured lifetime are fetched again.',
     ['histories', 'crash points'], 'every history of fetches, clock values and interruptions',
     'Tests use one process and an intact directory.',
     ['crates/tombi-cache/src/lib.rs'], ['read_from_cache', 'save_to_cache'], None)
prop('C71', 'Concurrent requests of the language server do not interfere',
     'Requests handled concurrently with edits answer for a text the editor has sent, never for a mixture of two, and no interleaving of requests and notifications blocks the server.',
     ['schedules'], 'every interleaving of notifications and requests of one client',
     'Tests send one request at a time.',
     ['crates/tombi-lsp/src/backend.rs'], ['Backend', 'document_sources'], None)
prop('C72', 'Files are found as configured',
     'The command line formats and checks exactly the files below the given paths that match `include` and not `exclude`, relative to the configuration file, whatever the directory structure and symbolic links.',
     ['configurations', 'histories'], 'every directory tree and configuration',
     'Tests use one fixed tree.',
     ['crates/tombi-glob/src/lib.rs'], ['FileSearch'], None)


def main():
    with open(f'{V}/properties.jsonl', 'w') as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    checks = []
    for p in P:
        if not p['_note']:
            continue
        i = p['id']
        checks.append(dict(
            property=i, quick_cmd=f'python3 run.py {i} --tier quick', thorough_cmd=f'python3 run.py {i} --tier thorough',
            evidence_file=f'evidence/{i}.json', level='model_checking',
            technique='bounded symbolic execution of the compiled code (rustc-emitted wasm) with z3 deciding every branch and assertion; counterexamples replayed natively',
            level_note='Holds for every input within the stated bounds (document templates with symbolic places), decided path by path by the solver; nothing outside the bounds. '
                       + p['_note'][0].upper() + p['_note'][1:] + ' Trusted: rustc/LLVM, the symbolic executor (cross-checked against native runs of sampled paths), z3.'))
    m = dict(version=1, setup_cmd='./setup.sh', hooks=dict(guard='cfg(tombi_verify)', enable='RUSTFLAGS=--cfg tombi_verify (set by run.py): tombi_schema_store::verify::set_http_client replaces the HTTP client of new schema stores', source_commits=['05dba0d3d13c79e24aa06c4692f9528c9348d32b']),
             checks=checks, not_applicable=NA)
    json.dump(m, open(f'{V}/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
    k = json.load(open(f'{V}/known-findings.json'))
    d = open(f'{V}/DESIGN.md').read().split('## Genuine defects found')[0]
    d += """## Genuine defects found
Repaired (one `fix:` commit each in /repo), generated from `known-findings.json`:

"""
    d += ''.join(f'* {x}\n' for x in k['fixed'])
    d += """
Recorded, not repaired (the repair is not small: new fields in several schema types, a change of how references
resolve). Each has its own job that hits only the listed input; the check prints KNOWN-FINDING for it:

"""
    d += ''.join(f'* {x["property"]} `{x["id"]}`: {x["what"]}\n' for x in k['findings'])
    open(f'{V}/DESIGN.md', 'w').write(d)
    print(len(P), 'properties,', len(checks), 'checks')


if __name__ == '__main__':
    main()
