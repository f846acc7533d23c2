"""Jobs of every property: entry point of the harness, integer parameters, document templates."""
from vtool import *
from templates import *
from schemas import *

SPECS = {}


def job(entry, ints=(), docs=(), split=1):
    docs = list(docs)
    return {'entry': entry, 'params': params(ints, docs), 'split': split,
            'label': f'{entry} {list(ints)} {docs!r}'}


def spec(pid, crate, bounds, **kw):
    def deco(f):
        SPECS[pid] = dict(crate=crate, bounds=bounds, jobs=f, **kw)
        return f
    return deco


SYNTAX = GENERIC + STR + NUM + DATE + KEYS + STRUCT + CMT + LONG
DOCS = 'Documents: every instance of each listed template (%s); a template is a TOML text with up to 9 symbolic places, each ranging over an alphabet of bytes or a list of strings. '


@spec('C01', 'hcore', DOCS % 'all printable ASCII, control characters, structure characters, multi-byte grapheme clusters, line endings',
      reach=['invalid-token'])
def _(tier):
    ts = SYNTAX + UNI + EOLS + (DEEP if tier == 'thorough' else [])
    return [job('lex_lossless', (), [t]) for t in ts]


@spec('C02', 'hcore', DOCS % 'as C01, with the table-structure documents', reach=['with-errors', 'clean'])
def _(tier):
    ts = SYNTAX + SEMA + UNI + EOLS + FMT + (DEEP + FMT2 + FMTV if tier == 'thorough' else [])
    return [job('parse_lossless', (), [t]) for t in ts]


@spec('C03', 'hcore', DOCS % 'as C01; positions are checked for every token, tree element and syntax error, look-ups at every character boundary', reach=['syntax-error'])
def _(tier):
    ts = GENERIC + UNI + EOLS + STRUCT + KEYS
    if tier == 'thorough':
        ts += STR + NUM + DATE + SEMA + DEEP
    return [job(e, (), [t]) for t in ts for e in (('positions', 'lookup') if t in UNI + EOLS or tier == 'thorough' else ('positions',))]


@spec('C04', 'hdoc', DOCS % 'syntax of strings, numbers, date-times, keys, arrays, inline tables, headers, comments; TOML v1.0.0 and v1.1.0', reach=['accepted', 'rejected'])
def _(tier):
    ts = SYNTAX + (DEEP if tier == 'thorough' else [])
    return [job('accept', (v, 1), [t]) for t in ts for v in (0, 1)]


@spec('C05', 'hdoc', DOCS % 'strings, numbers, booleans, date-times, keys; both TOML versions', reach=['accepted'])
def _(tier):
    ts = STR + NUM + DATE + KEYS + UNI + (DEEP if tier == 'thorough' else [])
    return [job('accept', (v, 2), [t]) for t in ts for v in (0, 1)]


@spec('C06', 'hdoc', DOCS % 'up to 5 headers and key/value pairs over a key alphabet of 2 or 3 names; both TOML versions', reach=['accepted', 'rejected'])
def _(tier):
    ts = SEMA + SEMA2 + SEMA3
    return [job('accept', (v, 3), [t]) for t in ts for v in (0, 1)]


def fmt(mask, ts, opts=(0,), v=(1,)):
    return [job('format_props', (x, o, mask), [t]) for t in ts for o in opts for x in v]


FTH = FMT + FMT2 + FMTD + FMTK + CMT + LONG + FMTV + STR + NUM + DATE + KEYS + GENERIC + STRUCT + SEMA
ENC = 'Position encodings: UTF-8, UTF-16, UTF-32. '
OPT = 'Format options: default and 11 further combinations that together set every rule. '


@spec('C10', 'hdoc', DOCS % 'as C04 and C06 plus commented documents' + OPT, reach=['formatted'])
def _(tier):
    if tier == 'thorough':
        return fmt(2, FTH, range(12), (0, 1))
    return fmt(2, FMT + FMTD + FMTK + STR + NUM + DATE + KEYS + GENERIC + STRUCT + SEMA)


@spec('C11', 'hdoc', DOCS % 'comments, blank lines, headers, arrays, inline tables, keys' + OPT, reach=['formatted'])
def _(tier):
    if tier == 'thorough':
        return fmt(4, FTH, range(12), (0, 1))
    return fmt(4, FMT + FMTD + FMTK + GENERIC + STRUCT) + fmt(4, FMT2, range(12))


@spec('C12', 'hdoc', DOCS % 'comments in every position of tables, arrays, inline tables, with blank lines between' + OPT, reach=['comments'])
def _(tier):
    if tier == 'thorough':
        return fmt(8, FTH, range(12), (0, 1))
    return fmt(8, FMT + STRUCT + FMT2 + FMTC + FMTD + FMTK) + fmt(8, FMTC, (1, 4, 7, 9))


@spec('C13', 'hdoc', DOCS % 'line endings, blank lines, multi-line strings, comments' + OPT, reach=['formatted'])
def _(tier):
    if tier == 'thorough':
        return fmt(16, FTH + CRLF + EOLS + UNI, range(12), (0, 1))
    return fmt(16, CRLF + FMT + FMTK + EOLS + STRUCT + UNI) + fmt(16, EOLS + FMT[14:18] + FMT2[:5], range(1, 12))


@spec('C14', 'hdoc', DOCS % 'as C10 with malformed documents' + OPT, reach=['refused', 'formatted'])
def _(tier):
    if tier == 'thorough':
        return fmt(1, FTH + DEEP, range(12), (0, 1))
    return fmt(1, SYNTAX + FMT + FMTD + FMTK + SEMA + UNI) + fmt(1, FMT2, range(1, 12))


@spec('C20', 'hval', 'Schemas and documents: every instance of each listed pair of templates, `$schema` declared (2020-12 or draft-07), remote fetch replaced by an in-memory client; keywords: type enum const minimum maximum exclusive* multipleOf minLength maxLength pattern (literals, classes, anchors) minItems maxItems uniqueItems items prefixItems additionalItems contains min/maxContains properties patternProperties additionalProperties required min/maxProperties propertyNames dependent* dependencies allOf anyOf oneOf not if/then/else unevaluated* $ref $defs definitions. Left open: date-times, integral floats against "integer", other patterns, remote references, format. ',
      reach=['valid', 'invalid'])
def _(tier):
    return [job('schema_valid', (0,), p) for p in SCALAR + ARRAY + TABLE + COMB + UNEVAL + ADJ + NEST] + [job('schema_valid', (k, ), (s, d)) for k, s, d in KNOWN]


@spec('C32', 'htext', 'Pairs and triples of names: every instance of each listed template pair (letters, digits, separators, version operators, digit runs of up to 21 digits). ', reach=['less', 'equal', 'greater', 'chain'])
def _(tier):
    return [job('version_order', (), d) for d in VERS] + [job('version_total', (), d) for d in VERS3]


@spec('C41', 'htext', 'Texts of up to 4 lines over ASCII, line endings and the multi-byte clusters of C03; every line, every column up to the line end and three beyond; UTF-8, UTF-16, UTF-32. ', reach=['wide'])
def _(tier):
    return [job('lsp_pos', (e,), [t]) for t in LSPT for e in (0, 1, 2)]


@spec('C50', 'htext', 'JSON texts: every instance of each listed template (any 3 ASCII bytes, strings with escapes and surrogates, numbers, nesting, whitespace). Left open: a carriage return that ends no line, numbers beyond 64 bits, nesting beyond 128. ', reach=['accepted', 'rejected'])
def _(tier):
    return [job('json', (), [t]) for t in JSONT]


@spec('C07', 'htext', 'Strings of up to 3 characters: every ASCII character, selected non-ASCII ones; `${...}` placeholders excluded for keys. ', reach=['quoted', 'bare'])
def _(tier):
    return [job('encode', (), [t]) for t in ENCT]


@spec('C60', 'hser', 'Values of the serde data model: every instance of each listed template (strings and keys of up to 2 arbitrary ASCII characters and selected others; integers, floats and date-times at their limits; maps and sequences nested up to 5 deep with 20 kinds of entry in up to 2 places). ', reach=['serialized'])
def _(tier):
    return [job('ser', (), [t]) for t in SERT] + [job('typed', (p,), ['x']) for p in range(8)] + [job('typed', (1,), [t]) for t in ENCT]


@spec('C61', 'hser', DOCS % 'arrays, tables, dotted keys, dates and scalars of every kind', reach=['read', 'refused'])
def _(tier):
    return [job('de', (), [t]) for t in STR + NUM + KEYS + UNI + SEMA + SERT + (DATE + SEMA2 if tier == 'thorough' else [])]


LSPD = UNI + STRUCT + FMTC + FMTK + FMTD + EOLS
def lsp(e, ts, encs=(1,), *k):
    return [job(e, (c,) + k, [t]) for t in ts for c in encs]


@spec('C40', 'hlsp', DOCS % 'structure, comments, multi-byte clusters, line endings' + ENC, reach=['refused', 'unchanged', 'edited'])
def _(tier):
    return lsp('format_edits', LSPD) + lsp('format_edits', UNI, (0, 2))


@spec('C42', 'hlsp', DOCS % 'structure, keys, values, comments, directives, multi-byte clusters, line endings' + ENC, reach=['tokens', 'directive', 'with-errors'])
def _(tier):
    return lsp('sem_tokens', LSPD + GENERIC) + lsp('sem_tokens', UNI, (0, 2))


FOLD = ['# a\n# «|b»\n«|# c\n»«|\n»a = 1«| # d»\n# e\n«# f\n|»',
        '[t]«| # h»\n«|# a\n»# b\n«|# c\n»«|\n»a = 1\n«|\n»# d\n«|# e\n»«|[[u]]«| # h»\n«|\n»# f\n# g\n»',
        '«|# a\n»«|# b\n»[[t]]\n«|# a\n»# b\n«|\n»«|a = 1\n»# d\n«|# e\n»',
        'a = [«| # h»\n # a\n«| # b\n»«|\n»«=1t"{[\'»«|\n # c\n # d\n»«=]}\'"» ,«| # e»\n # f\n # g\n«| # h\n»]',
        'a = [ # h\n«| # a\n # b\n»«|\n»«1|1.0|0x1|0o1|0b1|true|"a"|\'a\'|"""\na"""|\'\'\'\na\'\'\'|1979-05-27|07:32:00|1979-05-27T07:32:00|1979-05-27T07:32:00Z|{}|[]»\n # e\n # f\n«|,\n»«| # g\n # h\n»]',
        '#:tombi toml-version = "v1.1.0"\na = {«| # h»\n # a\n«| # b\n»«|\n»«| b = 1\n»«|# c\n # d\n»«|,»«| # e»\n # f\n # g\n}',
        ]


@spec('C43', 'hlsp', DOCS % 'structure, comments, multi-line strings, multi-byte clusters' + ENC, reach=['comment', 'region', 'comments'])
def _(tier):
    return lsp('folding', LSPD + GENERIC + FOLD) + lsp('folding', UNI, (0, 2))


@spec('C44', 'hlsp', DOCS % 'structure, keys, values, multi-byte clusters' + ENC, reach=['valid', 'invalid'])
def _(tier):
    return lsp('symbols', LSPD + SEMA) + lsp('symbols', UNI, (0, 2))


@spec('C47', 'hlsp', DOCS % 'syntax errors, semantic errors, lint warnings, multi-byte clusters' + ENC, reach=['error', 'warning'])
def _(tier):
    return lsp('diagnostics', LSPD + GENERIC + SEMA) + lsp('diagnostics', UNI, (0, 2))


@spec('C48', 'hlsp', DOCS % 'dotted keys and inline tables of every shape, quoting, comments' + ENC + 'Every position of the cursor.', reach=['action', 'offered'])
def _(tier):
    return [job('actions', (1, 0), [t]) for t in ACTT + LSPD + SEMA] + [job('actions', (c, 0), [t]) for t in UNI for c in (0, 2)] + [job('actions', (1, k), [t]) for t, k in OFFT]


HISTT = [('a = 1\n', 'a = 2«\n|»'), ('#:tombi toml-version = "v1.«=01».0"\na = "\\«=en»"\n', 'a = "\\«e|x41|n»"«\n| »'),
         ('a = «=1x»', 'a = {\n b = 1,\n}«\n| # c»'), ('[a«]|.b]\n[a.b]|»', '#:tombi toml-version = "v1.1.0"\na = {\n b = 1\n}\n')]


PUSHT = [('a = «=1x»«| »\n', 'b = «=1[»\n"" = «1|»\n')]


@spec('C45', 'hlsp', DOCS % 'two texts per history' + 'Histories: open, then up to four notifications (change, save, close, open again) in the listed orders. ', reach=['formatted'])
def _(tier):
    return [job('history', (1, 3), d) for d in HISTT]


@spec('C46', 'hlsp', DOCS % 'structure characters, incomplete tables and arrays, directives' + 'Every position of the cursor, four kinds of request. ', reach=['hover'])
def _(tier):
    ts = ['«@struct*3»', 'a = «@struct*2»', '[«@struct*2»]\n', 'a = [«@struct*2»]\n', 'a = {«@struct*2»}\n', 'a = {b = 1«=, }»«=, b\n»}\n', '[a«=.]»b«=]\n»\nc«=.= »d = 1\n', '#«: #»«tombi|schema|»«= :»«=a "»', 'é = "«é|👩‍💻»"\n[«é|"é"|"👩‍💻"»]\nb.c = 1 # é\n']
    return [job('ask', (1, k), [t]) for t in ts for k in range(4)]


@spec('C49', 'hlsp', DOCS % 'incomplete documents with the place of the cursor' + 'Schemas: the listed one (properties, nested tables, arrays of tables, references, allOf, anyOf, enum, const, defaults) with three forms of additionalProperties, served by an in-memory client. ', reach=['key', 'value'])
def _(tier):
    return [job('complete', (1, m, part), [cs, a, b, path]) for cs, a, b, path, m, part in COMPT]


@spec('C51', 'hlsp', DOCS % 'keys, tables, arrays of tables, inline tables' + ENC + 'Schemas: none, or the listed one with titles and descriptions, inline and by reference. Every position on a key and at the start of a value. ', reach=['plain', 'schema'])
def _(tier):
    return [job('hover', (1,), d) for d in HOVT] + [job('hover', (c,), d) for d in HOVT[:3] for c in (0, 2)] + [job('hover', (1,), [d, '']) for d in STRUCT + SEMA]


@spec('C53', 'hlsp', DOCS % 'workspaces of a root and two packages: members by path and glob, excluded paths, dependencies by path, by version and inherited, in every kind of table and spelling, renamed, optional, with features; a root that is a package; target-specific tables' + 'Every instance of each listed triple of manifests, each of the three open in turn, positions at the first and last character of every key and value; go to definition, go to declaration, references. Left open: whether an entry that leads nowhere answers with itself; declarations of anything but inherited dependencies. ', reach=['found', 'nothing'])
def _(tier):
    js = [job('navigate', (1, o, w), list(d)) for d in NAVT for o in range(3) for w in range(3)]
    return js + [job('navigate', (c, o, w), list(NAVT[5])) for c in (0, 2) for o, w in ((0, 0), (1, 0), (1, 1), (2, 2))]


@spec('C54', 'hlsp', DOCS % 'workspaces of a root and one member: dependencies by version as strings, inline tables, dotted keys and tables, in every kind of dependency table, with workspace.dependencies as a table (empty, with comments, sub-tables, before other tables), an inline table or dotted; package fields' + 'Every instance of each listed pair of manifests, either open, positions at the first and last character of every key and value. Left open: whether actions are offered for dependencies that name a path, git or registry, or in workspaces whose dependencies are dotted keys; comments within the replaced entry.', reach=['inherit', 'inherit-dependency', 'convert', 'add'])
def _(tier):
    js = [job('rewrite', (1, o), list(d)) for d in REWT for o in range(2)]
    return js + [job('rewrite', (c, 1), list(d)) for c in (0, 2) for d in REWT if 'é' in d[1]]


@spec('C15', 'hval', 'Documents and schemas: every instance of each listed pair of templates (up to some 12 keys or values, headers, dotted keys, inline tables, arrays of tables, comments before, after and between items and commas); orders: x-tombi-table-keys-order in all its forms (one order, groups, oneOf/anyOf, $ref, patternProperties, additionalProperties), array-values-order and array-values-order-by, comment directives at root, header, key, element and array ends. Left open: allOf siblings with different orders, a disabled root order next to orders of sub-tables, arrays of values that cannot be compared.',
      reach=['tables', 'arrays', 'comments'])
def _(tier):
    return [job('sorted', (m,), [s, d, p]) for m, s, d, p in SORTT]


@spec('C21', 'hval', 'Documents: every instance of each listed template: dotted keys, headers, arrays of tables and inline tables with bare, quoted and escaped keys, comments and directives around them; rule levels unset, off, warn, error as listed per template. Left out: the same directive twice on one table, directives on the second key of a line.',
      reach=['key-empty', 'dotted-keys-out-of-order', 'tables-out-of-order', 'disabled'])
def _(tier):
    return [job('rules', l, [d]) for l, d in RULET]


@spec('C22', 'hval', 'Schemas, documents and rule names: every instance of each listed triple of templates: every value type, arrays, inline tables, headers, arrays of tables, dotted keys and the root, the directive above, behind or at the start of the value; schemas with the keyword at the value, behind $ref, in if/then/else and in allOf, anyOf, oneOf. Left out: the same directive twice, table rules above a [[header]], deprecated as an unused rule of a table.', reach=['removed', 'unused', 'reported-unused'])
def _(tier):
    return [job('noqa', (l, u, 0), [s, d, r]) for l, u, s, d, r in NOQA] + [job('noqa', (l, u, 1), [s, d, r]) for l, u, s, d, r in NOQAK]


@spec('C30', 'hcfg', 'Configurations, document paths and configuration paths: every instance of each listed triple of templates: include and exclude patterns with * ? ** and literal paths, up to two overrides in either section with their own include and exclude, every format rule and lint rule set in the base, in the override, or in both; configuration as tombi.toml, .config/tombi.toml, pyproject.toml or none. Left out: {a,b} and [a] in patterns, ignore files, an override that says nothing about a section while a later one does.', reach=['file', 'no-file', 'off', 'rules'])
def _(tier):
    return [job('opts', (), list(d)) for d in OPTT]


@spec('C31', 'hcfg', 'Configurations, catalogs, paths and documents: every instance of each listed tuple of templates: up to five entries with include and exclude patterns, two catalogs, path patterns of keys, quoted keys, indices and wildcards, documents with headers, dotted keys, arrays of tables, inline tables; strict at all four levels, the level of deprecated at entry and override. Left out: schemas that cannot be fetched, the same schema at the root and below, whether a sub-schema takes over the level of the root entry.', reach=['root', 'no-root', 'sub'])
def _(tier):
    return [job('assoc', (0,), list(d)) for d in ASSOCT] + [job('assoc', (1,), list(d)) for d in ASSOCF]


@spec('C33', 'hcfg', 'Configurations, schemas and documents: every instance of each listed tuple of templates: a root entry and a sub-schema, with and without the settings of both kinds of order, up to two overrides with one or two targets each (keys, wildcards, indices), every form of rule; documents with tables, headers, inline tables, arrays, arrays of tables, comment directives. Left open: tables below one that an override or directive orders, whether a sub-schema takes over the settings of the root entry.', reach=['tables', 'arrays', 'directive', 'no-directive'])
def _(tier):
    return [job('order', (), list(d)) for d in ORDERT]


@spec('C52', 'hlsp', DOCS % 'two texts per history' + ENC + 'Histories: open, then up to three of change to either text, save without and with the text, format and apply, close, open again, in every order. ', reach=['formatted', 'not-formatted', 'some', 'none'])
def _(tier):
    return [job('pushes', (1, 4), d) for d in HISTT + PUSHT] + [job('pushes', (c, 1), [t, '']) for t in UNI[:4] for c in (0, 2)]


HEADT = [('#:tombi lint.disabled«=  »=«= \t»true\n', 'b = «"x"|1|»\n"" = 1\n«é = 1|c=2»\n'),
         ('«# c\n|»#:tombi «lint|format|schema|tint».«disabled|strict» = «true|false|1»\n«|# d\n»', 'b=«1|"x"»\nc = 2«\n[t|»\n'),
         ('#:tombi toml-version = "v1.«=0123».0"«| # c| x»\n«|#:tombi schema.strict = true\n»', 'a = {\nb=1«,|»\n}\n«é = 1|c = "\\e"|»\n'),
         ('#:schema https://t.test/s.json\n#:tombi schema = {strict = «true|false»}\n«|#:tombi schema.strict = true\n|#:tombi format.disabled = true\n|#:tombi lint = {disabled = true}\n»', 'c=1\n«b = "x"|b = 1|»\n'),
         ('#:tombi lint«=._ »disabled = true\n#«:|»«tombi| tombi|tombi:» format.disabled«=_ »= true\n', 'b=«"x"|1»\n"" = 1\n'),
         ('# c\n', 'b=1«\n|\n\n»#:tombi lint.disabled = true\n"" = 2\n#:tombi format.disabled = true\n«[t]\n|»c=1 #:tombi toml-version = "v1.1.0"\né=1\n'),
         ('#:tombi «=x"={[a»«=x"=]}. »\n', 'b=1\n"" = 1\n'),
         ('#:tombi format.disabled = true«= x\r\n#»\n', '«a=1|[t|b=|»\n«é|c»=1\n'),
         ('#:tombi toml-version = "v1.1.0"\n#:tombi «format|lint».disabled = true, «schema.strict|x» = true\n', 'b=1\n'),
         ]


@spec('C23', 'hval', 'Documents: every instance of each listed pair of templates (up to four comments at the head, with every setting, spelled with dots or as inline tables, malformed ones, unknown ones, repeated ones; look-alikes; directives elsewhere), for two TOML versions and both kinds of strictness in the options. Left open: comments after the first blank line but before the first key, what else a head with a malformed directive does.', reach=['lint-off', 'lint', 'lint-clean', 'format-off', 'format', 'refused'])
def _(tier):
    return [job('heads', (v, s), list(d)) for d in HEADT for v, s in ((0, 0), (1, 1))]
