//! Schema drivers: the real schema store, validator and schema-driven formatter, with the schema
//! served by an in-memory HTTP client.
use std::sync::Arc;
use tombi_config::*;
use tombi_diagnostic::Diagnostic;
use tombi_schema_store::SchemaStore;
use tombi_toml_version::TomlVersion;

#[derive(Debug)]
struct Mem(String);
impl tombi_schema_store::HttpClient for Mem {
    fn get_bytes<'a>(&'a self, _url: &'a str) -> tombi_schema_store::HttpFuture<'a, Result<bytes::Bytes, tombi_schema_store::FetchError>> {
        use tombi_future::Boxable;
        let b = bytes::Bytes::from(self.0.clone().into_bytes());
        async move { Ok(b) }.boxed()
    }
}

pub fn run<F: core::future::Future>(f: F) -> F::Output {
    #[cfg(target_family = "wasm")]
    return vs::block_on(f);
    #[cfg(not(target_family = "wasm"))]
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

pub fn store(schema: &str, strict: bool) -> SchemaStore {
    SchemaStore::new_with_options_and_http_client(
        tombi_schema_store::Options { strict: Some(strict.into()), offline: Some(false), cache: None },
        Arc::new(Mem(schema.to_string())),
    )
}

pub const HEAD: &str = "#:schema https://t.test/s.json\n\n";

pub fn lint(src: &str, schema: &str, strict: bool) -> Vec<Diagnostic> {
    let st = store(schema, strict);
    let o = LintOptions::default();
    let l = tombi_linter::Linter::new(TomlVersion::V1_1_0, &o, None, &st);
    match run(l.lint(src)) {
        Ok(()) => vec![],
        Err(d) => d,
    }
}

fn warm() {
    let _ = lint(
        "#:schema https://t.test/s.json\n\na = 1 # c\n[t]\nb.c = [1.5, {x = \"y\"}]\nd = 1979-05-27T07:32:00Z\ns=\"\\n\"",
        r##"{"type":"object","properties":{"a":{"type":"integer","minimum":2},"t":{"additionalProperties":{"anyOf":[{"type":"string"},{"$ref":"#/$defs/x"}]}}},"$defs":{"x":{"type":"array"}}}"##,
        false,
    );
}

const FINDINGS: [&str; 5] = [
    "",
    "fractional-multiple-of-on-integer",
    "if-then-else-on-scalar",
    "keywords-next-to-ref",
    "root-ref-and-recursive-ref",
];

/// int0: number of a known finding, or 0; blob0: schema, blob1: document.  The linter reports an
/// error exactly if the document is invalid under the schema.
fn schema_valid() {
    let finding = vs::int(0) as usize;
    let schema = vs::doc(0);
    let mut src = String::from(HEAD);
    // holes of the document come after those of the schema
    src.push_str(&vs::doc(1));
    let Ok(t) = vref::parse(src.as_bytes(), true) else {
        vs::assume(false);
        return;
    };
    let Some(expect) = vref::js::check(schema.as_bytes(), &t) else {
        vs::reach("left-open");
        vs::assume(false);
        return;
    };
    let d = lint(&src, &schema, false);
    let ok = !d.iter().any(|d| d.is_error());
    vs::note(&format!("{d:?}"));
    vs::out(&[ok as u8, d.len() as u8]);
    if finding != 0 {
        if ok != expect {
            vs::known(true, FINDINGS[finding]);
        }
        return;
    }
    if expect {
        vs::reach("valid");
        vs::check(ok, "valid-document-reported");
    } else {
        vs::reach("invalid");
        vs::check(!ok, "invalid-document-not-reported");
    }
}

pub fn format(src: &str, schema: &str) -> Result<String, Vec<Diagnostic>> {
    let st = store(schema, false);
    let o = FormatOptions::default();
    run(tombi_formatter::Formatter::new(TomlVersion::V1_1_0, &o, None, &st).format(src))
}

/// Items with their comments: a line without its separator, or a comment line with the next item.
fn attached(s: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut open: Vec<String> = Vec::new();
    for l in s.lines() {
        let l = l.trim();
        if l.is_empty() {
            out.append(&mut open); // belongs to no item
            continue;
        }
        if l.starts_with('#') {
            open.push(l.to_string());
            continue;
        }
        let l = match l.find(" # ") {
            Some(i) => format!("{} {}", l[..i].trim_end().trim_end_matches(','), &l[i + 1..]),
            None => l.trim_end_matches(',').to_string(),
        };
        for c in open.drain(..) {
            out.push(format!("{c}\n{l}"));
        }
        out.push(l);
    }
    out.append(&mut open);
    out.sort();
    out
}

/// Orders of the format directives of a document.
fn directives(s: &str) -> Vec<&str> {
    let mut v = vec![];
    for l in s.lines() {
        let Some(i) = l.find("# tombi: format.rules.") else { continue };
        match l[i..].split_once('"') {
            Some((_, r)) => v.push(r.split_once('"').unwrap().0),
            None => v.push("disabled"),
        }
    }
    v
}

/// C15.  int0: 1 = the order is decided, 2 = comments are compared with their items; blob0: schema,
/// blob1: document, blob2: the path of each directive in the document, in order, one per line.
fn sorted() {
    let mode = vs::int(0);
    let schema = vs::doc(0);
    let mut src = if schema.is_empty() { String::new() } else { String::from(HEAD) };
    src.push_str(&vs::doc(1));
    let dirs = vs::doc(2);
    let Ok(t) = vref::parse(src.as_bytes(), true) else {
        vs::assume(false);
        return;
    };
    let out = format(&src, &schema);
    vs::note(&format!("{out:?}"));
    let Ok(out) = out else {
        vs::check(false, "not-formatted");
        return;
    };
    let Ok(u) = vref::parse(out.as_bytes(), true) else {
        vs::check(false, "formatted-text-is-invalid");
        return;
    };
    let (mut a, b) = (vref::V::Tbl(t), vref::V::Tbl(u));
    vs::check(vref::sort::same_any(&a, &b), "data-changed");
    let mut c = vref::comments(src.as_bytes());
    let mut d = vref::comments(out.as_bytes());
    c.sort();
    d.sort();
    vs::check(c == d, "comments-changed");
    let again = format(&out, &schema);
    vs::check(matches!(&again, Ok(x) if *x == out), "not-idempotent");
    vs::out(&[out.len() as u8]);
    if mode & 1 != 0 {
        let root = vref::js::json(if schema.is_empty() { b"true" } else { schema.as_bytes() }).unwrap();
        let mut s = vref::sort::Sorter {
            s: vref::js::S { root: &root, old: false, open: false, depth: 0 },
            dirs: dirs.split('\n').zip(directives(&src)).map(|(p, o)| vref::sort::D(p, o)).collect(),
            subs: vec![],
            open: false,
            tables: false,
            arrays: false,
        };
        s.sort(&mut a, Some(&root), "");
        if s.tables {
            vs::reach("tables");
        }
        if s.arrays {
            vs::reach("arrays");
        }
        if !s.open && !s.s.open {
            vs::check(vref::sort::same_order(&a, &b), "not-in-the-specified-order");
        }
    }
    if mode & 2 != 0 {
        vs::reach("comments");
        vs::check(attached(&src) == attached(&out), "comments-detached");
    }
}

fn byte(src: &str, line: u32, col: u32) -> usize {
    let mut at = 0;
    for _ in 0..line {
        at += src[at..].find('\n').map_or(src.len() - at, |i| i + 1);
    }
    at + src[at..].chars().take(col as usize).map(char::len_utf8).sum::<usize>()
}

const RULES: [&str; 3] = ["key-empty", "dotted-keys-out-of-order", "tables-out-of-order"];

/// Is the rule switched off by a directive directly above the line with this offset, or on it?
fn switched_off(src: &str, at: usize, rule: usize) -> bool {
    let d = format!("# tombi: lint.rules.{}.disabled = true", RULES[rule]);
    let start = src[..at].rfind('\n').map_or(0, |i| i + 1);
    let end = at + src[at..].find('\n').unwrap_or(src.len() - at);
    if src[start..end].contains(&d) {
        return true;
    }
    let mut e = start;
    while e > 0 {
        let s = src[..e - 1].rfind('\n').map_or(0, |i| i + 1);
        let l = src[s..e - 1].trim();
        if !l.starts_with('#') {
            return false;
        }
        if l == d {
            return true;
        }
        e = s;
    }
    false
}
/// The same for the root: in a comment group at the top of the document, followed by a blank line.
fn root_off(src: &str, rule: usize) -> bool {
    let d = format!("# tombi: lint.rules.{}.disabled = true", RULES[rule]);
    let mut off = false;
    for l in src.lines() {
        let l = l.trim();
        if l.is_empty() {
            return off;
        }
        if !l.starts_with('#') {
            return false;
        }
        off |= l == d;
    }
    off
}

/// Keys of every table, written in the same order as the tables' keys are first defined.
fn empties(v: &vref::V, n: &mut usize) {
    match v {
        vref::V::Tbl(t) => {
            for (k, x) in &t.e {
                *n += k.is_empty() as usize;
                empties(x, n);
            }
        }
        vref::V::Arr(a) => a.iter().for_each(|x| empties(x, n)),
        _ => {}
    }
}

/// C21.  int0..2: level of the rules key-empty, dotted-keys-out-of-order, tables-out-of-order
/// (0 not configured, 1 off, 2 warn, 3 error); int3: 1 = a schema allows empty keys; blob0: document.
fn rules() {
    use tombi_severity_level::SeverityLevel as L;
    let lv: [u8; 3] = [vs::int(0) as u8, vs::int(1) as u8, vs::int(2) as u8];
    let allow = vs::int(3) == 1;
    let mut src = if allow { String::from(HEAD) } else { String::new() };
    src.push_str(&vs::doc(0));
    let Ok((t, cs)) = vref::layout(src.as_bytes(), true) else {
        vs::assume(false);
        return;
    };
    let o = LintOptions {
        rules: Some(LintRules {
            key_empty: level(lv[0]),
            dotted_keys_out_of_order: level(lv[1]),
            tables_out_of_order: level(lv[2]),
        }),
    };
    fn level(n: u8) -> Option<tombi_severity_level::SeverityLevelDefaultWarn> {
        [None, Some(L::Off), Some(L::Warn), Some(L::Error)][n as usize].map(Into::into)
    }
    let st = store(if allow { r#"{"type":"object","propertyNames":{"minLength":0}}"# } else { "true" }, false);
    let got = match run(tombi_linter::Linter::new(TomlVersion::V1_1_0, &o, None, &st).lint(&src)) {
        Ok(()) => vec![],
        Err(d) => d,
    };
    vs::note(&format!("{got:?}"));
    vs::out(&[got.len() as u8]);
    // (rule, start, end of what is discouraged)
    let mut want: Vec<(usize, usize, usize)> = vec![];
    for c in &cs {
        let off = if c.at == 0 && c.head.is_empty() && !c.inline { root_off(&src, 1) } else { switched_off(&src, c.at, 1) };
        if off {
            vs::reach("disabled");
            continue;
        }
        for (i, (k, s, e)) in c.kvs.iter().enumerate() {
            let same: Vec<usize> = (0..c.kvs.len()).filter(|&j| c.kvs[j].0 == *k).collect();
            if same.len() > 1 && same[same.len() - 1] - same[0] + 1 != same.len() {
                want.push((1, *s, *e));
            }
            let _ = i;
        }
    }
    let hs: Vec<&vref::C> = cs.iter().filter(|c| !c.head.is_empty()).collect();
    if root_off(&src, 2) {
        vs::reach("disabled");
    } else {
        for c in &hs {
            let same: Vec<usize> = (0..hs.len()).filter(|&j| hs[j].head[0] == c.head[0]).collect();
            if same[same.len() - 1] - same[0] + 1 != same.len() {
                want.push((2, c.at, c.kvs.last().map_or(c.at + 1, |k| k.2)));
            }
        }
    }
    for r in 1..3 {
        let mut w: Vec<(usize, usize)> = want.iter().filter(|w| w.0 == r).map(|w| (w.1, w.2)).collect();
        if lv[r] == 1 {
            w.clear();
        }
        let mut g: Vec<(usize, usize)> = vec![];
        for d in got.iter().filter(|d| d.code() == RULES[r]) {
            let x = d.range();
            g.push((byte(&src, x.start.line, x.start.column), byte(&src, x.end.line, x.end.column)));
            vs::check(d.is_error() == (lv[r] == 3), "level");
        }
        w.sort();
        g.sort();
        vs::check(w.len() == g.len(), "out-of-order");
        if !w.is_empty() {
            vs::reach(RULES[r]);
        }
        for (i, (w, g)) in w.iter().zip(&g).enumerate() {
            vs::check(g.0 <= w.0 && w.1 <= g.1, "out-of-order-range");
            let _ = i;
            // the range holds no other item
            for c in &cs {
                if r == 1 {
                    let mine = c.kvs.iter().any(|k| (k.1, k.2) == *w);
                    vs::check(!mine || !c.kvs.iter().any(|k| k.1 >= g.0 && k.1 < g.1 && k.1 != w.0), "out-of-order-range");
                } else if c.at != w.0 && !c.head.is_empty() {
                    vs::check(c.at < g.0 || c.at >= g.1, "out-of-order-range");
                }
            }
        }
    }
    // Empty keys: one report for each key of each table; a directive at its first definition
    // switches it off.
    let mut n = 0;
    empties(&vref::V::Tbl(t), &mut n);
    let g: Vec<&Diagnostic> = got.iter().filter(|d| d.code() == RULES[0]).collect();
    let mut at: Vec<usize> = vec![];
    for d in &g {
        let x = d.range();
        let (a, b) = (byte(&src, x.start.line, x.start.column), byte(&src, x.end.line, x.end.column));
        vs::check(matches!(&src[a..b], "\"\"" | "''"), "empty-key-range");
        vs::check(!at.contains(&a), "empty-key-twice");
        vs::check(d.is_error() == (lv[0] == 3), "level");
        // the directives of a line are those of its first key
        let first = a == 0 || src[..a].ends_with(['\n', '[']);
        vs::check(!first || !switched_off(&src, a, 0), "empty-key-although-disabled");
        at.push(a);
    }
    if !src.contains("lint.rules.key-empty") {
        vs::check(g.len() == if lv[0] == 1 || allow { 0 } else { n }, "empty-keys");
        if n > 0 {
            vs::reach(RULES[0]);
        }
    }
    // other reports concern misplaced directives only
    vs::check(got.iter().all(|d| RULES.contains(&d.code()) || src.lines().nth(d.range().start.line as usize).is_some_and(|l| l.contains("# tombi:"))), "other-diagnostic");
}

/// C22.  int2: 1 = the place of a known finding; int0: line of the value the directive is for (after the schema directive), int1: 1 = the
/// schema does not use the rule at all; blob0: schema, blob1: document with `@` where the directive
/// goes, blob2: name of the rule.
fn noqa() {
    let line = vs::int(0) as u32 + 2;
    let schema = vs::doc(0);
    let doc = vs::doc(1);
    let rule = vs::doc(2);
    let on = format!("{HEAD}{}", doc.replace('@', &format!("tombi: lint.rules.{rule}.disabled = true")));
    let off = format!("{HEAD}{}", doc.replace('@', &format!("xombi: lint.rules.{rule}.disabled = true")));
    if vref::parse(on.as_bytes(), true).is_err() {
        vs::assume(false);
        return;
    }
    let code = if rule == "const-value" { "const" } else { &rule };
    let all = lint(&off, &schema, false);
    let got = lint(&on, &schema, false);
    vs::note(&format!("{all:?}\n{got:?}"));
    vs::out(&[all.len() as u8, got.len() as u8]);
    let text = |d: &Diagnostic| format!("{d:?}");
    // a range may begin with blank space and the comments above the value
    let here = |d: &Diagnostic| {
        let mut a = byte(&off, d.range().start.line, d.range().start.column);
        let b = byte(&off, d.range().end.line, d.range().end.column);
        loop {
            let rest = off[a..b].trim_start();
            a = b - rest.len();
            match rest.find('\n') {
                Some(n) if rest.starts_with('#') => a += n,
                _ => break,
            }
        }
        off[..a].matches('\n').count() == line as usize
    };
    let mut want: Vec<String> = all.iter().filter(|d| d.code() != code || !here(d)).map(text).collect();
    // reports about the directive itself are not about the document
    let own = |d: &Diagnostic| {
        let at = byte(&on, d.range().start.line, d.range().start.column);
        on[..at].rfind("# tombi:").is_some_and(|i| !on[i..at].contains('\n'))
    };
    let mut have: Vec<String> = got.iter().filter(|d| !own(d)).map(text).collect();
    want.sort();
    have.sort();
    vs::check(want == have, "directive-changes-other-reports");
    let unused = got.iter().filter(|d| d.code() == "unused-noqa").count();
    vs::check(!all.iter().any(|d| d.code() == "unused-noqa"), "unused-noqa-without-directive");
    if want.len() < all.len() {
        vs::reach("removed");
        if vs::int(2) == 1 && unused > 0 {
            vs::known(true, "unused-noqa-from-other-branch");
            return;
        }
        vs::check(unused == 0, "unused-noqa-although-used");
    } else {
        vs::reach("unused");
        if vs::int(1) == 1 {
            vs::reach("reported-unused");
            vs::check(unused == 1, "unused-noqa-missing");
        }
        vs::check(unused <= 1, "unused-noqa-twice");
    }
}


/// What the directives at the head of a document say; None if a directive is not well-formed or
/// says something twice.  (toml-version, format.disabled, lint.disabled, schema.strict)
type Head = (Option<bool>, bool, bool, Option<bool>);

/// One directive: the settings it makes, by number.
fn directive(content: &str) -> Option<Vec<(usize, bool)>> {
    use vref::V;
    let t = vref::parse(content.as_bytes(), false).ok()?;
    let mut out = vec![];
    for (k, v) in &t.e {
        match (std::str::from_utf8(k).ok()?, v) {
            ("toml-version", V::Str(s)) if s == b"v1.0.0" || s == b"v1.1.0" => out.push((0, s == b"v1.1.0")),
            (k @ ("format" | "lint" | "schema"), V::Tbl(t)) => {
                for (k2, v) in &t.e {
                    match (k, std::str::from_utf8(k2).ok()?, v) {
                        ("format", "disabled", V::Bool(true)) => out.push((1, true)),
                        ("lint", "disabled", V::Bool(true)) => out.push((2, true)),
                        ("schema", "strict", V::Bool(b)) => out.push((3, *b)),
                        _ => return None,
                    }
                }
            }
            _ => return None,
        }
    }
    Some(out)
}

/// C23.  int0: version of the options, int1: strictness of the options; blob0: comments at the head,
/// blob1: the document below.
fn heads() {
    let (v11, strict) = (vs::int(0) == 1, vs::int(1) == 1);
    let head = vs::doc(0);
    let body = vs::doc(1);
    let src = format!("{head}\n{body}");
    const SCHEMA: &str = r#"{"type":"object","properties":{"a":{},"b":{"type":"integer"}}}"#;
    let (mut set, mut good, mut twice) = ([None; 4], true, false);
    let mut bad_lines = vec![];
    for (i, l) in head.lines().enumerate() {
        let Some(c) = l.strip_prefix("#:tombi ") else { continue };
        match directive(c) {
            Some(v) => {
                for (k, b) in v {
                    twice |= set[k].is_some();
                    set[k] = Some(b);
                }
            }
            None => {
                good = false;
                bad_lines.push(i as u32);
            }
        }
    }
    let plain = format!("{}\n{body}", head.replace("#:tombi ", "# tombi "));
    let ver = |v: bool| if v { TomlVersion::V1_1_0 } else { TomlVersion::V1_0_0 };
    let lint = |src: &str, v: bool, s: bool| {
        let (st, o) = (store(SCHEMA, s), LintOptions::default());
        let l = tombi_linter::Linter::new(ver(v), &o, None, &st);
        run(l.lint(src)).err().unwrap_or_default()
    };
    let format = |src: &str, v: bool| {
        let (st, o) = (store(SCHEMA, false), FormatOptions::default());
        run(tombi_formatter::Formatter::new(ver(v), &o, None, &st).format(src))
    };
    let got = lint(&src, v11, strict);
    vs::note(&format!("{set:?} {good} {twice} {got:?}"));
    if !good || twice {
        vs::reach("refused");
        for l in &bad_lines {
            vs::check(got.iter().any(|d| d.range().start.line == *l), "malformed-directive-not-reported");
        }
        vs::check(!twice || got.iter().any(|d| (d.range().start.line as usize) < head.lines().count()), "double-directive-not-reported");
        return;
    }
    let v = set[0].unwrap_or(v11);
    let want = lint(&plain, v, set[3].unwrap_or(strict));
    vs::note(&format!("want {want:?}"));
    if set[2] == Some(true) && tombi_parser_ok(&src) {
        vs::check(got.is_empty(), "reports-although-disabled");
        vs::reach("lint-off");
    } else {
        vs::check(got == want, "other-reports");
        vs::reach(if got.is_empty() { "lint-clean" } else { "lint" });
    }
    let f = format(&src, v11);
    if set[1] == Some(true) {
        vs::check(f == Ok(src.clone()), "formatted-although-disabled");
        vs::reach("format-off");
    } else {
        let w = format(&plain, v);
        vs::check(f.is_ok() == w.is_ok(), "refuses-another-text");
        if let (Ok(f), Ok(w)) = (f, w) {
            vs::note(&format!("{f:?} {w:?}"));
            let n = head.lines().count();
            vs::check(f.lines().skip(n).eq(w.lines().skip(n)), "formats-another-way");
            vs::reach("format");
        }
    }
}

/// Without syntax errors, as the formatter sees it.
fn tombi_parser_ok(src: &str) -> bool {
    let (st, o) = (store("{}", false), FormatOptions::default());
    let plain = src.replace("#:", "# ");
    run(tombi_formatter::Formatter::new(TomlVersion::V1_1_0, &o, None, &st).format(&plain)).is_ok()
}

vs::harness! { warm: warm; schema_valid, sorted, rules, noqa, heads }
