//! Configuration drivers: the real configuration reader, override resolution, file search and schema
//! association; the oracle reads the configuration text with vref.
use itertools::Either;
use std::path::Path;
use std::sync::Arc;
use tombi_config::Config;
use tombi_schema_store::SchemaStore;
use tombi_toml_version::TomlVersion;
use vref::{T, V};

pub fn run<F: core::future::Future>(f: F) -> F::Output {
    #[cfg(target_family = "wasm")]
    return vs::block_on(f);
    #[cfg(not(target_family = "wasm"))]
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

fn config(text: &str, path: &str) -> Result<Config, String> {
    serde_tombi::config::from_str(text, Path::new(path)).map_err(|e| e.to_string())
}

/// `*` and `?` do not cross `/`, `**/` stands for any number of directories, `{a,b}` for a choice.
pub fn glob(p: &[u8], s: &[u8]) -> bool {
    if p.is_empty() {
        return s.is_empty();
    }
    if p.starts_with(b"**/") {
        let rest = &p[3..];
        return glob(rest, s) || (0..s.len()).any(|i| s[i] == b'/' && glob(rest, &s[i + 1..]));
    }
    if p == b"**" {
        return true;
    }
    match p[0] {
        b'*' => {
            let n = s.iter().position(|&c| c == b'/').unwrap_or(s.len());
            (0..=n).any(|i| glob(&p[1..], &s[i..]))
        }
        b'?' => !s.is_empty() && s[0] != b'/' && glob(&p[1..], &s[1..]),
        b'{' => {
            let end = p.iter().position(|&c| c == b'}').unwrap();
            p[1..end].split(|&c| c == b',').any(|a| s.starts_with(a) && glob(&p[end + 1..], &s[a.len()..]))
        }
        b'[' => {
            let end = p.iter().position(|&c| c == b']').unwrap();
            !s.is_empty() && p[1..end].contains(&s[0]) && glob(&p[end + 1..], &s[1..])
        }
        c => !s.is_empty() && s[0] == c && glob(&p[1..], &s[1..]),
    }
}

fn strs(v: Option<&V>) -> Option<Vec<String>> {
    let Some(V::Arr(a)) = v else { return None };
    Some(a.iter().map(|x| if let V::Str(b) = x { String::from_utf8(b.clone()).unwrap() } else { String::new() }).collect())
}

fn sub<'a>(t: &'a T, k: &str) -> Option<&'a T> {
    if let Some(V::Tbl(t)) = t.get(k.as_bytes()) { Some(t) } else { None }
}

fn tables<'a>(t: &'a T, k: &str) -> Vec<&'a T> {
    let Some(V::Arr(a)) = t.get(k.as_bytes()) else { return vec![] };
    a.iter().filter_map(|v| if let V::Tbl(t) = v { Some(t) } else { None }).collect()
}

fn text(v: &V) -> String {
    match v {
        V::Str(s) => format!("{:?}", String::from_utf8_lossy(s)),
        V::Int(i) => i.to_string(),
        V::Bool(b) => b.to_string(),
        V::Tbl(t) => format!("{{{}}}", t.e.iter().map(|(k, v)| format!("{} = {}", String::from_utf8_lossy(k), text(v))).collect::<Vec<_>>().join(", ")),
        _ => unreachable!(),
    }
}

/// The directory that patterns are relative to.
fn base(cfg: &str) -> String {
    let (dir, name) = cfg.rsplit_once('/').unwrap_or(("", cfg));
    let (up, last) = dir.rsplit_once('/').unwrap_or(("", dir));
    if name == "tombi.toml" && last == ".config" { up.to_string() } else { dir.to_string() }
}

fn relative<'a>(path: &'a str, cfg: &str) -> &'a str {
    let b = base(cfg);
    if cfg.is_empty() {
        return path;
    }
    match path.strip_prefix(&b) {
        Some(r) if r.starts_with('/') => &r[1..],
        Some(r) if b.is_empty() => r,
        _ => path,
    }
}

fn any(pats: &[String], path: &str) -> bool {
    pats.iter().any(|p| glob(p.as_bytes(), path.as_bytes()))
}

/// Rules of section `what` for the path: None if an override turns it off.
fn rules(c: &T, rel: &str, what: &str) -> Option<String> {
    let none = T::new(vref::K::Header);
    let base = sub(c, what).and_then(|t| sub(t, "rules")).unwrap_or(&none);
    let hit = tables(c, "overrides").into_iter().find(|o| {
        let f = sub(o, "files").unwrap();
        any(&strs(f.get(b"include")).unwrap(), rel) && !any(&strs(f.get(b"exclude")).unwrap_or_default(), rel)
    });
    let over = hit.and_then(|o| sub(o, what));
    if over.is_some_and(|o| matches!(o.get(b"enabled"), Some(V::Bool(false)))) {
        return None;
    }
    let over = over.and_then(|o| sub(o, "rules")).unwrap_or(&none);
    let mut out = String::new();
    for (k, v) in &base.e {
        out.push_str(&format!("{} = {}\n", String::from_utf8_lossy(k), text(over.get(k).unwrap_or(v))));
    }
    for (k, v) in &over.e {
        if base.get(k).is_none() {
            out.push_str(&format!("{} = {}\n", String::from_utf8_lossy(k), text(v)));
        }
    }
    Some(format!("[{what}.rules]\n{out}"))
}

/// blob0: configuration, blob1: path of the document, blob2: path of the configuration or nothing.
fn opts() {
    let src = vs::doc(0);
    let path = vs::doc(1);
    let cp = vs::doc(2);
    let Ok(c) = vref::parse(src.as_bytes(), true) else {
        vs::assume(false);
        return;
    };
    let cfg = match config(&src, &cp) {
        Ok(c) => c,
        Err(e) => {
            vs::note(&e);
            vs::check(false, "configuration-refused");
            return;
        }
    };
    let cpath = (!cp.is_empty()).then(|| Path::new(&cp));
    let rel = relative(&path, &cp);
    let files = sub(&c, "files");
    let inc = files.and_then(|f| strs(f.get(b"include"))).unwrap_or(vec!["**/*.toml".into()]);
    let exc = files.and_then(|f| strs(f.get(b"exclude"))).unwrap_or_default();
    use tombi_glob::MatchResult::*;
    let want = if !any(&inc, rel) { IncludeNotMatched } else if any(&exc, rel) { ExcludeMatched } else { Matched };
    let got = tombi_glob::matches_file_patterns(Path::new(&path), cpath, &cfg);
    vs::note(&format!("{rel} {want:?} {got:?}"));
    vs::out(&[(got == Matched) as u8]);
    vs::reach(if got == Matched { "file" } else { "no-file" });
    vs::check(got == want, "file-patterns");

    let f = tombi_glob::get_format_options(&cfg, Some(Path::new(&path)), cpath);
    let l = tombi_glob::get_lint_options(&cfg, Some(Path::new(&path)), cpath);
    let wf = rules(&c, rel, "format").map(|t| config(&t, &cp).unwrap().format.unwrap());
    let wl = rules(&c, rel, "lint").map(|t| config(&t, &cp).unwrap().lint.unwrap());
    vs::note(&format!("{wf:?}\n{f:?}\n{wl:?}\n{l:?}"));
    vs::reach(if f.is_none() || l.is_none() { "off" } else { "rules" });
    vs::check(f.is_some() == wf.is_some(), "format-enabled");
    vs::check(l.is_some() == wl.is_some(), "lint-enabled");
    vs::check(f == wf, "format-options");
    vs::check(l == wl, "lint-options");
}

#[derive(Debug)]
struct Mem(Vec<String>);
impl tombi_schema_store::HttpClient for Mem {
    fn get_bytes<'a>(&'a self, url: &'a str) -> tombi_schema_store::HttpFuture<'a, Result<bytes::Bytes, tombi_schema_store::FetchError>> {
        use tombi_future::Boxable;
        let name = url.strip_prefix("https://t.test/").unwrap_or("");
        let body = match name.strip_suffix(".json").unwrap_or("").as_bytes() {
            [b's', b'5'] => Some(r#"{"allOf":[{"$ref":"https://t.test/s1.json"}]}"#.to_string()),
            [b's', n @ b'1'..=b'4'] => Some(schema(n - b'0')),
            [b'c', n @ b'1'..=b'9'] => self.0.get((n - b'1') as usize).map(|x| catalog(x)),
            _ => None,
        };
        let r = match body {
            Some(b) => Ok(bytes::Bytes::from(b.into_bytes())),
            None => Err(tombi_schema_store::FetchError::StatusNotOk { status: 404 }),
        };
        async move { r }.boxed()
    }
}

/// What schema number `n` says about an integer from 2 to 999: each of them refuses it with another code.
fn schema(n: u8) -> String {
    let leaf = match n {
        1 => r#"{"type":"integer","maximum":1}"#,
        2 => r#"{"type":"integer","minimum":1000}"#,
        3 => r#"{"type":"string"}"#,
        _ => r#"{"type":"integer","multipleOf":1000}"#,
    };
    let table = format!(r#"{{"type":"object","properties":{{"v":{leaf}}}}}"#);
    let list = format!(r#"{{"type":"array","items":{table}}}"#);
    let open = r#"{"type":"object","additionalProperties":true}"#;
    let old = r#"{"type":"integer","deprecated":true}"#;
    format!(r#"{{"type":"object","properties":{{"v":{leaf},"t":{table},"l":{list},"tool":{open},"d":{old},"open":{{"type":"array"}},"any":true}}}}"#)
}

fn code(n: u8) -> &'static str {
    ["", "integer-maximum", "integer-minimum", "type-mismatch", "integer-multiple-of", "integer-maximum"][n as usize]
}

/// A catalog of lines `number pattern…`.
fn catalog(text: &str) -> String {
    let items: Vec<String> = text
        .lines()
        .map(|l| {
            let mut w = l.split(' ');
            let n = w.next().unwrap();
            let m: Vec<String> = w.map(|p| format!("{p:?}")).collect();
            format!(r#"{{"name":"n","description":"d","fileMatch":[{}],"url":"https://t.test/s{n}.json"}}"#, m.join(","))
        })
        .collect();
    format!(r#"{{"schemas":[{}]}}"#, items.join(","))
}

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Key(Vec<u8>),
    AnyKey,
    Index(usize),
    AnyIndex,
}

/// A path like `a.*.'b c'[1][*]`.
fn steps(p: &[u8]) -> Vec<Step> {
    let mut out = vec![];
    let mut i = 0;
    while i < p.len() {
        match p[i] {
            b'.' => i += 1,
            b'[' => {
                let e = i + p[i..].iter().position(|&c| c == b']').unwrap();
                out.push(if &p[i + 1..e] == b"*" { Step::AnyIndex } else { Step::Index(p[i + 1..e].iter().fold(0, |n, c| n * 10 + (c - b'0') as usize)) });
                i = e + 1;
            }
            q @ (b'\'' | b'"') => {
                let e = i + 1 + p[i + 1..].iter().position(|&c| c == q).unwrap();
                out.push(Step::Key(p[i + 1..e].to_vec()));
                i = e + 1;
            }
            _ => {
                let e = p[i..].iter().position(|&c| c == b'.' || c == b'[').map_or(p.len(), |n| i + n);
                out.push(if &p[i..e] == b"*" { Step::AnyKey } else { Step::Key(p[i..e].to_vec()) });
                i = e;
            }
        }
    }
    out
}

/// How many steps are named, if the pattern fits the path.
fn fits(pat: &[Step], path: &[Step]) -> Option<usize> {
    if pat.len() != path.len() {
        return None;
    }
    let mut n = 0;
    for (a, b) in pat.iter().zip(path) {
        match (a, b) {
            (Step::AnyKey, Step::Key(_)) | (Step::AnyIndex, Step::Index(_)) => {}
            (a, b) if a == b => n += 1,
            _ => return None,
        }
    }
    Some(n)
}

struct Entry {
    n: u8,
    strict: bool,
    level: Option<u8>,
    overrides: Vec<(Vec<Step>, u8)>,
}

struct Walk<'a> {
    src: &'a str,
    out: Vec<(String, u32, u8)>,
}

const OFF: u8 = 0;
const WARN: u8 = 1;
const ERROR: u8 = 2;

impl Walk<'_> {
    /// The line a number stands on: each number occurs once.
    fn line(&self, v: i64) -> u32 {
        let t = v.to_string();
        let at = self.src.find(&t).unwrap();
        self.src[..at].matches('\n').count() as u32
    }

    fn first_line(&self, v: &V) -> u32 {
        match v {
            V::Int(i) => self.line(*i),
            V::Arr(a) => a.iter().map(|v| self.first_line(v)).min().unwrap_or(0),
            V::Tbl(t) => t.e.iter().map(|e| self.first_line(&e.1)).min().unwrap_or(0),
            _ => 0,
        }
    }

    fn go<'b>(&mut self, v: &V, path: &mut Vec<Step>, cur: Option<(&'b Entry, &'b vref::js::J)>, subs: &'b [(Vec<Step>, Entry)], js: &'b [vref::js::J]) {
        use vref::js::J;
        let mut best: Option<(usize, &Entry)> = None;
        for (p, e) in subs {
            if let Some(n) = fits(p, path) {
                if best.is_none_or(|b| n > b.0) {
                    best = Some((n, e));
                }
            }
        }
        let cur = best.map(|(_, e)| (e, &js[e.n as usize])).or(cur);
        if let Some((e, s)) = cur {
            if s.get("deprecated").is_some() {
                let mut level = e.level.unwrap_or(WARN);
                let mut named = None;
                for (p, l) in &e.overrides {
                    if let Some(n) = fits(p, path) {
                        if named.is_none_or(|m| n > m) {
                            named = Some(n);
                            level = *l;
                        }
                    }
                }
                if level != OFF {
                    let l = self.first_line(v);
                    self.out.push(("deprecated".into(), l, level));
                }
            }
        }
        match v {
            V::Int(i) => {
                if let Some((e, s)) = cur {
                    let refused = ["maximum", "minimum", "multipleOf"].iter().any(|k| s.get(k).is_some()) || s.get("type").is_some_and(|t| t != &J::Str(b"integer".to_vec()));
                    if refused {
                        let c = if s.get("properties").is_some() || s.get("items").is_some() || s.get("additionalProperties").is_some() { "type-mismatch" } else { code(e.n) };
                        let l = self.line(*i);
                        self.out.push((c.into(), l, ERROR));
                    }
                }
            }
            V::Arr(a) => {
                if let Some((_, s)) = cur {
                    vs::assume(s.get("type").is_none_or(|t| t == &J::Str(b"array".to_vec())));
                }
                for (i, x) in a.iter().enumerate() {
                    path.push(Step::Index(i));
                    let c = cur.and_then(|(e, s)| s.get("items").map(|s| (e, s)));
                    self.go(x, path, c, subs, js);
                    path.pop();
                }
            }
            V::Tbl(t) => {
                if let Some((_, s)) = cur {
                    vs::assume(s.get("type").is_none_or(|t| t == &J::Str(b"object".to_vec())));
                }
                for (k, x) in &t.e {
                    let c = cur.and_then(|(e, s)| s.get("properties").and_then(|p| p.getb(k)).map(|s| (e, s)));
                    if let Some((e, s)) = cur {
                        if c.is_none() && s.get("properties").is_some() && e.strict {
                            self.out.push((format!("strict {}", String::from_utf8_lossy(k)), 0, WARN));
                        }
                    }
                    path.push(Step::Key(k.clone()));
                    self.go(x, path, c, subs, js);
                    path.pop();
                }
            }
            _ => {}
        }
    }
}

/// `*` crosses `/` in the patterns of schemas; a pattern without `*` fits any directory.
fn schema_match(p: &str, rel: &str, path: &str) -> bool {
    fn g(p: &[u8], s: &[u8]) -> bool {
        if let Some(r) = p.strip_prefix(b"**/") {
            return g(r, s) || (0..s.len()).any(|i| s[i] == b'/' && g(r, &s[i + 1..]));
        }
        match (p.first(), s.first()) {
            (None, x) => x.is_none(),
            (Some(b'*'), _) => (0..=s.len()).any(|i| g(&p[1..], &s[i..])),
            (Some(b'?'), Some(_)) => g(&p[1..], &s[1..]),
            (Some(a), Some(b)) => a == b && g(&p[1..], &s[1..]),
            _ => false,
        }
    }
    let p = if p.contains('*') || p.starts_with('/') { p.to_string() } else { format!("**/{p}") };
    g(p.as_bytes(), rel.as_bytes()) || g(p.as_bytes(), path.as_bytes())
}

fn level(t: Option<&T>) -> Option<u8> {
    let Some(V::Str(s)) = t.and_then(|t| sub(t, "lint")).and_then(|t| sub(t, "rules")).and_then(|t| t.get(b"deprecated")) else { return None };
    Some(match s.as_slice() {
        b"off" => OFF,
        b"warn" => WARN,
        _ => ERROR,
    })
}

fn boolean(t: Option<&T>, k: &str) -> Option<bool> {
    if let Some(V::Bool(b)) = t.and_then(|t| t.get(k.as_bytes())) { Some(*b) } else { None }
}

fn num(path: &str) -> u8 {
    path.as_bytes()[path.len() - 6] - b'0'
}

/// blob0: configuration, blob1: path of the document, blob2: path of the configuration, blob3:
/// document (its numbers all differ, from 100 to 999), blob4: catalogs, separated by a blank line;
/// int0: number of a known finding, or 0.
fn assoc() {
    let finding = vs::int(0);
    let src = vs::doc(0);
    let path = vs::doc(1);
    let cp = vs::doc(2);
    let doc = vs::doc(3);
    let cats: Vec<String> = vs::doc(4).split("\n\n").map(|s| s.to_string()).collect();
    let (Ok(c), Ok(t)) = (vref::parse(src.as_bytes(), true), vref::parse(doc.as_bytes(), true)) else {
        vs::assume(false);
        return;
    };
    // what applies where
    let rel = relative(&path, &cp);
    let conf = sub(&c, "schema");
    let global = boolean(conf, "strict").unwrap_or(true);
    let directive = if doc.contains("schema.strict = false") { Some(false) } else if doc.contains("schema.strict = true") { Some(true) } else { None };
    let enabled = boolean(conf, "enabled").unwrap_or(true);
    let (mut root, mut subs): (Option<(Entry, Option<bool>)>, Vec<(Vec<Step>, Entry, Option<bool>)>) = (None, vec![]);
    for s in tables(&c, "schemas") {
        let hit = |k: &[u8]| strs(s.get(k)).unwrap_or_default().iter().any(|p| schema_match(p, rel, &path));
        if !enabled || !hit(b"include") || hit(b"exclude") {
            continue;
        }
        let Some(V::Str(p)) = s.get(b"path") else { unreachable!() };
        let strict = boolean(Some(s), "strict");
        let mut overrides = vec![];
        for o in tables(s, "overrides") {
            for t in strs(o.get(b"targets")).unwrap() {
                if let Some(l) = level(Some(o)) {
                    overrides.push((steps(t.as_bytes()), l));
                }
            }
        }
        let e = Entry { n: num(core::str::from_utf8(p).unwrap()), strict: false, level: level(Some(s)), overrides };
        match s.get(b"root") {
            None => {
                if root.is_none() {
                    root = Some((e, strict));
                }
            }
            Some(V::Str(r)) => {
                let r = steps(r);
                if !subs.iter().any(|x| x.0 == r) {
                    subs.push((r, e, strict));
                }
            }
            _ => unreachable!(),
        }
    }
    if enabled {
        for p in conf.and_then(|s| sub(s, "catalog")).and_then(|s| strs(s.get(b"paths"))).unwrap_or_default() {
            for l in cats[(num(&p) - 1) as usize].lines() {
                let mut w = l.split(' ');
                let n = w.next().unwrap().as_bytes()[0] - b'0';
                if root.is_none() && w.any(|p| schema_match(p, rel, &path)) {
                    root = Some((Entry { n, strict: false, level: None, overrides: vec![] }, None));
                }
            }
        }
    }
    // the level of the first sub-schema goes for the others, too, if there is no root schema
    let leaks = root.is_none() && subs.first().is_some_and(|s| s.1.level.is_some()) && subs.iter().any(|s| s.1.level.is_none()) && doc.contains("\nd = ");
    vs::assume(leaks == (finding == 1));
    // left open: whether a sub-schema takes over the level of the root schema
    let inherits = root.as_ref().is_some_and(|r| r.0.level.is_some()) && subs.iter().any(|s| s.1.level.is_none()) && doc.contains("\nd = ");
    vs::assume(!inherits);
    let rooted = root.as_ref().and_then(|r| r.1);
    if let Some(d) = doc.strip_prefix("#:schema ") {
        let n = num(d.lines().next().unwrap());
        let same = root.take().filter(|r| r.0.n == n);
        root = Some(same.unwrap_or((Entry { n, strict: false, level: None, overrides: vec![] }, None)));
    }
    if let Some(r) = &mut root {
        r.0.strict = directive.or(rooted).unwrap_or(global);
    }
    for s in &mut subs {
        s.1.strict = directive.or(s.2).or(rooted).unwrap_or(global);
    }
    // schema 5 says what schema 1 says
    let js: Vec<vref::js::J> = (0..6).map(|n| vref::js::json(schema(if n == 5 { 1 } else { n }).as_bytes()).unwrap()).collect();
    let subs: Vec<(Vec<Step>, Entry)> = subs.into_iter().map(|(p, e, _)| (p, e)).collect();
    let mut w = Walk { src: &doc, out: vec![] };
    let cur = root.as_ref().map(|r| (&r.0, &js[r.0.n as usize]));
    w.go(&V::Tbl(t), &mut vec![], cur, &subs, &js);
    let mut want = w.out;
    want.sort();

    // what the linter reports
    let cfg = match config(&src, &cp) {
        Ok(c) => c,
        Err(e) => {
            vs::note(&e);
            vs::check(false, "configuration-refused");
            return;
        }
    };
    let st = SchemaStore::new_with_options_and_http_client(
        tombi_schema_store::Options { strict: cfg.schema.as_ref().and_then(|s| s.strict), offline: Some(false), cache: None },
        Arc::new(Mem(cats)),
    );
    let cpath = (!cp.is_empty()).then(|| Path::new(&cp));
    let loaded = run(st.load_config(&cfg, cpath)).is_ok();
    vs::check(loaded, "configuration-not-loaded");
    let o = tombi_config::LintOptions::default();
    let l = tombi_linter::Linter::new(TomlVersion::V1_1_0, &o, Some(Either::Right(Path::new(&path))), &st);
    let d = run(l.lint(&doc)).err().unwrap_or_default();
    let mut got: Vec<(String, u32, u8)> = d
        .iter()
        .map(|d| {
            let at = d.range().start;
            let level = if d.is_error() { ERROR } else { WARN };
            if d.code() == "table-strict-additional-keys" {
                // a table under a header is reported from its header on
                let line: String = doc.lines().nth(at.line as usize).unwrap().chars().skip(at.column as usize).collect();
                let head = line.starts_with('[');
                let path: String = line.trim_start_matches('[').chars().take_while(|c| c.is_alphanumeric() || *c == '.').collect();
                let key = if head { path.rsplit('.').next() } else { path.split('.').next() }.unwrap();
                return (format!("strict {key}"), 0, level);
            }
            (d.code().to_string(), at.line, level)
        })
        .collect();
    got.sort();
    vs::note(&format!("{want:?}\n{got:?}"));
    vs::out(&[got.len() as u8]);
    vs::reach(if root.is_none() { "no-root" } else if subs.is_empty() { "root" } else { "sub" });
    if finding == 1 {
        if got != want {
            vs::known(true, "deprecated-level-of-another-sub-schema");
        }
        return;
    }
    vs::check(got == want, "reports");
}

/// Orders of the format directives of a document.
fn directives(s: &str) -> Vec<&str> {
    let mut v = vec![];
    for l in s.lines() {
        let Some(i) = l.find("# tombi: format.rules.") else { continue };
        match l[i..].split_once('"') {
            Some((_, r)) => v.push(r.split_once('"').unwrap().0),
            None => v.push("disabled"),
        }
    }
    v
}

/// `[[schemas]]` entry: settings of the two kinds of order (0 = arrays, 1 = tables).
struct Order {
    js: vref::js::J,
    on: [Option<bool>; 2],
    overrides: Vec<(Vec<Step>, [Option<String>; 2])>,
}

const KIND: [&str; 2] = ["array-values-order", "table-keys-order"];

/// What an entry or override says about a kind of order: `enabled`, `disabled`, an order, or nothing.
fn says(t: &T, kind: usize) -> Option<String> {
    let r = sub(t, "format").and_then(|t| sub(t, "rules"))?;
    match r.get(KIND[kind].as_bytes())? {
        V::Str(s) => Some(String::from_utf8(s.clone()).unwrap()),
        V::Tbl(t) => Some(if boolean(Some(t), "enabled").unwrap_or(true) { "enabled" } else { "disabled" }.to_string()),
        _ => None,
    }
}

fn best<'a>(e: &'a Order, path: &[Step], kind: usize) -> Option<&'a str> {
    let mut hit: Option<(usize, &str)> = None;
    for (p, o) in &e.overrides {
        if let (Some(n), Some(o)) = (fits(p, path), &o[kind]) {
            if hit.is_none_or(|h| n > h.0) {
                hit = Some((n, o));
            }
        }
    }
    hit.map(|h| h.1)
}

struct Plan<'a> {
    root: Option<&'a Order>,
    entries: &'a [(Vec<Step>, Order)],
    dirs: Vec<(String, &'a str)>,
    subs: Vec<(String, &'a vref::js::J)>,
}

impl<'a> Plan<'a> {
    fn go(&mut self, v: &V, path: &mut Vec<Step>, name: &str, owner: Option<&'a Order>) {
        let mut hit: Option<(usize, &'a Order)> = None;
        for (p, e) in self.entries {
            if let Some(n) = fits(p, path) {
                if hit.is_none_or(|h| n > h.0) {
                    hit = Some((n, e));
                }
            }
        }
        let owner = hit.map(|h| h.1).or(owner);
        if let Some(h) = hit {
            self.subs.push((name.to_string(), &h.1.js));
        }
        let kind = matches!(v, V::Tbl(_)) as usize;
        let said = owner.and_then(|o| best(o, path, kind)).or_else(|| self.root.and_then(|o| best(o, path, kind)));
        match said {
            Some("enabled") => {}
            Some(o) => self.dirs.push((name.to_string(), o)),
            None => {
                if owner.is_some_and(|o| o.on[kind] == Some(false)) {
                    self.dirs.push((name.to_string(), "disabled"));
                }
            }
        }
        match v {
            V::Tbl(t) => {
                for (k, x) in &t.e {
                    path.push(Step::Key(k.clone()));
                    self.go(x, path, &format!("{name}.{}", core::str::from_utf8(k).unwrap()), owner);
                    path.pop();
                }
            }
            V::Arr(a) => {
                for (i, x) in a.iter().enumerate() {
                    path.push(Step::Index(i));
                    self.go(x, path, &format!("{name}[{i}]"), owner);
                    path.pop();
                }
            }
            _ => {}
        }
    }
}

#[derive(Debug)]
struct Texts(Vec<String>);
impl tombi_schema_store::HttpClient for Texts {
    fn get_bytes<'a>(&'a self, url: &'a str) -> tombi_schema_store::HttpFuture<'a, Result<bytes::Bytes, tombi_schema_store::FetchError>> {
        use tombi_future::Boxable;
        let n = num(url);
        let r = match self.0.get(n.wrapping_sub(1) as usize) {
            Some(b) => Ok(bytes::Bytes::from(b.clone().into_bytes())),
            None => Err(tombi_schema_store::FetchError::StatusNotOk { status: 404 }),
        };
        async move { r }.boxed()
    }
}

/// C33.  blob0: configuration, blob1: schemas, one per line (`s1.json` is the first), blob2: document
/// `/w/a.toml`, blob3: the path of each comment directive of the document.
fn order() {
    let src = vs::doc(0);
    let texts: Vec<String> = vs::doc(1).lines().map(|l| l.to_string()).collect();
    let doc = vs::doc(2);
    let at = vs::doc(3);
    let (Ok(c), Ok(t)) = (vref::parse(src.as_bytes(), true), vref::parse(doc.as_bytes(), true)) else {
        vs::assume(false);
        return;
    };
    let cfg = match config(&src, "/w/tombi.toml") {
        Ok(c) => c,
        Err(e) => {
            vs::note(&e);
            vs::check(false, "configuration-refused");
            return;
        }
    };
    let st = SchemaStore::new_with_options_and_http_client(
        tombi_schema_store::Options { strict: None, offline: Some(false), cache: None },
        Arc::new(Texts(texts.clone())),
    );
    let loaded = run(st.load_config(&cfg, Some(Path::new("/w/tombi.toml")))).is_ok();
    vs::check(loaded, "configuration-not-loaded");
    let o = tombi_config::FormatOptions::default();
    let format = |s: &str| run(tombi_formatter::Formatter::new(TomlVersion::V1_1_0, &o, Some(Either::Right(Path::new("/w/a.toml"))), &st).format(s));
    let out = format(&doc);
    vs::note(&format!("{out:?}"));
    let Ok(out) = out else {
        vs::check(false, "not-formatted");
        return;
    };
    let Ok(u) = vref::parse(out.as_bytes(), true) else {
        vs::check(false, "formatted-text-is-invalid");
        return;
    };
    let (mut a, b) = (V::Tbl(t), V::Tbl(u));
    vs::check(vref::sort::same_any(&a, &b), "data-changed");
    let again = format(&out);
    vs::check(matches!(&again, Ok(x) if *x == out), "not-idempotent");
    vs::out(&[out.len() as u8]);

    // what applies where
    let (mut root, mut entries): (Option<Order>, Vec<(Vec<Step>, Order)>) = (None, vec![]);
    for s in tables(&c, "schemas") {
        let Some(V::Str(p)) = s.get(b"path") else { unreachable!() };
        let text = &texts[num(core::str::from_utf8(p).unwrap()) as usize - 1];
        let on = |k| says(s, k).map(|x| x == "enabled");
        let overrides = tables(s, "overrides")
            .into_iter()
            .flat_map(|o| strs(o.get(b"targets")).unwrap().into_iter().map(move |t| (steps(t.as_bytes()), [says(o, 0), says(o, 1)])))
            .collect();
        let e = Order { js: vref::js::json(text.as_bytes()).unwrap(), on: [on(0), on(1)], overrides };
        match s.get(b"root") {
            None => root = Some(e),
            Some(V::Str(r)) => entries.push((steps(r), e)),
            _ => unreachable!(),
        }
    }
    let mut p = Plan { root: root.as_ref(), entries: &entries, dirs: vec![], subs: vec![] };
    for (p_, o) in at.split('\n').zip(directives(&doc)) {
        p.dirs.push((p_.to_string(), o));
    }
    if p.dirs.is_empty() {
        vs::reach("no-directive");
    } else {
        vs::reach("directive");
    }
    let first = root.as_ref();
    p.go(&a, &mut vec![], "", first);
    let yes = vref::js::json(b"true").unwrap();
    let top = root.as_ref().map_or(&yes, |r| &r.js);
    let mut s = vref::sort::Sorter {
        s: vref::js::S { root: top, old: false, open: false, depth: 0 },
        dirs: p.dirs.iter().map(|(p, o)| vref::sort::D(p, o)).collect(),
        subs: p.subs.clone(),
        open: false,
        tables: false,
        arrays: false,
    };
    s.sort(&mut a, Some(top), "");
    if s.tables {
        vs::reach("tables");
    }
    if s.arrays {
        vs::reach("arrays");
    }
    if !s.open && !s.s.open {
        vs::check(vref::sort::same_order(&a, &b), "not-in-the-configured-order");
    }
}

fn warm() {
    let _ = config("[format.rules]\nindent-width = 2\n[[overrides]]\nfiles.include = [\"x\"]\nlint.rules.key-empty = \"off\"\n", "tombi.toml");
}

vs::harness! { warm: warm; opts, assoc, order }
