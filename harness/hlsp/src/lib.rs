//! Language-server drivers: the real `Backend`, requests and notifications in the order an editor
//! sends them.
mod cargo;
use cargo::{navigate, rewrite};
use tombi_lsp::backend::{Backend, Options};
use tombi_syntax::{SyntaxElement, SyntaxKind as K};
use tombi_text::EncodingKind;
use tower_lsp::LanguageServer;
use tower_lsp::lsp_types::*;

pub fn run<F: core::future::Future>(f: F) -> F::Output {
    #[cfg(target_family = "wasm")]
    return vs::block_on(f);
    #[cfg(not(target_family = "wasm"))]
    tokio::runtime::Builder::new_current_thread().build().unwrap().block_on(f)
}

const URI: &str = "untitled:t.toml";
fn uri() -> Url {
    Url::parse(URI).unwrap()
}
fn id() -> TextDocumentIdentifier {
    TextDocumentIdentifier { uri: uri() }
}
fn at(p: Position) -> TextDocumentPositionParams {
    TextDocumentPositionParams { text_document: id(), position: p }
}

fn enc(i: usize) -> EncodingKind {
    match vs::int(i) {
        0 => EncodingKind::Utf8,
        1 => EncodingKind::Utf16,
        _ => EncodingKind::Utf32,
    }
}

// ---- positions, from the text alone ----

fn units(s: &str, e: EncodingKind) -> u32 {
    match e {
        EncodingKind::Utf8 => s.len() as u32,
        EncodingKind::Utf16 => s.encode_utf16().count() as u32,
        _ => s.chars().count() as u32,
    }
}
/// The LSP position of byte offset `at`.
fn pos(s: &str, at: usize, e: EncodingKind) -> Position {
    let b = s.as_bytes();
    let (mut line, mut st) = (0, 0);
    let mut i = 0;
    while i < at {
        if b[i] == b'\n' {
            line += 1;
            st = i + 1;
        }
        i += 1;
    }
    Position::new(line, units(&s[st..at], e))
}
/// The byte offset at an LSP position; `None` when it is no place between two characters of the text.
fn offset(s: &str, p: Position, e: EncodingKind) -> Option<usize> {
    let b = s.as_bytes();
    let (mut line, mut i) = (0, 0);
    while line < p.line {
        if i >= b.len() {
            return None;
        }
        if b[i] == b'\n' {
            line += 1;
        }
        i += 1;
    }
    let mut n = 0;
    while n < p.character {
        let c = s[i..].chars().next()?;
        if c == '\n' || s[i..].starts_with("\r\n") {
            return None;
        }
        n += match e {
            EncodingKind::Utf8 => c.len_utf8(),
            EncodingKind::Utf16 => c.len_utf16(),
            _ => 1,
        } as u32;
        i += c.len_utf8();
    }
    (n == p.character).then_some(i)
}
/// The text after an editor applied `edits` (in any order; ranges are of the text before).
fn apply(s: &str, edits: &[TextEdit], e: EncodingKind) -> Option<String> {
    let mut v: Vec<(usize, usize, &str)> = Vec::new();
    for x in edits {
        let (a, b) = (offset(s, x.range.start, e)?, offset(s, x.range.end, e)?);
        if a > b {
            return None;
        }
        v.push((a, b, x.new_text.as_str()));
    }
    v.sort_by_key(|x| x.0);
    let mut o = String::new();
    let mut k = 0;
    for (a, b, t) in v {
        if a < k {
            return None;
        }
        o.push_str(&s[k..a]);
        o.push_str(t);
        k = b;
    }
    o.push_str(&s[k..]);
    Some(o)
}
fn inside(s: &str, r: Range, e: EncodingKind) -> bool {
    match (offset(s, r.start, e), offset(s, r.end, e)) {
        (Some(a), Some(b)) => a <= b,
        _ => false,
    }
}

// ---- the server ----

struct Srv {
    svc: tower_lsp::LspService<Backend>,
    _sock: tower_lsp::ClientSocket,
}
impl Srv {
    fn new(e: EncodingKind) -> Srv {
        Srv::online(e, true)
    }
    fn online(e: EncodingKind, online: bool) -> Srv {
        let (svc, _sock) = tower_lsp::LspService::new(|c| Backend::new(c, &Options { offline: Some(!online), no_cache: Some(true) }));
        run(async {
            let mut c = svc.inner().capabilities.write().await;
            c.encoding_kind = e;
            c.diagnostic_mode = tombi_lsp::backend::DiagnosticMode::Pull;
        });
        Srv { svc, _sock }
    }
    fn with(e: EncodingKind, text: &str) -> Srv {
        let s = Srv::new(e);
        s.open(text, 1);
        s
    }
    fn b(&self) -> &Backend {
        self.svc.inner()
    }
    fn open(&self, text: &str, version: i32) {
        run(self.b().did_open(DidOpenTextDocumentParams {
            text_document: TextDocumentItem { uri: uri(), language_id: "toml".into(), version, text: text.to_string() },
        }))
    }
    fn change(&self, text: &str, version: i32) {
        run(self.b().did_change(DidChangeTextDocumentParams {
            text_document: VersionedTextDocumentIdentifier { uri: uri(), version },
            content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: text.to_string() }],
        }))
    }
    fn save(&self) {
        run(self.b().did_save(DidSaveTextDocumentParams { text_document: id(), text: None }))
    }
    fn close(&self) {
        run(self.b().did_close(DidCloseTextDocumentParams { text_document: id() }))
    }
    fn format(&self) -> Option<Vec<TextEdit>> {
        run(self.b().formatting(DocumentFormattingParams {
            text_document: id(),
            options: FormattingOptions::default(),
            work_done_progress_params: Default::default(),
        }))
        .unwrap()
    }
    fn tokens(&self) -> Vec<SemanticToken> {
        match run(self.b().semantic_tokens_full(SemanticTokensParams {
            text_document: id(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))
        .unwrap()
        {
            Some(SemanticTokensResult::Tokens(t)) => t.data,
            _ => vec![],
        }
    }
    fn folds(&self) -> Vec<FoldingRange> {
        run(self.b().folding_range(FoldingRangeParams {
            text_document: id(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))
        .unwrap()
        .unwrap_or_default()
    }
    fn symbols(&self) -> Vec<DocumentSymbol> {
        match run(self.b().document_symbol(DocumentSymbolParams {
            text_document: id(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))
        .unwrap()
        {
            Some(DocumentSymbolResponse::Nested(s)) => s,
            _ => vec![],
        }
    }
    fn diagnostics(&self) -> Vec<Diagnostic> {
        match run(self.b().diagnostic(DocumentDiagnosticParams {
            text_document: id(),
            identifier: None,
            previous_result_id: None,
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))
        .unwrap()
        {
            DocumentDiagnosticReportResult::Report(DocumentDiagnosticReport::Full(f)) => {
                f.full_document_diagnostic_report.items
            }
            _ => vec![],
        }
    }
    fn actions(&self, p: Position) -> Vec<CodeAction> {
        run(self.b().code_action(CodeActionParams {
            text_document: id(),
            range: Range::new(p, p),
            context: Default::default(),
            work_done_progress_params: Default::default(),
            partial_result_params: Default::default(),
        }))
        .unwrap()
        .unwrap_or_default()
        .into_iter()
        .filter_map(|c| match c {
            CodeActionOrCommand::CodeAction(c) => Some(c),
            _ => None,
        })
        .collect()
    }
}

// ---- schemas, served from memory to the server's own store ----

#[derive(Debug)]
struct Mem(String);
impl tombi_schema_store::HttpClient for Mem {
    fn get_bytes<'a>(&'a self, _url: &'a str) -> tombi_schema_store::HttpFuture<'a, Result<bytes::Bytes, tombi_schema_store::FetchError>> {
        use tombi_future::Boxable;
        let b = bytes::Bytes::from(self.0.clone().into_bytes());
        async move { Ok(b) }.boxed()
    }
}
const HEAD: &str = "#:schema https://t.test/s.json\n\n";
fn serve(schema: &str) {
    tombi_schema_store::verify::set_http_client(Some(std::sync::Arc::new(Mem(schema.to_string()))));
}

/// What an editor leaves of a snippet: placeholders with their defaults.
fn snippet(t: &str) -> String {
    let mut o = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut depth = 0;
    while i < b.len() {
        match b[i] {
            '\\' if i + 1 < b.len() && matches!(b[i + 1], '$' | '}' | '\\') => {
                o.push(b[i + 1]);
                i += 2;
            }
            '$' if i + 1 < b.len() && b[i + 1].is_ascii_digit() => {
                i += 2;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
            }
            '$' if i + 2 < b.len() && b[i + 1] == '{' && b[i + 2].is_ascii_digit() => {
                i += 2;
                while i < b.len() && b[i].is_ascii_digit() {
                    i += 1;
                }
                if i < b.len() && b[i] == ':' {
                    i += 1;
                    depth += 1;
                } else if i < b.len() && b[i] == '}' {
                    i += 1;
                }
            }
            '}' if depth > 0 => {
                depth -= 1;
                i += 1;
            }
            c => {
                o.push(c);
                i += 1;
            }
        }
    }
    o
}

/// The text once an item is accepted at `p`.
fn accept(src: &str, p: Position, e: EncodingKind, it: &CompletionItem) -> Option<String> {
    let mut v = Vec::new();
    let mut main = match &it.text_edit {
        Some(CompletionTextEdit::Edit(x)) => x.clone(),
        Some(CompletionTextEdit::InsertAndReplace(x)) => TextEdit { range: x.insert, new_text: x.new_text.clone() },
        None => TextEdit { range: Range::new(p, p), new_text: it.insert_text.clone().unwrap_or_else(|| it.label.clone()) },
    };
    if it.insert_text_format == Some(InsertTextFormat::SNIPPET) {
        main.new_text = snippet(&main.new_text);
    }
    v.extend(it.additional_text_edits.iter().flatten().cloned());
    v.push(main);
    apply(src, &v, e)
}

use vref::js::J;

/// The schema, with references of the form `#/$defs/x` followed.
fn deref<'a>(root: &'a J, s: &'a J) -> &'a J {
    if let Some(J::Str(r)) = s.get("$ref")
        && let Some(n) = r.strip_prefix(b"#/$defs/")
        && let Some(d) = root.get("$defs").and_then(|d| d.getb(n))
    {
        return deref(root, d);
    }
    s
}
/// The schema and the schemas it is composed of.
fn parts<'a>(root: &'a J, s: &'a J) -> Vec<&'a J> {
    let s = deref(root, s);
    let mut v = vec![s];
    for k in ["allOf", "anyOf", "oneOf"] {
        if let Some(J::Arr(a)) = s.get(k) {
            for x in a {
                v.extend(parts(root, x));
            }
        }
    }
    v
}
fn props<'a>(root: &'a J, ss: &[&'a J]) -> Vec<(&'a [u8], &'a J)> {
    let mut v: Vec<(&[u8], &J)> = Vec::new();
    for s in ss {
        if let Some(J::Obj(o)) = s.get("properties") {
            for (k, x) in o {
                if !v.iter().any(|y| y.0 == k.as_slice()) {
                    v.push((k, deref(root, x)));
                }
            }
        }
    }
    v
}
/// The schemas of the value at `path`.
fn walk<'a>(root: &'a J, path: &[&str]) -> Vec<&'a J> {
    let mut ss = parts(root, root);
    for k in path {
        let mut n: Vec<&J> = Vec::new();
        for s in &ss {
            let x = if k.parse::<usize>().is_ok() {
                s.get("items")
            } else {
                s.get("properties").and_then(|p| p.get(k)).or_else(|| s.get("additionalProperties").filter(|a| matches!(a, J::Obj(_))))
            };
            if let Some(x) = x {
                n.extend(parts(root, x));
            }
        }
        ss = n;
    }
    ss
}
fn dig<'a>(t: &'a vref::T, path: &[&str]) -> Option<&'a vref::V> {
    let (k, rest) = path.split_first()?;
    let mut v = t.get(k.as_bytes())?;
    for k in rest {
        v = match v {
            vref::V::Tbl(t) => t.get(k.as_bytes())?,
            vref::V::Arr(a) => a.get(k.parse::<usize>().ok()?)?,
            _ => return None,
        };
    }
    Some(v)
}
fn table<'a>(t: &'a vref::T, path: &[&str]) -> Option<&'a vref::T> {
    if path.is_empty() {
        return Some(t);
    }
    match dig(t, path)? {
        vref::V::Tbl(t) => Some(t),
        _ => None,
    }
}

/// C49: completion with a schema.  doc0: schema, doc1 and doc2: the text before and after the cursor,
/// doc3: path of the table the cursor is in (int1 = 0) or of the value (int1 = 1) (keys with `.` between).
/// int2: part of the value is written already.
fn complete() {
    let e = enc(0);
    let schema = vs::doc(0);
    let before = format!("{HEAD}{}", vs::doc(1));
    let src = format!("{before}{}", vs::doc(2));
    let path = vs::doc(3);
    let path: Vec<&str> = path.split('.').filter(|x| !x.is_empty()).collect();
    let (keys, partial) = (vs::int(1) == 0, vs::int(2) != 0);
    serve(&schema);
    let s = Srv::with(e, &src);
    let p = pos(&src, before.len(), e);
    let r = run(s.b().completion(CompletionParams {
        text_document_position: at(p),
        work_done_progress_params: Default::default(),
        partial_result_params: Default::default(),
        context: None,
    }));
    let Ok(Some(CompletionResponse::Array(items))) = r else {
        vs::check(false, "no-completion");
        return;
    };
    let Some(j) = vref::js::json(schema.as_bytes()) else { return };
    let ss = walk(&j, &path);
    // the document without the unfinished line
    let t0 = match vref::parse(src.as_bytes(), true) {
        Ok(t) => t,
        Err(_) => {
            let a = before.rfind('\n').map_or(0, |i| i + 1);
            let b = src[before.len()..].find('\n').map_or(src.len(), |i| before.len() + i);
            let rest = format!("{}{}", &src[..a], &src[b..]);
            match vref::parse(rest.as_bytes(), true) {
                Ok(t) => t,
                Err(_) => {
                    vs::assume(false);
                    return;
                }
            }
        }
    };
    let open = ss.iter().any(|s| matches!(s.get("additionalProperties"), Some(J::Obj(_) | J::Bool(true))) || s.get("patternProperties").is_some());
    let want = props(&j, &ss);
    let old = table(&t0, &path);
    let mut got: Vec<Vec<u8>> = Vec::new();
    let mut values: Vec<vref::V> = Vec::new();
    for it in &items {
        vs::note(&format!("{:?} {:?} {:?}\n", it.label, it.kind, accept(&src, p, e, it)));
        if let Some(CompletionTextEdit::Edit(x)) = &it.text_edit {
            vs::check(x.range.start.line == x.range.end.line, "edit-of-several-lines");
            vs::check(x.range.start <= p && p <= x.range.end || !it.additional_text_edits.as_deref().unwrap_or_default().is_empty(), "edit-away-from-the-cursor");
        }
        if it.insert_text_format != Some(InsertTextFormat::SNIPPET)
            && let Some(CompletionTextEdit::Edit(x)) = &it.text_edit
        {
            vs::check(!x.new_text.contains("${"), "placeholder-inserted-as-text");
        }
        let key = if keys && it.label != "{}" && it.label != "[]" { Some(it.label.split(" = ").next().unwrap_or("")) } else { None };
        let mut it2 = it.clone();
        if key.is_some() && !it.label.contains(" = ") {
            // the user goes on with a value
            let f = |x: &mut TextEdit| {
                if it.insert_text_format == Some(InsertTextFormat::SNIPPET) && x.new_text.contains("$1") {
                    x.new_text = x.new_text.replacen("$1", " = 0", 1);
                } else {
                    x.new_text.push_str(" = 0");
                }
            };
            match &mut it2.text_edit {
                Some(CompletionTextEdit::Edit(x)) => f(x),
                _ => {
                    let mut x = TextEdit { range: Range::new(p, p), new_text: it.label.clone() };
                    f(&mut x);
                    it2.text_edit = Some(CompletionTextEdit::Edit(x));
                }
            }
        }
        if let Some(k) = key
            && let Some(vref::V::Tbl(_)) = old.and_then(|o| o.get(k.as_bytes()))
        {
            continue; // a table that the user may add to
        }
        let r = accept(&src, p, e, &it2);
        vs::check(r.is_some(), "completion-edits-outside-the-document");
        let Some(r) = r else { return };
        if !keys && it.label.starts_with(|c: char| c.is_ascii_alphabetic() || c == '$') && !matches!(it.label.as_str(), "true" | "false" | "inf" | "nan") {
            continue; // a key of the value's table
        }
        let t = vref::parse(r.as_bytes(), true);
        vs::check(t.is_ok(), "completion-leaves-an-invalid-document");
        let Ok(t) = t else { return };
        if let Some(k) = key {
            let k = if k.starts_with('$') { "key" } else { k };
            if it.label.starts_with('$') {
                vs::check(open, "key-completion-in-a-closed-table");
                continue;
            }
            vs::check(want.iter().any(|w| w.0 == k.as_bytes()), "key-the-schema-does-not-have");
            vs::check(old.and_then(|o| o.get(k.as_bytes())).is_none(), "key-that-is-there-already");
            vs::check(!got.iter().any(|g| g.as_slice() == k.as_bytes()), "key-offered-twice");
            let new = table(&t, &path);
            vs::check(new.is_some_and(|n| n.get(k.as_bytes()).is_some() && n.e.len() == old.map_or(0, |o| o.e.len()) + 1), "key-inserted-elsewhere");
            got.push(k.as_bytes().to_vec());
        } else if !keys {
            let v = dig(&t, &path);
            vs::check(v.is_some(), "value-inserted-elsewhere");
            let Some(v) = v else { return };
            if it.kind == Some(CompletionItemKind::ENUM) || it.kind == Some(CompletionItemKind::ENUM_MEMBER) {
                let mut ev = vref::js::S { root: &j, old: false, open: false, depth: 0 };
                vs::check(walk_top(&j, &path).is_none_or(|(s, _)| ev.valid(s, v) || ev.open), "value-the-schema-does-not-allow");
                vs::reach("value");
            }
            values.push(v.clone());
        }
    }
    if keys {
        for (k, _) in &want {
            if old.and_then(|o| o.get(k)).is_none() {
                vs::check(got.iter().any(|g| g.as_slice() == *k), "key-not-offered");
                vs::reach("key");
            }
        }
    } else if !partial {
        for s in &ss {
            let mut w: Vec<&J> = Vec::new();
            match (s.get("enum"), s.get("const")) {
                (_, Some(c)) => w.push(c),
                (Some(J::Arr(a)), _) => w.extend(a),
                _ => {}
            }
            for x in w {
                if !matches!(x, J::Null | J::Arr(_) | J::Obj(_)) {
                    vs::check(values.iter().any(|v| vref::js::equal(v, x)), "value-not-offered");
                }
            }
            if s.get("enum").is_none() && s.get("const").is_none() && s.get("type") == Some(&J::Str(b"boolean".to_vec())) {
                for x in [true, false] {
                    vs::check(values.iter().any(|v| matches!(v, vref::V::Bool(b) if *b == x)), "boolean-not-offered");
                }
            }
        }
    }
    vs::out(&[items.len() as u8]);
}
/// The schema of the value at `path`, unless it is below a composition, and whether it is a reference.
fn walk_top<'a>(root: &'a J, path: &[&str]) -> Option<(&'a J, bool)> {
    let mut s = deref(root, root);
    let mut r = false;
    for k in path {
        let x = if k.parse::<usize>().is_ok() { s.get("items")? } else { s.get("properties")?.get(k)? };
        r = x.get("$ref").is_some();
        s = deref(root, x);
    }
    Some((s, r))
}

/// A step of a path: key or index.
#[derive(Clone, Debug, PartialEq)]
enum Step {
    K(Vec<u8>),
    I(usize),
}
fn dig_steps<'a>(t: &'a vref::T, path: &[Step]) -> Option<&'a vref::V> {
    let (Step::K(k), rest) = path.split_first()? else { return None };
    let mut v = t.get(k)?;
    for k in rest {
        v = match (k, v) {
            (Step::K(k), vref::V::Tbl(t)) => t.get(k)?,
            (Step::I(i), vref::V::Arr(a)) => a.get(*i)?,
            _ => return None,
        };
    }
    Some(v)
}
fn show(path: &[Step]) -> String {
    let mut o = String::new();
    for (i, s) in path.iter().enumerate() {
        match s {
            Step::K(k) => {
                if i > 0 {
                    o.push('.');
                }
                let t = String::from_utf8_lossy(k);
                if !k.is_empty() && k.iter().all(|c| c.is_ascii_alphanumeric() || matches!(c, b'-' | b'_')) {
                    o.push_str(&t);
                } else {
                    o.push_str(&format!("\"{t}\""));
                }
            }
            Step::I(i) => o.push_str(&format!("[{i}]")),
        }
    }
    o
}
fn type_name(v: &vref::V) -> &'static str {
    use vref::V;
    match v {
        V::Str(_) => "String",
        V::Int(_) => "Integer",
        V::Float(_) => "Float",
        V::Bool(_) => "Boolean",
        V::Dt(d) if d.has_off => "OffsetDateTime",
        V::Dt(d) if d.has_date && d.has_time => "LocalDateTime",
        V::Dt(d) if d.has_date => "LocalDate",
        V::Dt(_) => "LocalTime",
        V::Arr(_) => "Array",
        V::Tbl(_) => "Table",
    }
}
/// The keys of a KEYS node: their text and place.
fn keys_of(n: &tombi_syntax::SyntaxNode) -> Vec<(Vec<u8>, usize, usize)> {
    let mut v = Vec::new();
    for el in n.descendants_with_tokens() {
        let SyntaxElement::Token(t) = el else { continue };
        if matches!(t.kind(), K::DOT | K::WHITESPACE) {
            continue;
        }
        let d = format!("{} = 1", t.text());
        let Ok(x) = vref::parse(d.as_bytes(), true) else { continue };
        // a token such as `1.5` may spell two keys; those are left out by the caller's count
        v.push((x.e[0].0.clone(), u32::from(t.span().start) as usize, u32::from(t.span().end) as usize));
    }
    v
}
struct Paths {
    /// arrays of tables met so far and the number of their elements
    aot: Vec<(Vec<Step>, usize)>,
    /// place, path, whether it is a key
    out: Vec<(usize, usize, Vec<Step>, bool)>,
}
impl Paths {
    fn node(&mut self, n: &tombi_syntax::SyntaxNode, base: &[Step]) {
        let mut base = base.to_vec();
        let mut idx = 0;
        for c in n.children_with_tokens() {
            let SyntaxElement::Node(c) = c else {
                let SyntaxElement::Token(t) = c else { continue };
                if kind(t.kind()).is_some() {
                    self.out.push((u32::from(t.span().start) as usize, u32::from(t.span().end) as usize, base.clone(), false));
                }
                continue;
            };
            match c.kind() {
                K::KEYS if matches!(n.kind(), K::TABLE | K::ARRAY_OF_TABLE) => {
                    let ks = keys_of(&c);
                    let last = ks.len() - 1;
                    for (i, (k, a, b)) in ks.into_iter().enumerate() {
                        base.push(Step::K(k));
                        if i == last && n.kind() == K::ARRAY_OF_TABLE {
                            match self.aot.iter_mut().find(|x| x.0 == base) {
                                Some(x) => x.1 += 1,
                                None => self.aot.push((base.clone(), 1)),
                            }
                        }
                        if let Some(x) = self.aot.iter().find(|x| x.0 == base) {
                            base.push(Step::I(x.1 - 1));
                        }
                        self.out.push((a, b, base.clone(), true));
                    }
                }
                K::KEYS => {
                    for (k, a, b) in keys_of(&c) {
                        base.push(Step::K(k));
                        self.out.push((a, b, base.clone(), true));
                    }
                }
                k if n.kind() == K::ARRAY => {
                    if kind(k).is_some() || matches!(k, K::ARRAY | K::INLINE_TABLE) {
                        base.push(Step::I(idx));
                        self.node(&c, &base);
                        base.pop();
                        idx += 1;
                    } else {
                        // groups of elements keep counting
                        for g in c.children_with_tokens() {
                            let SyntaxElement::Node(g) = g else { continue };
                            if kind(g.kind()).is_some() || matches!(g.kind(), K::ARRAY | K::INLINE_TABLE) {
                                base.push(Step::I(idx));
                                self.node(&g, &base);
                                base.pop();
                                idx += 1;
                            }
                        }
                    }
                }
                _ => self.node(&c, &base),
            }
        }
    }
}

/// C51: hover.  doc0: the document, doc1: a schema or nothing.
fn hover() {
    let e = enc(0);
    let mut src = vs::doc(0);
    let schema = vs::doc(1);
    if !schema.is_empty() {
        src = format!("{HEAD}{src}");
        serve(&schema);
    }
    let Ok(t) = vref::parse(src.as_bytes(), false) else { return };
    let s = Srv::with(e, &src);
    let parsed = tombi_parser::parse(&src);
    let mut ps = Paths { aot: vec![], out: vec![] };
    ps.node(&parsed.syntax_node(), &[]);
    let j = vref::js::json(schema.as_bytes());
    for (a, b, path, _) in &ps.out {
        // (keys such as `1.5` are one token: left out)
        let Some(v) = dig_steps(&t, path) else { continue };
        for o in *a..*b {
            if !src.is_char_boundary(o) {
                continue;
            }
            let p = pos(&src, o, e);
            let h = run(s.b().hover(HoverParams { text_document_position_params: at(p), work_done_progress_params: Default::default() }));
            let names: Vec<String> = path
                .iter()
                .map(|s| match s {
                    Step::K(k) => String::from_utf8_lossy(k).to_string(),
                    Step::I(i) => i.to_string(),
                })
                .collect();
            let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
            let x = j.as_ref().and_then(|j| walk_top(j, &names));
            // (nothing is asked about values of another type than the schema's)
            if let Some((x, _)) = x
                && let Some(J::Str(t)) = x.get("type")
                && t.as_slice() != type_name(v).to_ascii_lowercase().replace("table", "object").replace("float", "number").as_bytes()
            {
                continue;
            }
            vs::check(matches!(h, Ok(Some(_))), "no-hover");
            let Ok(Some(h)) = h else { return };
            let HoverContents::Markup(m) = &h.contents else { return };
            vs::note(&format!("{p:?} {:?}", m.value));
            vs::check(m.value.contains(&format!("Keys: `{}`", show(path))), "hover-of-another-place");
            if let Some(r) = h.range {
                vs::check(inside(&src, r, e), "hover-range-outside-the-document");
                vs::check(r.start <= p && p <= r.end, "hover-range-elsewhere");
            }
            match &j {
                None => {
                    vs::check(m.value.contains(&format!("Value: `{}`", type_name(v))), "hover-of-another-type");
                    vs::reach("plain");
                }
                Some(_) => {
                    if let Some((x, _)) = x {
                        for k in ["title", "description"] {
                            if let Some(J::Str(d)) = x.get(k) {
                                vs::check(m.value.contains(&*String::from_utf8_lossy(d)), if k == "title" { "hover-without-the-title" } else { "hover-without-the-description" });
                                vs::reach("schema");
                            }
                        }
                    }
                }
            }
        }
    }
}

fn warm() {
    let s = Srv::with(EncodingKind::Utf16, "a = 1 # c\n[b]\nc = [1.5, {d = 'x'}]\n[[e]]\nf = 1979-05-27T07:32:00Z\n\"g h\" = \"\\n\"\n");
    let _ = s.tokens();
    let _ = s.folds();
    let _ = s.symbols();
    let _ = s.diagnostics();
    let _ = s.format();
}

/// C40: the edits of a formatting request turn the text into the formatter's output.
fn format_edits() {
    let e = enc(0);
    let src = vs::doc(0);
    let schema_store = tombi_schema_store::SchemaStore::new_with_options(tombi_schema_store::Options { offline: Some(true), strict: None, cache: None });
    let want = run(
        tombi_formatter::Formatter::new(tombi_toml_version::TomlVersion::default(), &Default::default(), None, &schema_store)
            .format(&src),
    );
    let s = Srv::with(e, &src);
    let got = s.format();
    match (&want, &got) {
        (Err(_), g) => {
            vs::check(g.is_none(), "edits-for-a-document-that-cannot-be-formatted");
            vs::reach("refused");
        }
        (Ok(w), None) => {
            vs::check(*w == src, "no-edits-for-a-document-that-is-not-formatted");
            vs::reach("unchanged");
        }
        (Ok(w), Some(x)) => {
            vs::check(*w != src, "edits-for-a-formatted-document");
            let o = apply(&src, x, e);
            vs::check(o.is_some(), "edits-outside-the-document");
            vs::check(o.as_ref() == Some(w), "edits-yield-another-text");
            vs::reach("edited");
            // the editor applies them; a second request finds nothing to do
            s.change(w, 2);
            vs::check(s.format().is_none(), "edits-again");
        }
    }
    vs::out(&[want.is_ok() as u8, got.is_some() as u8]);
}

/// Decoded token: line, start, length, type.
type Tok = (u32, u32, u32, u32);

fn kind(k: K) -> Option<u32> {
    Some(match k {
        K::BASIC_STRING | K::LITERAL_STRING | K::MULTI_LINE_BASIC_STRING | K::MULTI_LINE_LITERAL_STRING => 0,
        K::INTEGER_BIN | K::INTEGER_OCT | K::INTEGER_DEC | K::INTEGER_HEX | K::FLOAT => 1,
        K::BOOLEAN => 7,
        K::OFFSET_DATE_TIME => 8,
        K::LOCAL_DATE_TIME => 9,
        K::LOCAL_DATE => 10,
        K::LOCAL_TIME => 11,
        _ => return None,
    })
}

/// C42: semantic tokens.
fn sem_tokens() {
    let e = enc(0);
    let src = vs::doc(0);
    let s = Srv::with(e, &src);
    let toks = s.tokens();
    // generic: in order, disjoint, within their lines
    let (mut line, mut start) = (0u32, 0u32);
    let mut got: Vec<Tok> = Vec::new();
    let mut prev_end = 0;
    for (i, t) in toks.iter().enumerate() {
        vs::check(t.delta_line <= src.len() as u32, "token-before-its-predecessor");
        vs::check(t.delta_start <= 4 * src.len() as u32, "token-before-its-predecessor-in-line");
        if t.delta_line > 0 {
            start = 0;
            prev_end = 0;
        }
        line += t.delta_line;
        start += t.delta_start;
        if i > 0 {
            vs::check(start >= prev_end, "tokens-overlap");
        }
        vs::check(offset(&src, Position::new(line, start), e).is_some(), "token-starts-outside-the-document");
        prev_end = start + t.length;
        got.push((line, start, t.length, t.token_type));
    }
    // exact: one token per key, value, comment, header bracket and equals sign
    let parsed = tombi_parser::parse(&src);
    if !parsed.errors.is_empty() || vref::parse(src.as_bytes(), true).is_err() {
        vs::reach("with-errors");
        return;
    }
    let mut i = 0;
    for el in parsed.syntax_node().descendants_with_tokens() {
        let SyntaxElement::Token(t) = el else { continue };
        let parent = t.parent().map(|p| p.kind());
        let in_key = parent == Some(K::KEY) || t.parent().and_then(|p| p.parent()).is_some_and(|p| p.kind() == K::KEYS);
        let header = t.ancestors_kinds();
        let ty = match t.kind() {
            K::COMMENT => 3,
            K::EQUAL => 2,
            K::BRACKET_START | K::BRACKET_END if parent == Some(K::TABLE) => 2,
            K::DOUBLE_BRACKET_START | K::DOUBLE_BRACKET_END => 2,
            _ if in_key && t.kind() != K::DOT && t.kind() != K::WHITESPACE => {
                if header { 5 } else { 6 }
            }
            k => match kind(k) {
                Some(x) => x,
                None => continue,
            },
        };
        let (a, b) = (u32::from(t.span().start) as usize, u32::from(t.span().end) as usize);
        let (p, q) = (pos(&src, a, e), pos(&src, b, e));
        vs::check(i < got.len(), "token-missing");
        if i >= got.len() {
            return;
        }
        let g = got[i];
        vs::check((g.0, g.1) == (p.line, p.character), "token-at-another-place");
        if ty == 3 && g.2 != q.character - p.character {
            // a directive is marked within its comment: three pieces that tile it
            vs::check(i + 2 < got.len(), "directive-pieces");
            let (h, k) = (got[i + 1], got[i + 2]);
            vs::check(
                h.0 == g.0 && k.0 == g.0 && h.1 == g.1 + g.2 && k.1 == h.1 + h.2 && k.1 + k.2 == q.character,
                "directive-pieces-do-not-tile-the-comment",
            );
            vs::check((g.3, h.3, k.3) == (3, 4, 3), "directive-piece-types");
            vs::check(g.2 > 0 && h.2 > 0, "directive-piece-empty");
            vs::reach("directive");
            i += 3;
            continue;
        }
        if p.line == q.line {
            vs::check(g.2 == q.character - p.character, "token-length");
        } else {
            // the lines without their line ends
            let n: u32 = src[a..b].split('\n').map(|l| units(l.strip_suffix('\r').unwrap_or(l), e)).sum();
            vs::check(g.2 == n, "token-length-of-lines");
        }
        vs::check(g.3 == ty, "token-type");
        i += 1;
    }
    vs::check(i == got.len(), "token-of-nothing");
    vs::reach("tokens");
    vs::out(&[got.len() as u8]);
}
trait Anc {
    fn ancestors_kinds(&self) -> bool;
}
impl Anc for tombi_syntax::SyntaxToken {
    /// Is this a part of a table header?
    fn ancestors_kinds(&self) -> bool {
        let mut n = self.parent();
        while let Some(x) = n {
            match x.kind() {
                K::KEY_VALUE => return false,
                K::TABLE | K::ARRAY_OF_TABLE => return true,
                _ => n = x.parent(),
            }
        }
        false
    }
}

/// C43: folding ranges.
fn folding() {
    let e = enc(0);
    let src = vs::doc(0);
    let s = Srv::with(e, &src);
    let folds = s.folds();
    let mut v: Vec<(usize, usize)> = Vec::new();
    for f in &folds {
        let (p, q) = (Position::new(f.start_line, f.start_character.unwrap_or(0)), Position::new(f.end_line, f.end_character.unwrap_or(0)));
        let (a, b) = (offset(&src, p, e), offset(&src, q, e));
        vs::check(a.is_some() && b.is_some(), "fold-outside-the-document");
        let (Some(a), Some(b)) = (a, b) else { return };
        vs::check(a < b, "fold-reversed");
        let t = &src[a..b];
        if f.kind == Some(FoldingRangeKind::Comment) {
            vs::check(t.starts_with('#'), "comment-fold-is-no-comment");
            // to the end of a comment line
            vs::check(vref::parse(src.as_bytes(), true).is_err() || b == src.len() || src[b..].starts_with('\n') || src[b..].starts_with("\r\n"), "comment-fold-ends-within-a-line");
            vs::reach("comment");
        } else {
            vs::check(t.starts_with(['[', '{', '"', '\'']), "region-fold-start");
            vs::reach("region");
        }
        v.push((a, b));
    }
    for (i, x) in v.iter().enumerate() {
        for y in &v[..i] {
            let nested = (x.0 <= y.0 && y.1 <= x.1) || (y.0 <= x.0 && x.1 <= y.1);
            let disjoint = x.1 <= y.0 || y.1 <= x.0;
            vs::check(nested || disjoint, "folds-cross");
        }
    }
    // every table, array, inline table and multi-line string of a valid document can be folded
    let parsed = tombi_parser::parse(&src);
    if parsed.errors.is_empty() && vref::parse(src.as_bytes(), true).is_ok() {
        let mut headers: Vec<(Vec<String>, usize, usize)> = Vec::new();
        // consecutive lines that hold only a comment
        let mut run: Option<(usize, usize, usize)> = None;
        let mut runs: Vec<(usize, usize)> = Vec::new();
        for el in parsed.syntax_node().descendants_with_tokens() {
            let sp = (u32::from(el.span().start) as usize, u32::from(el.span().end) as usize);
            let n = match el {
                SyntaxElement::Token(t) => {
                    if t.kind() == K::COMMENT {
                        let line = src[..sp.0].rfind('\n').map_or(0, |x| x + 1);
                        if src[line..sp.0].trim().is_empty() {
                            run = match run {
                                Some((a, n, b)) if b + 1 == line || src[b..line] == *"\r\n" => Some((a, n + 1, sp.1)),
                                _ => {
                                    runs.extend(run.filter(|r| r.1 > 1).map(|r| (r.0, r.2)));
                                    Some((sp.0, 1, sp.1))
                                }
                            };
                        }
                    }
                    if matches!(t.kind(), K::MULTI_LINE_BASIC_STRING | K::MULTI_LINE_LITERAL_STRING) && t.text().contains('\n') {
                        vs::check(v.contains(&sp), "fold-of-a-string-missing");
                    }
                    continue;
                }
                SyntaxElement::Node(n) => n,
            };
            let (first, last) = match n.kind() {
                K::ARRAY => (K::BRACKET_START, K::BRACKET_END),
                K::INLINE_TABLE => (K::BRACE_START, K::BRACE_END),
                K::TABLE => (K::BRACKET_START, K::BRACKET_END),
                K::ARRAY_OF_TABLE => (K::DOUBLE_BRACKET_START, K::DOUBLE_BRACKET_END),
                _ => continue,
            };
            let mut r = (sp.0, sp.1);
            let mut keys = Vec::new();
            for c in n.children_with_tokens() {
                if c.kind() == first {
                    r.0 = u32::from(c.span().start) as usize;
                }
                if c.kind() == last {
                    r.1 = u32::from(c.span().end) as usize;
                }
                if c.kind() == K::KEYS {
                    let s = c.span();
                    keys = src[u32::from(s.start) as usize..u32::from(s.end) as usize].split('.').map(|x| x.trim().to_string()).collect();
                }
            }
            match n.kind() {
                K::TABLE | K::ARRAY_OF_TABLE => headers.push((keys, r.0, src[..sp.1].trim_end().len())),
                _ => vs::check(v.contains(&r), "fold-missing"),
            }
        }
        runs.extend(run.filter(|r| r.1 > 1).map(|r| (r.0, r.2)));
        for (a, b) in runs {
            let found = folds.iter().zip(&v).any(|(f, x)| f.kind == Some(FoldingRangeKind::Comment) && x.0 <= a && b <= x.1);
            vs::check(found, "fold-of-comments-missing");
            vs::reach("comments");
        }
        for (i, (k, a, b)) in headers.iter().enumerate() {
            // the table with the tables below it that follow
            let mut end = *b;
            for (k2, _, b2) in &headers[i + 1..] {
                if k2.len() > k.len() && k2.starts_with(k) {
                    end = *b2;
                } else {
                    break;
                }
            }
            vs::check(v.contains(&(*a, end)), "fold-of-a-table-missing");
            vs::reach("table");
        }
    }
    vs::out(&[v.len() as u8]);
}

fn symbol(src: &str, e: EncodingKind, s: &DocumentSymbol, parent: Option<Range>) {
    vs::check(!s.name.is_empty(), "symbol-without-a-name");
    vs::check(inside(src, s.range, e), "symbol-outside-the-document");
    vs::check(inside(src, s.selection_range, e), "symbol-selection-outside-the-document");
    vs::check(s.range.start <= s.selection_range.start && s.selection_range.end <= s.range.end, "symbol-selection");
    if let Some(p) = parent
        && vref::parse(src.as_bytes(), true).is_ok()
    {
        vs::check(p.start <= s.range.start && s.range.end <= p.end, "symbol-outside-its-parent");
    }
    for c in s.children.as_deref().unwrap_or_default() {
        symbol(src, e, c, Some(s.range));
    }
}
fn same_symbols(t: &vref::T, s: &[DocumentSymbol]) -> bool {
    t.e.len() == s.len()
        && t.e.iter().all(|(k, v)| {
            let name: &[u8] = if k.is_empty() { b"\"\"" } else { k };
            s.iter().any(|s| s.name.as_bytes() == name && same_symbol(v, s))
        })
}
fn same_symbol(v: &vref::V, s: &DocumentSymbol) -> bool {
    use vref::V;
    let ch = s.children.as_deref().unwrap_or_default();
    match v {
        V::Str(_) | V::Dt(_) => s.kind == SymbolKind::STRING,
        V::Int(_) | V::Float(_) => s.kind == SymbolKind::NUMBER,
        V::Bool(_) => s.kind == SymbolKind::BOOLEAN,
        V::Arr(a) => {
            s.kind == SymbolKind::ARRAY
                && a.len() == ch.len()
                && a.iter().zip(ch).enumerate().all(|(i, (v, c))| c.name == format!("[{i}]") && same_symbol(v, c))
        }
        V::Tbl(t) => s.kind == SymbolKind::OBJECT && same_symbols(t, ch),
    }
}

/// The range of a scalar's symbol is its place: the value, or its last key and the value.
fn leaf(src: &str, e: EncodingKind, s: &DocumentSymbol) {
    if !matches!(s.kind, SymbolKind::OBJECT | SymbolKind::ARRAY) {
        let (Some(a), Some(b)) = (offset(src, s.range.start, e), offset(src, s.range.end, e)) else { return };
        let x = &src[a..b];
        let value = format!("a = {x}");
        let ok = |d: &str| match vref::parse(d.as_bytes(), true) {
            Ok(t) if t.e.len() == 1 => kind_of(&t.e[0].1) == Some(s.kind),
            _ => false,
        };
        vs::check(ok(&value) || ok(x), "symbol-is-not-its-value");
    }
    for c in s.children.as_deref().unwrap_or_default() {
        leaf(src, e, c);
    }
}
fn kind_of(v: &vref::V) -> Option<SymbolKind> {
    use vref::V;
    Some(match v {
        V::Str(_) | V::Dt(_) => SymbolKind::STRING,
        V::Int(_) | V::Float(_) => SymbolKind::NUMBER,
        V::Bool(_) => SymbolKind::BOOLEAN,
        _ => return None,
    })
}

/// C44: document symbols.
fn symbols() {
    let e = enc(0);
    let src = vs::doc(0);
    let s = Srv::with(e, &src);
    let syms = s.symbols();
    for x in &syms {
        symbol(&src, e, x, None);
    }
    if let Ok(t) = vref::parse(src.as_bytes(), false) {
        vs::reach("valid");
        vs::check(same_symbols(&t, &syms), "symbols-differ-from-the-document");
        for x in &syms {
            leaf(&src, e, x);
        }
    } else {
        vs::reach("invalid");
    }
    vs::out(&[syms.len() as u8]);
}

/// C45: whatever notifications came before, answers are those of the document as it is now.
fn history() {
    let e = enc(0);
    let (a, b) = (vs::doc(0), vs::doc(1));
    let s = Srv::with(e, &a);
    let mut v = 1;
    let mut cur = a.clone();
    for _ in 0..vs::int(1) {
        v += 1;
        match vs::choice(6) {
            0 => {
                s.change(&a, v);
                cur = a.clone();
            }
            1 => {
                s.change(&b, v);
                cur = b.clone();
            }
            2 => {
                let _ = s.diagnostics();
            }
            3 => s.save(),
            4 => {
                // the editor applies the edits and reports the result
                if let Some(x) = s.format() {
                    vs::reach("formatted");
                    cur = apply(&cur, &x, e).unwrap();
                    s.change(&cur, v);
                }
            }
            _ => {
                s.close();
                s.open(&b, v);
                cur = b.clone();
            }
        }
    }
    v += 1;
    s.change(&b, v);
    let f = Srv::with(e, &b);
    vs::check(s.diagnostics() == f.diagnostics(), "diagnostics-of-another-text");
    vs::check(s.tokens() == f.tokens(), "tokens-of-another-text");
    vs::check(s.symbols() == f.symbols(), "symbols-of-another-text");
    vs::check(s.folds() == f.folds(), "folds-of-another-text");
    let (x, y) = (s.format(), f.format());
    vs::check(x == y, "edits-of-another-text");
    vs::out(&[x.is_some() as u8]);
}
/// A server whose client does not ask for diagnostics: it negotiates, then gets them sent.
struct Push {
    svc: tower_lsp::LspService<Backend>,
    sock: tower_lsp::ClientSocket,
    sent: Vec<PublishDiagnosticsParams>,
}
impl Push {
    fn new(e: EncodingKind) -> Push {
        let (svc, sock) = tower_lsp::LspService::new(|c| Backend::new(c, &Options { offline: Some(false), no_cache: Some(true) }));
        let mut p = Push { svc, sock, sent: vec![] };
        let name = match e {
            EncodingKind::Utf8 => "utf-8",
            EncodingKind::Utf16 => "utf-16",
            _ => "utf-32",
        };
        let req = tower_lsp::jsonrpc::Request::build("initialize")
            .id(1)
            .params(serde_json::json!({"capabilities": {"general": {"positionEncodings": [name]}}}))
            .finish();
        let f = tower_service::Service::call(&mut p.svc, req);
        let r = p.run(f);
        let r = r.ok().flatten().and_then(|r| r.result().cloned());
        vs::check(r.is_some(), "initialize");
        let got = r.and_then(|r| r["capabilities"]["positionEncoding"].as_str().map(|x| x.to_string()));
        vs::check(got.as_deref() == Some(name), "negotiated-encoding");
        p
    }
    fn run<F: core::future::Future>(&mut self, f: F) -> F::Output {
        use futures_core::Stream;
        let (sock, sent) = (&mut self.sock, &mut self.sent);
        let mut f = core::pin::pin!(f);
        run(core::future::poll_fn(|cx| {
            let r = f.as_mut().poll(cx);
            while let core::task::Poll::Ready(Some(m)) = core::pin::Pin::new(&mut *sock).poll_next(cx) {
                if m.method() == "textDocument/publishDiagnostics" {
                    sent.push(serde_json::from_value(m.params().unwrap().clone()).unwrap());
                }
            }
            r
        }))
    }
    fn b(&self) -> Backend {
        self.svc.inner().clone()
    }
}

/// C52: the diagnostics a server sends are those of the document as it is now.
fn pushes() {
    let e = enc(0);
    let (a, b) = (vs::doc(0), vs::doc(1));
    let mut p = Push::new(e);
    let mut v = 1;
    let mut cur: Option<String> = None;
    for k in 0..vs::int(1) {
        v += 1;
        let w = p.b();
        let what = if k == 0 { 5 } else { vs::choice(6) };
        let change = |t: &str, v: i32| DidChangeTextDocumentParams {
            text_document: VersionedTextDocumentIdentifier { uri: uri(), version: v },
            content_changes: vec![TextDocumentContentChangeEvent { range: None, range_length: None, text: t.to_string() }],
        };
        match what {
            0 | 1 if cur.is_some() => {
                let t = if what == 0 { &a } else { &b };
                p.run(w.did_change(change(t, v)));
                cur = Some(t.clone());
            }
            2 | 3 if cur.is_some() => {
                let text = (what == 3).then(|| cur.clone().unwrap());
                p.run(w.did_save(DidSaveTextDocumentParams { text_document: id(), text }));
                v -= 1;
            }
            4 if cur.is_some() => {
                let x = p
                    .run(w.formatting(DocumentFormattingParams { text_document: id(), options: Default::default(), work_done_progress_params: Default::default() }))
                    .unwrap();
                match x {
                    Some(x) => {
                        let t = apply(&cur.clone().unwrap(), &x, e).unwrap();
                        p.run(w.did_change(change(&t, v)));
                        cur = Some(t);
                        vs::reach("formatted");
                    }
                    None => {
                        v -= 1;
                        vs::reach("not-formatted");
                    }
                }
            }
            5 => {
                if cur.is_some() {
                    p.run(w.did_close(DidCloseTextDocumentParams { text_document: id() }));
                    cur = None;
                } else {
                    let t = if k == 0 { &a } else { &b };
                    p.run(w.did_open(DidOpenTextDocumentParams {
                        text_document: TextDocumentItem { uri: uri(), language_id: "toml".into(), version: v, text: t.to_string() },
                    }));
                    cur = Some(t.clone());
                }
            }
            _ => return,
        }
        // (what is shown for a closed document is left open: it may remain in the workspace)
        let Some(c) = &cur else { continue };
        let want = Srv::with(e, c).diagnostics();
        vs::check(p.sent.iter().all(|x| x.uri == uri()), "diagnostics-of-another-document");
        let last = p.sent.last();
        vs::check(last.is_some(), "nothing-sent");
        let Some(last) = last else { return };
        vs::note(&format!("{what} {:?} {:?}", last.version, last.diagnostics));
        vs::check(last.diagnostics == want, "sent-diagnostics-of-another-text");
        vs::check(last.version == Some(v), "sent-diagnostics-of-another-version");
        vs::reach(if want.is_empty() { "none" } else { "some" });
    }
    vs::out(&[p.sent.len() as u8]);
}

/// C46: a request at any place of any document gets an answer.
fn ask() {
    let e = enc(0);
    let src = vs::doc(0);
    let s = Srv::with(e, &src);
    let b = s.b();
    let (mut line, mut col) = (0, 0);
    let mut ps = vec![Position::new(0, 0)];
    for c in src.chars() {
        if c == '\n' {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
        ps.push(Position::new(line, col));
    }
    ps.push(Position::new(line, col + 3));
    ps.push(Position::new(line + 2, 1));
    for p in ps {
        let tp = || at(p);
        match vs::int(1) {
            0 => {
                let h = run(b.hover(HoverParams { text_document_position_params: tp(), work_done_progress_params: Default::default() }));
                if let Ok(Some(h)) = h
                    && let Some(r) = h.range
                {
                    vs::reach("hover");
                    vs::note(&format!("{p:?} {:?} {r:?}", h.contents));
                    vs::check(inside(&src, r, e), "hover-range-outside-the-document");
                }
            }
            1 => {
                let _ = run(b.completion(CompletionParams {
                    text_document_position: tp(),
                    work_done_progress_params: Default::default(),
                    partial_result_params: Default::default(),
                    context: None,
                }));
            }
            2 => {
                let g = || GotoDefinitionParams {
                    text_document_position_params: tp(),
                    work_done_progress_params: Default::default(),
                    partial_result_params: Default::default(),
                };
                let _ = run(b.goto_definition(g()));
                let _ = run(b.goto_type_definition(g()));
                let _ = run(b.goto_declaration(g()));
                let _ = run(b.references(ReferenceParams {
                    text_document_position: tp(),
                    work_done_progress_params: Default::default(),
                    partial_result_params: Default::default(),
                    context: ReferenceContext { include_declaration: true },
                }));
            }
            _ => {
                let _ = s.actions(p);
                let _ = run(b.inlay_hint(InlayHintParams {
                    text_document: id(),
                    range: Range::new(Position::new(0, 0), p),
                    work_done_progress_params: Default::default(),
                }));
            }
        }
    }
}

fn extends(c: char) -> bool {
    matches!(c, '\u{301}' | '\u{93f}' | '\u{1f3fb}'..='\u{1f3ff}')
}
/// The byte offset of a line and column (in user-perceived characters), from the text alone.
fn place(s: &str, p: tombi_text::Position) -> Option<usize> {
    let (mut line, mut col) = (0, 0);
    let mut joined = false;
    for (i, c) in s.char_indices() {
        let cr = c == '\r' && s[i + 1..].starts_with('\n');
        let part = joined || extends(c) || c == '\u{200d}';
        if !part && (line, col) == (p.line, p.column) {
            return Some(i);
        }
        joined = c == '\u{200d}';
        match c {
            '\n' => {
                line += 1;
                col = 0;
            }
            _ if cr => {}
            _ if i > 0 && part => {}
            _ => col += 1,
        }
    }
    ((line, col) == (p.line, p.column)).then_some(s.len())
}

/// C47: diagnostics are the linter's, at their places.
fn diagnostics() {
    let e = enc(0);
    let src = vs::doc(0);
    let schema_store = tombi_schema_store::SchemaStore::new_with_options(tombi_schema_store::Options { offline: Some(true), strict: None, cache: None });
    let want = run(tombi_linter::Linter::new(tombi_toml_version::TomlVersion::default(), &Default::default(), None, &schema_store).lint(&src))
        .err()
        .unwrap_or_default();
    let s = Srv::with(e, &src);
    let d = s.diagnostics();
    for x in &d {
        vs::check(inside(&src, x.range, e), "diagnostic-outside-the-document");
    }
    let mut k = 0;
    for (i, w) in want.iter().enumerate() {
        if want[..i].contains(w) {
            continue;
        }
        let (a, b) = (place(&src, w.range().start), place(&src, w.range().end));
        vs::check(a.is_some() && b.is_some(), "linter-diagnostic-outside-the-document");
        let (Some(a), Some(b)) = (a, b) else { return };
        vs::check(k < d.len(), "diagnostic-missing");
        if k >= d.len() {
            return;
        }
        let g = &d[k];
        vs::check(g.range == Range::new(pos(&src, a, e), pos(&src, b, e)), "diagnostic-at-another-place");
        vs::check(g.message == w.message() && g.code == Some(NumberOrString::String(w.code().to_string())), "another-diagnostic");
        vs::check(g.severity == Some(if w.is_error() { DiagnosticSeverity::ERROR } else { DiagnosticSeverity::WARNING }), "diagnostic-severity");
        vs::reach(if w.is_error() { "error" } else { "warning" });
        k += 1;
    }
    vs::check(k == d.len(), "diagnostic-of-nothing");
    vs::check(vref::parse(src.as_bytes(), false).is_ok() || d.iter().any(|x| x.severity == Some(DiagnosticSeverity::ERROR)), "invalid-document-without-a-diagnostic");
    vs::out(&[d.len() as u8]);
}

/// C48: a refactoring keeps the data.
fn actions() {
    let e = enc(0);
    let src = vs::doc(0);
    let Ok(t) = vref::parse(src.as_bytes(), false) else { return };
    let s = Srv::with(e, &src);
    // int1: 1 and 2 = the conversion has to be offered somewhere
    let want = ["", "Convert Dotted Keys to Inline Table", "Convert Inline Table to Dotted Keys"][vs::int(1) as usize];
    let mut offered = false;
    for i in 0..=src.len() {
        if !src.is_char_boundary(i) {
            continue;
        }
        for a in s.actions(pos(&src, i, e)) {
            offered |= a.title == want;
            let Some(DocumentChanges::Edits(v)) = a.edit.and_then(|w| w.document_changes) else { continue };
            vs::reach("action");
            for d in v {
                let edits: Vec<TextEdit> = d
                    .edits
                    .into_iter()
                    .map(|x| match x {
                        OneOf::Left(x) => x,
                        OneOf::Right(x) => x.text_edit,
                    })
                    .collect();
                let o = apply(&src, &edits, e);
                vs::check(o.is_some(), "action-edits-outside-the-document");
                let Some(o) = o else { return };
                vs::note(&o);
                let w = vref::parse(o.as_bytes(), false);
                vs::check(w.is_ok(), "action-leaves-an-invalid-document");
                if let Ok(w) = w {
                    vs::check(vref::same_table(&t, &w), "action-changes-the-data");
                }
            }
        }
    }
    if !want.is_empty() {
        vs::check(offered, "conversion-not-offered");
        vs::reach("offered");
    }
}

vs::harness! { warm: warm; format_edits, sem_tokens, folding, symbols, history, pushes, ask, diagnostics, actions, complete, hover, navigate, rewrite }
