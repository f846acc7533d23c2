//! Drives the real parser / linter / document tree, and compares with the reference.
use tombi_ast::AstNode;
use tombi_document_tree as dt;
use tombi_toml_version::TomlVersion;

pub fn ver(v: i64) -> TomlVersion {
    if v == 1 { TomlVersion::V1_1_0 } else { TomlVersion::V1_0_0 }
}

/// Error-level diagnostics of the linter, default rules, no schema.
pub fn lint(src: &str, v: TomlVersion) -> Vec<tombi_diagnostic::Diagnostic> {
    lint_all(src, v).into_iter().filter(|d| d.is_error()).collect()
}
pub fn lint_all(src: &str, v: TomlVersion) -> Vec<tombi_diagnostic::Diagnostic> {
    let store = tombi_schema_store::SchemaStore::new();
    let options = tombi_config::LintOptions::default();
    let linter = tombi_linter::Linter::new(v, &options, None, &store);
    match vs::block_on(linter.lint(src)) {
        Ok(()) => Vec::new(),
        Err(d) => d,
    }
}

/// The document tree, if the document has neither syntax nor structure errors.
pub fn tree(src: &str, v: TomlVersion) -> Result<dt::DocumentTree, ()> {
    use dt::TryIntoDocumentTree;
    let p = tombi_parser::parse(src);
    if !p.errors.is_empty() {
        return Err(());
    }
    let root = tombi_ast::Root::cast(p.into_syntax_node()).ok_or(())?;
    root.try_into_document_tree(v).map_err(|_| ())
}

/// CRLF and LF are the same newline to the comparison.
fn norm_eq(a: &[u8], b: &[u8]) -> bool {
    if a.len() == b.len() {
        return a == b;
    }
    let f = |x: &[u8]| {
        let mut o = Vec::new();
        for i in 0..x.len() {
            if x[i] == b'\r' && i + 1 < x.len() && x[i + 1] == b'\n' {
                continue;
            }
            o.push(x[i]);
        }
        o
    };
    f(a) == f(b)
}

pub fn same_table(r: &vref::T, t: &dt::Table) -> bool {
    if r.e.len() != t.len() {
        return false;
    }
    for (k, v) in t.key_values() {
        let Some(rv) = r.get(k.value.as_bytes()) else {
            return false;
        };
        if !same(rv, v) {
            return false;
        }
    }
    true
}

pub fn same(r: &vref::V, v: &dt::Value) -> bool {
    use vref::V;
    match (r, v) {
        (V::Bool(a), dt::Value::Boolean(b)) => *a == b.value(),
        (V::Int(a), dt::Value::Integer(b)) => *a == b.value(),
        (V::Float(a), dt::Value::Float(b)) => same_float(a, b.value()),
        (V::Str(a), dt::Value::String(b)) => norm_eq(a, b.value().as_bytes()),
        (V::Arr(a), dt::Value::Array(b)) => {
            if a.len() != b.len() {
                return false;
            }
            a.iter().zip(b.iter()).all(|(x, y)| same(x, y))
        }
        (V::Tbl(a), dt::Value::Table(b)) => same_table(a, b),
        (V::Dt(a), dt::Value::LocalDate(b)) => {
            let b = b.value();
            a.has_date && !a.has_time && a.y == b.year() && a.mo == b.month() && a.d == b.day()
        }
        (V::Dt(a), dt::Value::LocalTime(b)) => {
            let b = b.value();
            !a.has_date && a.has_time && a.h == b.hour() && a.mi == b.minute() && a.s == b.second() && a.nanos == b.nanosecond()
        }
        (V::Dt(a), dt::Value::LocalDateTime(b)) => {
            let b = b.value();
            a.has_date && a.has_time && !a.has_off && a.y == b.year() && a.mo == b.month() && a.d == b.day()
                && a.h == b.hour() && a.mi == b.minute() && a.s == b.second() && a.nanos == b.nanosecond()
        }
        (V::Dt(a), dt::Value::OffsetDateTime(b)) => {
            let b = b.value();
            let off = match b.offset() {
                tombi_date_time::TimeZoneOffset::Z => 0,
                tombi_date_time::TimeZoneOffset::Custom { minutes } => minutes,
            };
            a.has_off && a.y == b.year() && a.mo == b.month() && a.d == b.day()
                && a.h == b.hour() && a.mi == b.minute() && a.s == b.second() && a.nanos == b.nanosecond() && a.off == off
        }
        _ => false,
    }
}

pub fn same_float(a: &[u8], b: f64) -> bool {
    let (neg, t) = match a[0] {
        b'-' => (true, &a[1..]),
        b'+' => (false, &a[1..]),
        _ => (false, a),
    };
    if t == b"inf" {
        return b.is_infinite() && (b < 0.0) == neg;
    }
    if t == b"nan" {
        return b.is_nan();
    }
    let f: f64 = unsafe { core::str::from_utf8_unchecked(a) }.parse().unwrap();
    f.to_bits() == b.to_bits()
}
