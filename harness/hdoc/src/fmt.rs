//! Formatter drivers.
use crate::toml::ver;
use tombi_config::{format::FormatRules, *};

/// Format options by number.
pub fn options(n: i64) -> FormatOptions {
    let d = FormatRules::default;
    let rules = match n {
        0 => return FormatOptions::default(),
        1 => FormatRules { line_width: Some(10.try_into().unwrap()), ..d() },
        2 => FormatRules { string_quote_style: Some(StringQuoteStyle::Single), ..d() },
        3 => FormatRules { string_quote_style: Some(StringQuoteStyle::Preserve), ..d() },
        4 => FormatRules { key_value_equals_sign_alignment: Some(true), trailing_comment_alignment: Some(true), ..d() },
        5 => FormatRules {
            indent_sub_tables: Some(true),
            indent_table_key_value_pairs: Some(true),
            indent_style: Some(IndentStyle::Tab),
            ..d()
        },
        6 => FormatRules { line_ending: Some(LineEnding::Crlf), ..d() },
        7 => FormatRules { comment_style: Some(CommentStyle::Preserve), ..d() },
        8 => FormatRules {
            date_time_delimiter: Some(DateTimeDelimiter::Space),
            key_quote_style: Some(StringQuoteStyle::Single),
            string_quote_style: Some(StringQuoteStyle::Double),
            ..d()
        },
        9 => FormatRules {
            array_bracket_space_width: Some(1.into()),
            array_comma_space_width: Some(0.into()),
            inline_table_brace_space_width: Some(0.into()),
            inline_table_comma_space_width: Some(3.into()),
            key_value_equals_sign_space_width: Some(0.into()),
            trailing_comment_space_width: Some(0.into()),
            group_blank_lines_limit: Some(2.try_into().unwrap()),
            table_blank_lines: Some(0.into()),
            line_width: Some(1.try_into().unwrap()),
            ..d()
        },
        10 => FormatRules {
            line_ending: Some(LineEnding::Lf),
            date_time_delimiter: Some(DateTimeDelimiter::Preserve),
            indent_width: Some(8.into()),
            indent_sub_tables: Some(true),
            table_blank_lines: Some(3.into()),
            ..d()
        },
        11 => FormatRules {
            indent_width: Some(200.into()),
            indent_sub_tables: Some(true),
            indent_table_key_value_pairs: Some(true),
            key_value_equals_sign_alignment: Some(true),
            ..d()
        },
        _ => unreachable!(),
    };
    FormatOptions { rules: Some(rules) }
}
pub const N_OPTIONS: usize = 12;

pub fn format(src: &str, v: i64, o: &FormatOptions) -> Result<String, Vec<tombi_diagnostic::Diagnostic>> {
    let store = tombi_schema_store::SchemaStore::new();
    vs::block_on(tombi_formatter::Formatter::new(ver(v), o, None, &store).format(src))
}

/// int0: TOML version; int1: options number, or -1 = symbolic; int2: which checks
pub fn format_props() {
    let v = vs::int(0);
    let mut n = vs::int(1);
    let what = vs::int(2);
    let src = vs::doc(0);
    if n < 0 {
        n = vs::choice(N_OPTIONS) as i64;
    }
    let o = options(n);
    let out = format(&src, v, &o);
    vs::out(&[out.is_ok() as u8]);
    if what & 1 != 0 {
        let clean = tombi_parser::parse(&src).errors.is_empty();
        vs::check(clean == out.is_ok(), "formatting-fails-without-syntax-error-or-hides-one");
    }
    let Ok(out) = out else {
        vs::reach("refused");
        return;
    };
    vs::out(&[out.len() as u8]);
    // documents the specification rejects (or leaves open) carry no data to preserve
    let data = vref::parse(src.as_bytes(), v == 1);
    if let Ok(a) = &data {
        vs::reach("formatted");
        if what & (2 | 8) != 0 {
            let b = vref::parse(out.as_bytes(), v == 1);
            vs::check(b.is_ok(), "formatted-text-is-invalid");
            if let (Ok(b), true) = (b, what & 2 != 0) {
                vs::check(vref::same_table(a, &b), "data-changed");
            }
        }
        if what & 8 != 0 {
            let a = vref::comments(src.as_bytes());
            let b = vref::comments(out.as_bytes());
            if !a.is_empty() {
                vs::reach("comments");
            }
            vs::check(a == b, "comments-changed");
        }
        if what & 4 != 0 {
            let again = format(&out, v, &o);
            vs::check(matches!(&again, Ok(x) if *x == out), "not-idempotent");
        }
        if what & 16 != 0 {
            layout(&src, &out, n);
        }
    }
}

/// Line endings, trailing blanks, final newline.
fn layout(src: &str, out: &str, n: i64) {
    let b = out.as_bytes();
    if b.is_empty() {
        vs::check(!src.bytes().any(|c| !matches!(c, b' ' | b'\t' | b'\r' | b'\n')), "content-vanished");
        return;
    }
    vs::check(b[b.len() - 1] == b'\n', "no-final-newline");
    // text outside multi-line strings (inside them newlines and blanks are data)
    let o = outside_strings(b);
    let crlf = match n {
        6 => true,
        10 => false,
        _ => outside_strings(src.as_bytes()).windows(2).any(|w| w == b"\r\n"),
    };
    let mut i = 0;
    while i < o.len() {
        if o[i] == b'\n' {
            let has_cr = i > 0 && o[i - 1] == b'\r';
            vs::check(has_cr == crlf, "mixed-line-ending");
            let e = if has_cr { i - 1 } else { i };
            vs::check(e == 0 || !matches!(o[e - 1], b' ' | b'\t') || n == 7, "trailing-blank");
        }
        i += 1;
    }
    let k = if crlf { 2 } else { 1 };
    vs::check(o.len() <= k || o[o.len() - k - 1] != b'\n', "blank-line-at-end");
    vs::check(!matches!(b[0], b'\n' | b'\r'), "blank-line-at-start");
}

/// The document with the inside of strings blanked out by `x`.
fn outside_strings(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len());
    let at = |i: usize| if i < s.len() { s[i] } else { 0 };
    let mut p = 0;
    while p < s.len() {
        let c = s[p];
        if c == b'#' {
            while p < s.len() && s[p] != b'\n' {
                o.push(s[p]);
                p += 1;
            }
        } else if c == b'"' || c == b'\'' {
            let multi = at(p + 1) == c && at(p + 2) == c;
            let st = p;
            p += if multi { 3 } else { 1 };
            loop {
                if p >= s.len() {
                    break;
                }
                if s[p] == b'\\' && c == b'"' {
                    p += 2;
                } else if multi && s[p] == c && at(p + 1) == c && at(p + 2) == c {
                    p += 3;
                    let mut n = 0;
                    while n < 2 && at(p) == c {
                        p += 1;
                        n += 1;
                    }
                    break;
                } else if !multi && s[p] == c {
                    p += 1;
                    break;
                } else {
                    p += 1;
                }
            }
            for _ in st..p {
                o.push(b'x');
            }
        } else {
            o.push(c);
            p += 1;
        }
    }
    o
}
