use core::cmp::Ordering;
use tombi_text::{EncodingKind, FromLsp, IntoLsp, LineIndex, Position};
use tower_lsp::lsp_types::Position as Lsp;

fn warm() {
    let _ = tombi_json::parse("{\"a\": [1, -2.5e1, \"x\\u0041\", null, true]}");
    let _ = tombi_version_sort::version_sort("a1-b>=2", "a01_b");
    let _ = LineIndex::new("aé\r\nb", EncodingKind::Utf16);
    let _ = tombi_toml_text::to_key_string("a b");
    let _ = vref::parse(b"a = 1.5\n", true);
}

// ---------------------------------------------------------------- version sort

#[derive(PartialEq)]
enum C<'a> {
    Op(&'a str),
    Sep,
    /// significant digits, leading zeros
    Num(&'a str, usize),
    Str(&'a str),
}
const OPS: [&str; 12] = ["===", ">=", "<=", "==", "!=", "~=", "~>", ">", "<", "=", "^", "~"];
fn chunks(s: &str) -> Vec<C<'_>> {
    let mut v = Vec::with_capacity(8);
    let b = s.as_bytes();
    let mut i = 0;
    while i < s.len() {
        if b[i] == b'_' || b[i] == b'-' {
            v.push(C::Sep);
            i += 1;
        } else if b[i].is_ascii_digit() {
            let st = i;
            while i < s.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let mut z = st;
            while z < i && b[z] == b'0' {
                z += 1;
            }
            v.push(C::Num(&s[z..i], z - st));
        } else if let Some(op) = OPS.iter().find(|o| s[i..].starts_with(**o)) {
            v.push(C::Op(&s[i..i + op.len()]));
            i += op.len();
        } else {
            let st = i;
            while i < s.len()
                && !(b[i] == b'_' || b[i] == b'-' || b[i].is_ascii_digit())
                && !(s.is_char_boundary(i) && OPS.iter().any(|o| s[i..].starts_with(*o)))
            {
                i += 1;
            }
            v.push(C::Str(&s[st..i]));
        }
    }
    v
}
/// The order of the Rust style guide, with version operators first: chunk by chunk, operators before
/// separators before everything else, digit runs by value; more leading zeros decide last.
fn order(a: &str, b: &str) -> Ordering {
    let (a, b) = (chunks(a), chunks(b));
    let mut zeros = Ordering::Equal;
    for (x, y) in a.iter().zip(b.iter()) {
        let o = match (x, y) {
            (C::Op(p), C::Op(q)) => p.cmp(q),
            (C::Op(_), _) => Ordering::Less,
            (_, C::Op(_)) => Ordering::Greater,
            (C::Sep, C::Sep) => Ordering::Equal,
            (C::Sep, _) => Ordering::Less,
            (_, C::Sep) => Ordering::Greater,
            (C::Num(p, n), C::Num(q, m)) => {
                let o = p.len().cmp(&q.len()).then(p.cmp(q));
                if o == Ordering::Equal && zeros == Ordering::Equal {
                    zeros = m.cmp(n);
                }
                o
            }
            (C::Str(p), C::Str(q)) => p.cmp(q),
            (C::Str(p), C::Num(..)) => if p.as_bytes()[0] < b'0' { Ordering::Less } else { Ordering::Greater },
            (C::Num(..), C::Str(q)) => if q.as_bytes()[0] < b'0' { Ordering::Greater } else { Ordering::Less },
        };
        if o != Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len()).then(zeros)
}

/// C32: version_sort is the documented order ...
fn version_order() {
    let (a, b) = (vs::doc(0), vs::doc(1));
    let o = tombi_version_sort::version_sort(&a, &b);
    vs::reach(match o {
        Ordering::Less => "less",
        Ordering::Equal => "equal",
        Ordering::Greater => "greater",
    });
    vs::check(o == order(&a, &b), "differs-from-documented-order");
    vs::check(tombi_version_sort::version_sort(&b, &a) == o.reverse(), "not-antisymmetric");
    let same = a.len() == b.len() && a.bytes().zip(b.bytes()).all(|(x, y)| x == y || (x == b'-' || x == b'_') && (y == b'-' || y == b'_'));
    vs::check((o == Ordering::Equal) == same, "equal-for-different-names");
    vs::out(&[o as u8]);
}
/// ... and transitive.
fn version_total() {
    let (a, b, c) = (vs::doc(0), vs::doc(1), vs::doc(2));
    let f = tombi_version_sort::version_sort;
    let (x, y) = (f(&a, &b), f(&b, &c));
    if x != Ordering::Greater && y != Ordering::Greater {
        let z = f(&a, &c);
        vs::check(z != Ordering::Greater, "not-transitive");
        vs::check(z == Ordering::Less || x == Ordering::Equal && y == Ordering::Equal, "not-transitive");
        vs::reach("chain");
    }
    vs::out(&[x as u8, y as u8]);
}

// ---------------------------------------------------------------- LSP positions

fn extends(c: char) -> bool {
    matches!(c, '\u{301}' | '\u{93f}' | '\u{1f3fb}'..='\u{1f3ff}')
}
/// User-perceived characters of a line: é, e + U+0301, emoji with modifier, ZWJ sequences, ASCII.
fn clusters(line: &str) -> Vec<&str> {
    let mut v: Vec<&str> = Vec::with_capacity(line.len());
    let mut st = 0;
    let mut joined = false;
    for (i, c) in line.char_indices() {
        if i > 0 && !joined && !extends(c) && c != '\u{200d}' {
            v.push(&line[st..i]);
            st = i;
        }
        joined = c == '\u{200d}';
    }
    if st < line.len() {
        v.push(&line[st..]);
    }
    v
}
fn units(s: &str, enc: EncodingKind) -> u32 {
    match enc {
        EncodingKind::Utf8 => s.len() as u32,
        EncodingKind::Utf16 => s.chars().map(|c| if c as u32 >= 0x10000 { 2 } else { 1 }).sum(),
        _ => s.chars().count() as u32,
    }
}

/// C41: internal positions and LSP positions name the same place, whatever the encoding.
fn lsp_pos() {
    let enc = [EncodingKind::Utf8, EncodingKind::Utf16, EncodingKind::Utf32][vs::int(0) as usize];
    let src = vs::doc(0);
    let ix = LineIndex::new(&src, enc);
    let mut lines: Vec<&str> = Vec::with_capacity(8);
    let mut st = 0;
    for i in 0..src.len() {
        if src.as_bytes()[i] == b'\n' {
            let e = if i > st && src.as_bytes()[i - 1] == b'\r' { i - 1 } else { i };
            lines.push(&src[st..e]);
            st = i + 1;
        }
    }
    lines.push(&src[st..]);
    vs::check(ix.len() == lines.len(), "line-count");
    for (n, line) in lines.iter().enumerate() {
        let n = n as u32;
        vs::check(ix.line_text(n) == Some(*line), "line-text");
        let cl = clusters(line);
        if cl.len() < line.len() {
            vs::reach("wide");
        }
        let mut col = 0;
        for k in 0..=cl.len() {
            let p = Position::new(n, k as u32);
            let l: Lsp = p.into_lsp(&ix);
            vs::check(l == Lsp::new(n, col), "to-lsp");
            vs::check(Position::from_lsp(l, &ix) == p, "round-trip");
            if k < cl.len() {
                let w = units(cl[k], enc);
                // a column inside a character belongs to the character's start
                for d in 1..w {
                    vs::check(Position::from_lsp(Lsp::new(n, col + d), &ix) == p, "inside-character");
                }
                col += w;
            } else {
                for d in [1, 1000, u32::MAX - col] {
                    vs::check(Position::from_lsp(Lsp::new(n, col.saturating_add(d)), &ix) == p, "beyond-line-end");
                    let l: Lsp = Position::new(n, (k as u32).saturating_add(d)).into_lsp(&ix);
                    vs::check(l == Lsp::new(n, col), "beyond-line-end-to-lsp");
                }
            }
        }
    }
    let n = lines.len() as u32;
    let _ = Position::from_lsp(Lsp::new(n, 3), &ix);
    let _: Lsp = Position::new(n, 3).into_lsp(&ix);
    vs::out(&[lines.len() as u8]);
}

// ---------------------------------------------------------------- JSON

fn same_json(a: &tombi_json::ValueNode, b: &vref::js::J) -> bool {
    use tombi_json::ValueNode as N;
    use vref::js::J;
    match (a, b) {
        (N::Null(_), J::Null) => true,
        (N::Bool(x), J::Bool(y)) => x.value == *y,
        (N::String(x), J::Str(y)) => x.value.as_bytes() == y.as_slice(),
        (N::Number(x), J::Num(y)) => {
            if y.int {
                return x.value.as_i64() == Some(y.m);
            }
            // exact decimal fractions: numerator and power of ten are exact, one rounding
            if y.m.abs() < 1 << 53 && y.e.abs() <= 22 {
                let mut d = 1f64;
                for _ in 0..y.e.abs() {
                    d *= 10.0;
                }
                return x.value.as_f64() == Some(if y.e < 0 { y.m as f64 / d } else { y.m as f64 * d });
            }
            x.value.as_f64().is_some()
        }
        (N::Array(x), J::Arr(y)) => x.items.len() == y.len() && x.items.iter().zip(y.iter()).all(|(p, q)| same_json(p, q)),
        (N::Object(x), J::Obj(y)) => {
            x.properties.len() == y.len()
                && x.properties.iter().zip(y.iter()).all(|((k, p), (l, q))| k.value.as_bytes() == l.as_slice() && same_json(p, q))
        }
        _ => false,
    }
}
fn dup(j: &vref::js::J) -> bool {
    use vref::js::J;
    match j {
        J::Arr(v) => v.iter().any(dup),
        J::Obj(v) => v.iter().any(|x| dup(&x.1)) || (0..v.len()).any(|i| (0..i).any(|k| v[k].0 == v[i].0)),
        _ => false,
    }
}

/// C50: JSON is read as RFC 8259 says.
fn json() {
    let src = vs::doc(0);
    let bytes = src.as_bytes();
    // a carriage return that ends no line is refused: left open
    if (0..bytes.len()).any(|i| bytes[i] == b'\r' && bytes.get(i + 1) != Some(&b'\n')) {
        let _ = tombi_json::parse(&src);
        return;
    }
    let r = tombi_json::parse(&src);
    vs::out(&[r.is_ok() as u8]);
    match (vref::js::json_text(bytes, true), &r) {
        (Some((_, true)), r) => vs::check(r.is_err(), "lone-surrogate-accepted"),
        (Some((j, _)), r) if dup(&j) => vs::check(r.is_err(), "duplicate-name-accepted"),
        (Some((j, _)), Ok(n)) => {
            vs::reach("accepted");
            vs::check(same_json(n, &j), "json-value-differs");
        }
        (Some(_), Err(_)) => vs::check(false, "json-rejected"),
        (None, r) => {
            vs::reach("rejected");
            vs::check(r.is_err(), "invalid-json-accepted");
        }
    }
    // the tokens of an accepted text tile it; columns count characters
    if r.is_err() {
        return;
    }
    let lexed = tombi_json_lexer::lex(&src);
    let mut at = 0usize;
    let mut pos = (0u32, 0u32);
    for t in &lexed.tokens {
        let (a, b) = (u32::from(t.span().start) as usize, u32::from(t.span().end) as usize);
        vs::check(a == at && b >= a && b <= src.len() && src.is_char_boundary(b), "json-token-gap");
        vs::check(t.range().start == Position::new(pos.0, pos.1), "json-token-position");
        for c in src[a..b].chars() {
            match c {
                '\n' => pos = (pos.0 + 1, 0),
                '\r' => {}
                _ => pos.1 += 1,
            }
        }
        vs::check(t.range().end == Position::new(pos.0, pos.1), "json-token-position");
        at = b;
    }
    vs::check(at == src.len(), "json-tokens-cover");
}

// ---------------------------------------------------------------- writing keys and strings

/// C07: keys and strings written by tombi read back as the same text, in either version of TOML.
fn encode() {
    let s = vs::doc(0);
    let q = tombi_toml_text::to_basic_string(&s);
    for v11 in [false, true] {
        let ver = if v11 { tombi_toml_version::TomlVersion::V1_1_0 } else { tombi_toml_version::TomlVersion::V1_0_0 };
        let doc = format!("k = {q}");
        let ok = match vref::parse(doc.as_bytes(), v11) {
            Ok(t) => matches!(t.get(b"k"), Some(vref::V::Str(x)) if x.as_slice() == s.as_bytes()),
            Err(_) => false,
        };
        vs::check(ok, "string-not-preserved");
        vs::check(tombi_toml_text::try_from_basic_string(&q, ver).as_deref() == Ok(s.as_str()), "string-not-read-back");
    }
    if s.starts_with("${") && s.ends_with('}') {
        return;
    }
    let k = tombi_toml_text::to_key_string(&s);
    let doc = format!("{k} = 1");
    let ok = match vref::parse(doc.as_bytes(), false) {
        Ok(t) => t.e.len() == 1 && matches!(t.get(s.as_bytes()), Some(vref::V::Int(1))),
        Err(_) => false,
    };
    vs::check(ok, "key-not-preserved");
    vs::reach(if k.starts_with('"') { "quoted" } else { "bare" });
}

vs::harness! { warm: warm; version_order, version_total, lsp_pos, json, encode }
