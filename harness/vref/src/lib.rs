//! Independent reference implementation of TOML v1.0.0 / v1.1.0, written from the specification
//! (ABNF and prose); the oracle the code under test is compared with.
//!
//! `parse(bytes, v11)` returns the root table, or an error class.

pub mod js;
pub mod sort;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum E {
    /// The document violates the specification.
    Invalid,
    /// The specification does not settle the question (see `Ambig` uses); callers drop the input.
    Ambiguous,
}
pub type R<T> = Result<T, E>;

#[derive(Clone, Debug)]
pub enum V {
    Str(Vec<u8>),
    Int(i64),
    /// Text with underscores removed, in the source's spelling.
    Float(Vec<u8>),
    Bool(bool),
    Dt(Dt),
    Arr(Vec<V>),
    Tbl(T),
}

#[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
pub struct Dt {
    pub has_date: bool,
    pub has_time: bool,
    pub has_off: bool,
    pub y: u16,
    pub mo: u8,
    pub d: u8,
    pub h: u8,
    pub mi: u8,
    pub s: u8,
    pub nanos: u32,
    /// Offset in minutes.
    pub off: i16,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum K {
    /// Created by the path of a header.
    Implicit,
    /// Defined by a [header], or one element of an array of tables.
    Header,
    /// Created by a dotted key in the section with this number.
    Dotted(u32),
    /// Inline table (closed).
    Inline,
}

#[derive(Clone, Debug)]
pub struct T {
    pub e: Vec<(Vec<u8>, V)>,
    pub k: K,
}
impl T {
    pub fn new(k: K) -> T {
        T { e: Vec::new(), k }
    }
    pub fn find(&self, k: &[u8]) -> Option<usize> {
        self.e.iter().position(|x| x.0 == k)
    }
    pub fn get(&self, k: &[u8]) -> Option<&V> {
        self.find(k).map(|i| &self.e[i].1)
    }
}

pub struct P<'a> {
    s: &'a [u8],
    p: usize,
    v11: bool,
    /// Arrays defined by [[header]] (others are static); identified by path walk flags below.
    aot: Vec<*const ()>,
    /// Containers of key-values in document order, if asked for.
    log: Option<Vec<C>>,
}

/// A container of key-values: the root, a section below a header, or an inline table.
#[derive(Clone, Debug)]
pub struct C {
    /// Offset of its header or opening brace.
    pub at: usize,
    pub head: Vec<Vec<u8>>,
    pub inline: bool,
    /// First key, start and end offset of each key-value.
    pub kvs: Vec<(Vec<u8>, usize, usize)>,
}

/// The tables of a valid document, and its containers as they are written.
pub fn layout(s: &[u8], v11: bool) -> R<(T, Vec<C>)> {
    let mut p = P { s, p: 0, v11, aot: Vec::new(), log: Some(Vec::new()) };
    let t = p.document()?;
    Ok((t, p.log.unwrap()))
}

/// Marker wrapper: arrays of tables are stored as `V::Arr` whose first element is a `Header` table
/// and that are listed here by construction (static arrays can never contain `Header` tables).
fn is_aot(v: &[V]) -> bool {
    matches!(v.first(), Some(V::Tbl(T { k: K::Header, .. })))
}

pub fn parse(s: &[u8], v11: bool) -> R<T> {
    let mut p = P { s, p: 0, v11, aot: Vec::new(), log: None };
    let _ = &p.aot;
    p.document()
}

const BAD: E = E::Invalid;

impl P<'_> {
    fn peek(&self) -> u8 {
        self.at(0)
    }
    /// 0xff stands for end of input (never a byte of UTF-8).
    fn at(&self, n: usize) -> u8 {
        if self.p + n < self.s.len() { self.s[self.p + n] } else { 0xff }
    }
    fn eof(&self) -> bool {
        self.p >= self.s.len()
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(BAD) }
    }
    fn ws(&mut self) {
        while self.peek() == b' ' || self.peek() == b'\t' {
            self.p += 1;
        }
    }
    fn at_newline(&self) -> bool {
        self.peek() == b'\n' || (self.peek() == b'\r' && self.at(1) == b'\n')
    }
    fn newline(&mut self) -> bool {
        if self.peek() == b'\n' {
            self.p += 1;
            true
        } else if self.peek() == b'\r' && self.at(1) == b'\n' {
            self.p += 2;
            true
        } else {
            false
        }
    }
    fn comment(&mut self) -> R<()> {
        if self.peek() == b'#' {
            self.p += 1;
            while !self.eof() && !self.at_newline() {
                let c = self.peek();
                if (c < 0x20 && c != b'\t') || c == 0x7f {
                    return Err(BAD);
                }
                self.p += 1;
            }
        }
        Ok(())
    }
    /// ws-comment-newline
    fn wscn(&mut self) -> R<()> {
        loop {
            self.ws();
            self.comment()?;
            if !self.newline() {
                return Ok(());
            }
        }
    }

    fn open(&mut self, at: usize, head: &[Vec<u8>], inline: bool) -> usize {
        match &mut self.log {
            Some(l) => {
                l.push(C { at, head: head.to_vec(), inline, kvs: Vec::new() });
                l.len() - 1
            }
            None => 0,
        }
    }
    fn item(&mut self, c: usize, k: &[Vec<u8>], start: usize) {
        let e = self.p;
        if let Some(l) = &mut self.log {
            l[c].kvs.push((k[0].clone(), start, e));
        }
    }

    fn document(&mut self) -> R<T> {
        let mut root = T::new(K::Header);
        let mut path: Vec<Vec<u8>> = Vec::new();
        let mut section = 0u32;
        if self.s.len() >= 3 && self.s[0] == 0xef && self.s[1] == 0xbb && self.s[2] == 0xbf {
            self.p = 3;
        }
        let mut sec = self.open(0, &[], false);
        loop {
            self.ws();
            let c = self.peek();
            if self.eof() {
                return Ok(root);
            } else if c == b'#' || c == b'\n' || c == b'\r' {
            } else if c == b'[' {
                let at = self.p;
                self.p += 1;
                let arr = self.eat(b'[');
                self.ws();
                path = self.key()?;
                self.need(b']')?;
                if arr {
                    self.need(b']')?;
                }
                section += 1;
                header(&mut root, &path, arr)?;
                sec = self.open(at, &path, false);
            } else {
                let at = self.p;
                let k = self.key()?;
                self.need(b'=')?;
                self.ws();
                let v = self.value()?;
                self.item(sec, &k, at);
                let t = descend(&mut root, &path)?;
                insert_dotted(t, &k, v, section)?;
            }
            self.ws();
            self.comment()?;
            if self.eof() {
                return Ok(root);
            }
            if !self.newline() {
                return Err(BAD);
            }
        }
    }

    /// A dotted key, with surrounding blanks consumed after each part.
    fn key(&mut self) -> R<Vec<Vec<u8>>> {
        let mut ks = Vec::new();
        loop {
            let c = self.peek();
            let k = if c == b'"' {
                if self.at(1) == b'"' && self.at(2) == b'"' {
                    return Err(BAD);
                }
                self.basic()?
            } else if c == b'\'' {
                if self.at(1) == b'\'' && self.at(2) == b'\'' {
                    return Err(BAD);
                }
                self.literal()?
            } else {
                let st = self.p;
                while bare(self.peek()) {
                    self.p += 1;
                }
                if st == self.p {
                    return Err(BAD);
                }
                self.s[st..self.p].to_vec()
            };
            ks.push(k);
            self.ws();
            if !self.eat(b'.') {
                return Ok(ks);
            }
            self.ws();
        }
    }

    fn value(&mut self) -> R<V> {
        let c = self.peek();
        match c {
            b'"' => {
                if self.at(1) == b'"' && self.at(2) == b'"' {
                    self.ml_basic().map(V::Str)
                } else {
                    self.basic().map(V::Str)
                }
            }
            b'\'' => {
                if self.at(1) == b'\'' && self.at(2) == b'\'' {
                    self.ml_literal().map(V::Str)
                } else {
                    self.literal().map(V::Str)
                }
            }
            b'[' => {
                self.p += 1;
                let mut a = Vec::new();
                loop {
                    self.wscn()?;
                    if self.eat(b']') {
                        return Ok(V::Arr(a));
                    }
                    a.push(self.value()?);
                    self.wscn()?;
                    if self.eat(b',') {
                        continue;
                    }
                    self.need(b']')?;
                    return Ok(V::Arr(a));
                }
            }
            b'{' => {
                self.p += 1;
                let mut t = T::new(K::Inline);
                let c = self.open(self.p - 1, &[], true);
                let mut first = true;
                loop {
                    self.iws()?;
                    if self.peek() == b'}' && (first || self.v11) {
                        break;
                    }
                    first = false;
                    let at = self.p;
                    let k = self.key()?;
                    self.need(b'=')?;
                    self.ws();
                    let v = self.value()?;
                    self.item(c, &k, at);
                    insert_dotted(&mut t, &k, v, u32::MAX)?;
                    self.iws()?;
                    if self.eat(b',') {
                        continue;
                    }
                    break;
                }
                self.need(b'}')?;
                close(&mut t);
                Ok(V::Tbl(t))
            }
            _ => self.scalar(),
        }
    }
    fn iws(&mut self) -> R<()> {
        if self.v11 {
            self.wscn()
        } else {
            self.ws();
            Ok(())
        }
    }

    fn esc(&mut self, out: &mut Vec<u8>) -> R<()> {
        let c = self.peek();
        self.p += 1;
        let n = match c {
            b'b' => 8,
            b't' => b'\t',
            b'n' => b'\n',
            b'f' => 12,
            b'r' => b'\r',
            b'"' => b'"',
            b'\\' => b'\\',
            b'e' if self.v11 => 0x1b,
            b'x' if self.v11 => return self.hex(2, out),
            b'u' => return self.hex(4, out),
            b'U' => return self.hex(8, out),
            _ => return Err(BAD),
        };
        out.push(n);
        Ok(())
    }
    fn hex(&mut self, n: usize, out: &mut Vec<u8>) -> R<()> {
        let mut v = 0u32;
        for i in 0..n {
            let c = self.at(i);
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return Err(BAD),
            };
            v = v << 4 | d as u32;
        }
        self.p += n;
        if v > 0x10ffff || (v >= 0xd800 && v <= 0xdfff) {
            return Err(BAD);
        }
        if v < 0x80 {
            out.push(v as u8);
        } else if v < 0x800 {
            out.push(0xc0 | (v >> 6) as u8);
            out.push(0x80 | (v & 0x3f) as u8);
        } else if v < 0x10000 {
            out.push(0xe0 | (v >> 12) as u8);
            out.push(0x80 | (v >> 6 & 0x3f) as u8);
            out.push(0x80 | (v & 0x3f) as u8);
        } else {
            out.push(0xf0 | (v >> 18) as u8);
            out.push(0x80 | (v >> 12 & 0x3f) as u8);
            out.push(0x80 | (v >> 6 & 0x3f) as u8);
            out.push(0x80 | (v & 0x3f) as u8);
        }
        Ok(())
    }
    fn basic(&mut self) -> R<Vec<u8>> {
        self.p += 1;
        let mut o = Vec::new();
        loop {
            if self.eof() {
                return Err(BAD);
            }
            let c = self.peek();
            self.p += 1;
            match c {
                b'"' => return Ok(o),
                b'\\' => self.esc(&mut o)?,
                _ => {
                    if (c < 0x20 && c != b'\t') || c == 0x7f {
                        return Err(BAD);
                    }
                    o.push(c)
                }
            }
        }
    }
    fn literal(&mut self) -> R<Vec<u8>> {
        self.p += 1;
        let mut o = Vec::new();
        loop {
            if self.eof() {
                return Err(BAD);
            }
            let c = self.peek();
            self.p += 1;
            if c == b'\'' {
                return Ok(o);
            }
            if (c < 0x20 && c != b'\t') || c == 0x7f {
                return Err(BAD);
            }
            o.push(c);
        }
    }
    /// Up to two quotes may stand before the closing delimiter.
    fn close3(&mut self, q: u8, o: &mut Vec<u8>) -> Option<bool> {
        // number of quotes here
        let mut n = 0;
        while n < 6 && self.at(n) == q {
            n += 1;
        }
        if n < 3 {
            for _ in 0..n {
                o.push(q);
            }
            self.p += n;
            return Some(false);
        }
        if n > 5 {
            return None;
        }
        for _ in 0..n - 3 {
            o.push(q);
        }
        self.p += n;
        Some(true)
    }
    fn ml_basic(&mut self) -> R<Vec<u8>> {
        self.p += 3;
        self.newline();
        let mut o = Vec::new();
        loop {
            if self.eof() {
                return Err(BAD);
            }
            let c = self.peek();
            if c == b'"' {
                if self.close3(b'"', &mut o).ok_or(BAD)? {
                    return Ok(o);
                }
            } else if self.at_newline() {
                // kept (the value's newline may be normalised; compared modulo CRLF)
                if c == b'\r' {
                    self.p += 1;
                    o.push(b'\r');
                }
                self.p += 1;
                o.push(b'\n');
            } else if c == b'\\' {
                self.p += 1;
                let save = self.p;
                self.ws();
                if self.newline() {
                    loop {
                        self.ws();
                        if !self.newline() {
                            break;
                        }
                    }
                } else {
                    self.p = save;
                    self.esc(&mut o)?;
                }
            } else {
                if (c < 0x20 && c != b'\t') || c == 0x7f {
                    return Err(BAD);
                }
                o.push(c);
                self.p += 1;
            }
        }
    }
    fn ml_literal(&mut self) -> R<Vec<u8>> {
        self.p += 3;
        self.newline();
        let mut o = Vec::new();
        loop {
            if self.eof() {
                return Err(BAD);
            }
            let c = self.peek();
            if c == b'\'' {
                if self.close3(b'\'', &mut o).ok_or(BAD)? {
                    return Ok(o);
                }
            } else if self.at_newline() {
                if c == b'\r' {
                    self.p += 1;
                    o.push(b'\r');
                }
                self.p += 1;
                o.push(b'\n');
            } else {
                if (c < 0x20 && c != b'\t') || c == 0x7f {
                    return Err(BAD);
                }
                o.push(c);
                self.p += 1;
            }
        }
    }

    fn scalar(&mut self) -> R<V> {
        let st = self.p;
        // the longest run of characters a scalar can contain; a date may be joined to a time by one blank
        while tok(self.peek()) {
            self.p += 1;
        }
        let mut end = self.p;
        if end - st == 10
            && self.s[st + 4] == b'-'
            && self.peek() == b' '
            && dig(self.at(1))
            && dig(self.at(2))
            && self.at(3) == b':'
        {
            self.p += 1;
            while tok(self.peek()) {
                self.p += 1;
            }
            end = self.p;
        }
        scalar(&self.s[st..end], self.v11)
    }
}

fn bare(c: u8) -> bool {
    matches!(c, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'-' | b'_')
}
fn tok(c: u8) -> bool {
    bare(c) || c == b'+' || c == b'.' || c == b':'
}
fn dig(c: u8) -> bool {
    c >= b'0' && c <= b'9'
}

/// One non-string scalar.
pub fn scalar(t: &[u8], v11: bool) -> R<V> {
    if t == b"true" {
        return Ok(V::Bool(true));
    }
    if t == b"false" {
        return Ok(V::Bool(false));
    }
    if t.is_empty() {
        return Err(BAD);
    }
    if (t.len() >= 5 && dig(t[0]) && dig(t[1]) && dig(t[2]) && dig(t[3]) && t[4] == b'-') || (t.len() >= 3 && dig(t[0]) && dig(t[1]) && t[2] == b':') {
        return datetime(t, v11).map(V::Dt);
    }
    if t.len() > 2 && t[0] == b'0' && (t[1] == b'x' || t[1] == b'o' || t[1] == b'b') {
        let base = if t[1] == b'x' {
            16u64
        } else if t[1] == b'o' {
            8
        } else {
            2
        };
        let mut v = 0u64;
        let mut prev_digit = false;
        for (i, &c) in t[2..].iter().enumerate() {
            if c == b'_' {
                if !prev_digit || i + 3 == t.len() {
                    return Err(BAD);
                }
                prev_digit = false;
                continue;
            }
            let d = match c {
                b'0'..=b'9' => c - b'0',
                b'a'..=b'f' => c - b'a' + 10,
                b'A'..=b'F' => c - b'A' + 10,
                _ => return Err(BAD),
            } as u64;
            if d >= base {
                return Err(BAD);
            }
            if v > (i64::MAX as u64 - d) / base {
                return Err(BAD);
            }
            v = v * base + d;
            prev_digit = true;
        }
        return Ok(V::Int(v as i64));
    }
    // [sign] (inf | nan | dec-int [frac] [exp])
    let mut i = 0;
    let neg = t[0] == b'-';
    if t[0] == b'-' || t[0] == b'+' {
        i = 1;
    }
    if &t[i..] == b"inf" || &t[i..] == b"nan" {
        return Ok(V::Float(t.to_vec()));
    }
    let int_st = i;
    i = digits(t, i)?;
    if t[int_st] == b'0' && i > int_st + 1 {
        return Err(BAD);
    }
    if i == t.len() {
        let mut v: i64 = 0;
        for &c in &t[int_st..] {
            if c == b'_' {
                continue;
            }
            let d = (c - b'0') as i64;
            v = v.checked_mul(10).ok_or(BAD)?;
            v = (if neg { v.checked_sub(d) } else { v.checked_add(d) }).ok_or(BAD)?;
        }
        return Ok(V::Int(v));
    }
    if t[i] == b'.' {
        i = digits(t, i + 1)?;
    }
    if i < t.len() {
        if t[i] != b'e' && t[i] != b'E' {
            return Err(BAD);
        }
        i += 1;
        if i < t.len() && (t[i] == b'+' || t[i] == b'-') {
            i += 1;
        }
        i = digits(t, i)?;
    }
    if i != t.len() {
        return Err(BAD);
    }
    let mut o = Vec::new();
    for &c in t {
        if c != b'_' {
            o.push(c);
        }
    }
    Ok(V::Float(o))
}
/// One or more digits, single underscores between digits; returns the index after them.
fn digits(t: &[u8], mut i: usize) -> R<usize> {
    if i >= t.len() || !dig(t[i]) {
        return Err(BAD);
    }
    i += 1;
    while i < t.len() {
        if dig(t[i]) {
            i += 1;
        } else if t[i] == b'_' {
            if i + 1 < t.len() && dig(t[i + 1]) {
                i += 2;
            } else {
                return Err(BAD);
            }
        } else {
            break;
        }
    }
    Ok(i)
}

fn num(t: &[u8], i: usize, n: usize) -> R<u32> {
    if i + n > t.len() {
        return Err(BAD);
    }
    let mut v = 0u32;
    for k in 0..n {
        let c = t[i + k];
        if !dig(c) {
            return Err(BAD);
        }
        v = v * 10 + (c - b'0') as u32;
    }
    Ok(v)
}
fn lit(t: &[u8], i: usize, c: u8) -> R<()> {
    if i < t.len() && t[i] == c { Ok(()) } else { Err(BAD) }
}

pub fn datetime(t: &[u8], v11: bool) -> R<Dt> {
    let mut d = Dt::default();
    let mut i = 0;
    if t.len() > 4 && t[4] == b'-' {
        d.has_date = true;
        d.y = num(t, 0, 4)? as u16;
        lit(t, 4, b'-')?;
        d.mo = num(t, 5, 2)? as u8;
        lit(t, 7, b'-')?;
        d.d = num(t, 8, 2)? as u8;
        let leap = (d.y % 4 == 0 && d.y % 100 != 0) || d.y % 400 == 0;
        let dim = match d.mo {
            1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
            4 | 6 | 9 | 11 => 30,
            2 => {
                if leap {
                    29
                } else {
                    28
                }
            }
            _ => return Err(BAD),
        };
        if d.d < 1 || d.d > dim {
            return Err(BAD);
        }
        i = 10;
        if t.len() == 10 {
            return Ok(d);
        }
        if t[10] != b'T' && t[10] != b't' && t[10] != b' ' {
            return Err(BAD);
        }
        i += 1;
    }
    d.has_time = true;
    d.h = num(t, i, 2)? as u8;
    lit(t, i + 2, b':')?;
    d.mi = num(t, i + 3, 2)? as u8;
    i += 5;
    if i < t.len() && t[i] == b':' {
        d.s = num(t, i + 1, 2)? as u8;
        i += 3;
        if i < t.len() && t[i] == b'.' {
            i += 1;
            let st = i;
            let mut scale = 100_000_000u32;
            while i < t.len() && dig(t[i]) {
                d.nanos += (t[i] - b'0') as u32 * scale;
                scale /= 10;
                i += 1;
            }
            if st == i {
                return Err(BAD);
            }
        }
    } else if !v11 {
        return Err(BAD);
    }
    if d.h > 23 || d.mi > 59 {
        return Err(BAD);
    }
    if d.s > 60 {
        return Err(BAD);
    }
    if d.s == 60 {
        // leap second: valid only at times leap-second rules allow; left to the implementation
        return Err(E::Ambiguous);
    }
    if i < t.len() {
        if !d.has_date {
            return Err(BAD);
        }
        d.has_off = true;
        if t[i] == b'Z' || t[i] == b'z' {
            i += 1;
        } else if t[i] == b'+' || t[i] == b'-' {
            let h = num(t, i + 1, 2)?;
            lit(t, i + 3, b':')?;
            let m = num(t, i + 4, 2)?;
            if h > 23 || m > 59 {
                return Err(BAD);
            }
            d.off = (h * 60 + m) as i16;
            if t[i] == b'-' {
                d.off = -d.off;
            }
            i += 6;
        } else {
            return Err(BAD);
        }
    }
    if i != t.len() {
        return Err(BAD);
    }
    Ok(d)
}

// ---- table semantics ------------------------------------------------------------------------

fn close(t: &mut T) {
    t.k = K::Inline;
    for (_, v) in t.e.iter_mut() {
        if let V::Tbl(x) = v {
            close(x);
        }
    }
}

/// The table the current header names (the last element for arrays of tables).
fn descend<'a>(root: &'a mut T, path: &[Vec<u8>]) -> R<&'a mut T> {
    let mut t = root;
    for k in path {
        let i = t.find(k).ok_or(BAD)?;
        t = match &mut t.e[i].1 {
            V::Tbl(x) => x,
            V::Arr(a) => match a.last_mut() {
                Some(V::Tbl(x)) => x,
                _ => return Err(BAD),
            },
            _ => return Err(BAD),
        };
    }
    Ok(t)
}

fn header(root: &mut T, path: &[Vec<u8>], arr: bool) -> R<()> {
    let mut t = root;
    let (last, pre) = path.split_last().ok_or(BAD)?;
    for k in pre {
        let i = match t.find(k) {
            Some(i) => i,
            None => {
                t.e.push((k.clone(), V::Tbl(T::new(K::Implicit))));
                t.e.len() - 1
            }
        };
        t = match &mut t.e[i].1 {
            V::Tbl(x) => {
                if x.k == K::Inline {
                    return Err(BAD);
                }
                x
            }
            V::Arr(a) => {
                if !is_aot(a) {
                    return Err(BAD);
                }
                match a.last_mut() {
                    Some(V::Tbl(x)) => x,
                    _ => return Err(BAD),
                }
            }
            _ => return Err(BAD),
        };
    }
    match t.find(last) {
        None => {
            let n = T::new(K::Header);
            t.e.push((last.clone(), if arr { V::Arr(vec![V::Tbl(n)]) } else { V::Tbl(n) }));
            Ok(())
        }
        Some(i) => match &mut t.e[i].1 {
            V::Tbl(x) if !arr && x.k == K::Implicit => {
                x.k = K::Header;
                Ok(())
            }
            V::Arr(a) if arr && is_aot(a) => {
                a.push(V::Tbl(T::new(K::Header)));
                Ok(())
            }
            _ => Err(BAD),
        },
    }
}

fn insert_dotted(t: &mut T, ks: &[Vec<u8>], v: V, section: u32) -> R<()> {
    let mut t = t;
    let (last, pre) = ks.split_last().ok_or(BAD)?;
    for k in pre {
        let i = match t.find(k) {
            Some(i) => i,
            None => {
                t.e.push((k.clone(), V::Tbl(T::new(K::Dotted(section)))));
                t.e.len() - 1
            }
        };
        t = match &mut t.e[i].1 {
            V::Tbl(x) => {
                match x.k {
                    K::Dotted(s) if s == section => {}
                    // extending, by a dotted key, a table that so far only header paths imply:
                    // the specification does not say
                    K::Implicit => return Err(E::Ambiguous),
                    _ => return Err(BAD),
                }
                x
            }
            _ => return Err(BAD),
        };
    }
    if t.find(last).is_some() {
        return Err(BAD);
    }
    t.e.push((last.clone(), v));
    Ok(())
}

/// The comments of a valid document, in order: a leading run of `#`/`!` marks, and the rest without
/// surrounding blanks (blanks between the two are the formatter's business).
pub fn comments(s: &[u8]) -> Vec<Vec<u8>> {
    let mut out = Vec::new();
    let mut p = 0;
    let at = |i: usize| if i < s.len() { s[i] } else { 0xff };
    while p < s.len() {
        match s[p] {
            b'#' => {
                let st = p + 1;
                while p < s.len() && s[p] != b'\n' && !(s[p] == b'\r' && at(p + 1) == b'\n') {
                    p += 1;
                }
                let mut a = st;
                let mut b = p;
                while a < b && (s[a] == b' ' || s[a] == b'\t') {
                    a += 1;
                }
                while b > a && (s[b - 1] == b' ' || s[b - 1] == b'\t') {
                    b -= 1;
                }
                let mut c = Vec::with_capacity(b - a);
                while a < b && (s[a] == b'#' || s[a] == b'!') {
                    c.push(s[a]);
                    a += 1;
                }
                while a < b && (s[a] == b' ' || s[a] == b'\t') {
                    a += 1;
                }
                c.extend_from_slice(&s[a..b]);
                if c.starts_with(b":tombi") || c.starts_with(b"tombi:") || c.starts_with(b":schema") {
                    // a directive's content is a URI or TOML itself, and is formatted: blanks are free there
                    c.retain(|x| !matches!(x, b' ' | b'\t'));
                }
                out.push(c);
            }
            q @ (b'"' | b'\'') => {
                if at(p + 1) == q && at(p + 2) == q {
                    p += 3;
                    loop {
                        if s[p] == b'\\' && q == b'"' {
                            p += 2;
                        } else if s[p] == q && at(p + 1) == q && at(p + 2) == q {
                            // up to two quotes may precede the closing delimiter
                            let mut n = 3;
                            while n < 5 && at(p + n) == q {
                                n += 1;
                            }
                            p += n;
                            break;
                        } else {
                            p += 1;
                        }
                    }
                } else {
                    p += 1;
                    while s[p] != q {
                        p += if s[p] == b'\\' && q == b'"' { 2 } else { 1 };
                    }
                    p += 1;
                }
            }
            _ => p += 1,
        }
    }
    out
}

/// Same data (tables as unordered maps).
pub fn same_table(a: &T, b: &T) -> bool {
    a.e.len() == b.e.len()
        && a.e.iter().all(|(k, v)| match b.get(k) {
            Some(w) => same(v, w),
            None => false,
        })
}
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Str(a), V::Str(b)) => crlf(a) == crlf(b),
        (V::Int(a), V::Int(b)) => a == b,
        (V::Float(a), V::Float(b)) => a == b || float(a) == float(b),
        (V::Bool(a), V::Bool(b)) => a == b,
        (V::Dt(a), V::Dt(b)) => a == b,
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| same(x, y)),
        (V::Tbl(a), V::Tbl(b)) => same_table(a, b),
        _ => false,
    }
}
/// Bits of the value (every NaN is one value).
pub fn float(a: &[u8]) -> u64 {
    let (neg, t) = match a[0] {
        b'-' => (true, &a[1..]),
        b'+' => (false, &a[1..]),
        _ => (false, a),
    };
    if t == b"nan" {
        return 1;
    }
    if t == b"inf" {
        return if neg { f64::NEG_INFINITY.to_bits() } else { f64::INFINITY.to_bits() };
    }
    let f: f64 = core::str::from_utf8(a).unwrap().parse().unwrap();
    f.to_bits()
}
/// A newline in a multi-line string is LF or CRLF, at the parser's choice.
fn crlf(x: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(x.len());
    for i in 0..x.len() {
        if !(x[i] == b'\r' && i + 1 < x.len() && x[i + 1] == b'\n') {
            o.push(x[i]);
        }
    }
    o
}
