//! Independent JSON reader (RFC 8259) and JSON-Schema evaluator (2020-12 with the older array and
//! dependency keywords), written from the specifications: the oracle for schema validation.

use crate::{T, V};

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(Num),
    Str(Vec<u8>),
    Arr(Vec<J>),
    Obj(Vec<(Vec<u8>, J)>),
}
/// m * 10^e, `int` if written without fraction and exponent
#[derive(Clone, Copy, Debug)]
pub struct Num {
    pub m: i64,
    pub e: i32,
    pub int: bool,
}
impl Num {
    fn scaled(self, e: i32) -> i128 {
        let mut m = self.m as i128;
        for _ in 0..(self.e - e) {
            m *= 10;
        }
        m
    }
    pub fn cmp(self, o: Num) -> core::cmp::Ordering {
        let e = if self.e < o.e { self.e } else { o.e };
        self.scaled(e).cmp(&o.scaled(e))
    }
    pub fn multiple_of(self, o: Num) -> bool {
        let e = if self.e < o.e { self.e } else { o.e };
        let d = o.scaled(e);
        d != 0 && self.scaled(e) % d == 0
    }
    pub fn int(m: i64) -> Num {
        Num { m, e: 0, int: true }
    }
    /// The text of a TOML or JSON number (no underscores, no inf/nan).
    pub fn text(t: &[u8]) -> Option<Num> {
        let mut i = 0;
        let neg = t.first() == Some(&b'-');
        if neg || t.first() == Some(&b'+') {
            i = 1;
        }
        let (mut m, mut e, mut frac, mut int, mut any) = (0i64, 0i32, false, true, false);
        while i < t.len() {
            match t[i] {
                c @ b'0'..=b'9' => {
                    m = m.checked_mul(10)?.checked_add((c - b'0') as i64)?;
                    any = true;
                    if frac {
                        e -= 1;
                    }
                }
                b'.' => {
                    frac = true;
                    int = false;
                }
                b'e' | b'E' => {
                    int = false;
                    let s = core::str::from_utf8(&t[i + 1..]).ok()?;
                    e += s.parse::<i32>().ok()?;
                    break;
                }
                _ => return None,
            }
            i += 1;
        }
        if !any {
            return None;
        }
        Some(Num { m: if neg { -m } else { m }, e, int })
    }
}
impl PartialEq for Num {
    fn eq(&self, o: &Num) -> bool {
        self.cmp(*o) == core::cmp::Ordering::Equal
    }
}

impl J {
    pub fn get(&self, k: &str) -> Option<&J> {
        self.getb(k.as_bytes())
    }
    pub fn getb(&self, k: &[u8]) -> Option<&J> {
        match self {
            // the last of duplicate names wins
            J::Obj(o) => o.iter().rev().find(|x| x.0 == k).map(|x| &x.1),
            _ => None,
        }
    }
    pub fn usize(&self) -> Option<usize> {
        match self {
            J::Num(n) if n.m >= 0 => {
                let z = n.scaled(if n.e < 0 { n.e } else { 0 });
                let mut d = 1;
                for _ in n.e..0 {
                    d *= 10;
                }
                if z % d == 0 { Some((z / d) as usize) } else { None }
            }
            _ => None,
        }
    }
}

// ---------------------------------------------------------------- JSON text

pub struct JP<'a> {
    s: &'a [u8],
    p: usize,
    lone: bool,
    tolerant: bool,
}
pub fn json(s: &[u8]) -> Option<J> {
    json_text(s, false).map(|x| x.0)
}
/// The value of a JSON text, and whether it contains an escaped lone surrogate. `tolerant`: a comma
/// may precede a closing bracket.
pub fn json_text(s: &[u8], tolerant: bool) -> Option<(J, bool)> {
    let mut p = JP { s, p: 0, lone: false, tolerant };
    p.ws();
    let v = p.value(0)?;
    p.ws();
    if p.p == s.len() { Some((v, p.lone)) } else { None }
}
impl JP<'_> {
    fn at(&self) -> u8 {
        if self.p < self.s.len() { self.s[self.p] } else { 0 }
    }
    fn ws(&mut self) {
        while matches!(self.at(), b' ' | b'\t' | b'\n' | b'\r') {
            self.p += 1;
        }
    }
    fn lit(&mut self, w: &[u8], v: J) -> Option<J> {
        if self.s[self.p..].starts_with(w) {
            self.p += w.len();
            Some(v)
        } else {
            None
        }
    }
    fn value(&mut self, depth: usize) -> Option<J> {
        match self.at() {
            b'n' => self.lit(b"null", J::Null),
            b't' => self.lit(b"true", J::Bool(true)),
            b'f' => self.lit(b"false", J::Bool(false)),
            b'"' => self.string().map(J::Str),
            b'[' => {
                self.p += 1;
                let mut v = Vec::new();
                self.ws();
                if self.at() == b']' {
                    self.p += 1;
                    return Some(J::Arr(v));
                }
                loop {
                    self.ws();
                    v.push(self.value(depth + 1)?);
                    self.ws();
                    match self.at() {
                        b',' => {
                            self.p += 1;
                            if self.tolerant {
                                self.ws();
                                if self.at() == b']' {
                                    self.p += 1;
                                    return Some(J::Arr(v));
                                }
                            }
                        }
                        b']' => {
                            self.p += 1;
                            return Some(J::Arr(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'{' => {
                self.p += 1;
                let mut v = Vec::new();
                self.ws();
                if self.at() == b'}' {
                    self.p += 1;
                    return Some(J::Obj(v));
                }
                loop {
                    self.ws();
                    if self.at() != b'"' {
                        return None;
                    }
                    let k = self.string()?;
                    self.ws();
                    if self.at() != b':' {
                        return None;
                    }
                    self.p += 1;
                    self.ws();
                    v.push((k, self.value(depth + 1)?));
                    self.ws();
                    match self.at() {
                        b',' => {
                            self.p += 1;
                            if self.tolerant {
                                self.ws();
                                if self.at() == b'}' {
                                    self.p += 1;
                                    return Some(J::Obj(v));
                                }
                            }
                        }
                        b'}' => {
                            self.p += 1;
                            return Some(J::Obj(v));
                        }
                        _ => return None,
                    }
                }
            }
            b'-' | b'0'..=b'9' => {
                let st = self.p;
                if self.at() == b'-' {
                    self.p += 1;
                }
                match self.at() {
                    b'0' => self.p += 1,
                    b'1'..=b'9' => {
                        while self.at().is_ascii_digit() {
                            self.p += 1;
                        }
                    }
                    _ => return None,
                }
                if self.at() == b'.' {
                    self.p += 1;
                    if !self.at().is_ascii_digit() {
                        return None;
                    }
                    while self.at().is_ascii_digit() {
                        self.p += 1;
                    }
                }
                if matches!(self.at(), b'e' | b'E') {
                    self.p += 1;
                    if matches!(self.at(), b'+' | b'-') {
                        self.p += 1;
                    }
                    if !self.at().is_ascii_digit() {
                        return None;
                    }
                    while self.at().is_ascii_digit() {
                        self.p += 1;
                    }
                }
                Num::text(&self.s[st..self.p]).map(J::Num)
            }
            _ => None,
        }
    }
    fn hex4(&mut self) -> Option<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let c = self.at();
            v = v * 16
                + match c {
                    b'0'..=b'9' => c - b'0',
                    b'a'..=b'f' => c - b'a' + 10,
                    b'A'..=b'F' => c - b'A' + 10,
                    _ => return None,
                } as u32;
            self.p += 1;
        }
        Some(v)
    }
    fn string(&mut self) -> Option<Vec<u8>> {
        self.p += 1;
        let mut o = Vec::new();
        loop {
            if self.p >= self.s.len() {
                return None;
            }
            let c = self.at();
            self.p += 1;
            match c {
                b'"' => return Some(o),
                0..=0x1f => return None,
                b'\\' => {
                    let e = self.at();
                    self.p += 1;
                    match e {
                        b'"' | b'\\' | b'/' => o.push(e),
                        b'b' => o.push(8),
                        b'f' => o.push(12),
                        b'n' => o.push(10),
                        b'r' => o.push(13),
                        b't' => o.push(9),
                        b'u' => {
                            let mut u = self.hex4()?;
                            if (0xd800..0xdc00).contains(&u) && self.at() == b'\\' && self.s.get(self.p + 1) == Some(&b'u') {
                                let save = self.p;
                                self.p += 2;
                                let l = self.hex4()?;
                                if (0xdc00..0xe000).contains(&l) {
                                    u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                                } else {
                                    self.p = save;
                                }
                            }
                            let ch = match char::from_u32(u) {
                                Some(c) => c,
                                None => {
                                    self.lone = true;
                                    '\u{fffd}'
                                }
                            };
                            let mut b = [0; 4];
                            o.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                        }
                        _ => return None,
                    }
                }
                c => o.push(c),
            }
        }
    }
}

// ---------------------------------------------------------------- schema

pub fn num(v: &V) -> Option<Num> {
    match v {
        V::Int(i) => Some(Num::int(*i)),
        V::Float(t) => Num::text(t),
        _ => None,
    }
}

pub fn equal(v: &V, j: &J) -> bool {
    match (v, j) {
        (V::Bool(a), J::Bool(b)) => a == b,
        (V::Str(a), J::Str(b)) => a == b,
        (V::Int(_) | V::Float(_), J::Num(b)) => num(v).is_some_and(|a| a == *b),
        (V::Arr(a), J::Arr(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| equal(x, y)),
        (V::Tbl(a), J::Obj(b)) => a.e.len() == b.len() && a.e.iter().all(|(k, x)| j.getb(k).is_some_and(|y| equal(x, y))),
        _ => false,
    }
}
fn same_value(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Int(_) | V::Float(_), V::Int(_) | V::Float(_)) => num(a) == num(b),
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| same_value(x, y)),
        (V::Tbl(a), V::Tbl(b)) => a.e.len() == b.e.len() && a.e.iter().all(|(k, x)| b.get(k).is_some_and(|y| same_value(x, y))),
        _ => crate::same(a, b),
    }
}

#[derive(Default, Clone)]
pub struct Ann {
    pub props: Vec<Vec<u8>>,
    /// items[..upto] evaluated, plus single ones
    pub upto: usize,
    pub items: Vec<usize>,
}
impl Ann {
    fn add(&mut self, o: Ann) {
        self.props.extend(o.props);
        if o.upto > self.upto {
            self.upto = o.upto;
        }
        self.items.extend(o.items);
    }
}

pub struct S<'a> {
    pub root: &'a J,
    /// draft-07 and 2019-09 apply `items` arrays positionally; in 2020-12 `prefixItems`
    pub old: bool,
    /// a question the specification (or the TOML mapping) leaves open was met
    pub open: bool,
    pub depth: u32,
}

/// Searches for one of the pattern forms the documents use: `^`? (class or char)s with `+`, `$`?
pub fn matches(pat: &[u8], s: &[u8]) -> Option<bool> {
    let mut p = pat;
    let head = p.first() == Some(&b'^');
    if head {
        p = &p[1..];
    }
    let tail = p.last() == Some(&b'$');
    if tail {
        p = &p[..p.len() - 1];
    }
    // atoms: (lo..hi ranges, one-or-more)
    let mut atoms: Vec<(Vec<(u8, u8)>, bool)> = Vec::new();
    let mut i = 0;
    while i < p.len() {
        let mut r = Vec::new();
        if p[i] == b'[' {
            i += 1;
            while p[i] != b']' {
                if p[i + 1] == b'-' {
                    r.push((p[i], p[i + 2]));
                    i += 3;
                } else {
                    r.push((p[i], p[i]));
                    i += 1;
                }
            }
            i += 1;
        } else if p[i] == b'.' {
            r.push((0, 9));
            r.push((11, 255));
            i += 1;
        } else if p[i].is_ascii_alphanumeric() || p[i] == b'-' || p[i] == b'_' {
            r.push((p[i], p[i]));
            i += 1;
        } else {
            return None;
        }
        let plus = i < p.len() && p[i] == b'+';
        if plus {
            i += 1;
        }
        atoms.push((r, plus));
    }
    fn go(a: &[(Vec<(u8, u8)>, bool)], s: &[u8], tail: bool) -> bool {
        let Some((r, plus)) = a.first() else {
            return !tail || s.is_empty();
        };
        let Some(&c) = s.first() else { return false };
        if !r.iter().any(|x| x.0 <= c && c <= x.1) {
            return false;
        }
        go(&a[1..], &s[1..], tail) || *plus && go(a, &s[1..], tail)
    }
    Some(if head {
        go(&atoms, s, tail)
    } else {
        (0..=s.len()).any(|i| go(&atoms, &s[i..], tail))
    })
}

impl S<'_> {
    fn pat(&mut self, p: &[u8], s: &[u8]) -> bool {
        match matches(p, s) {
            Some(b) => b,
            None => {
                self.open = true;
                false
            }
        }
    }
    fn list<'b>(j: Option<&'b J>) -> &'b [J] {
        match j {
            Some(J::Arr(a)) => a,
            _ => &[],
        }
    }
    fn obj<'b>(j: Option<&'b J>) -> &'b [(Vec<u8>, J)] {
        match j {
            Some(J::Obj(a)) => a,
            _ => &[],
        }
    }
    pub fn resolve<'b>(&self, r: &[u8]) -> Option<&'b J>
    where
        Self: 'b,
    {
        // SAFETY-free: root outlives self by construction
        let root: *const J = self.root;
        let mut cur: &'b J = unsafe { &*root };
        if r.first() != Some(&b'#') {
            return None;
        }
        let r = &r[1..];
        if r.is_empty() {
            return Some(cur);
        }
        if r[0] != b'/' {
            return None;
        }
        for seg in r[1..].split(|c| *c == b'/') {
            let mut k = Vec::new();
            let mut i = 0;
            while i < seg.len() {
                if seg[i] == b'~' && seg.get(i + 1) == Some(&b'1') {
                    k.push(b'/');
                    i += 2;
                } else if seg[i] == b'~' && seg.get(i + 1) == Some(&b'0') {
                    k.push(b'~');
                    i += 2;
                } else {
                    k.push(seg[i]);
                    i += 1;
                }
            }
            cur = match cur {
                J::Obj(_) => cur.getb(&k)?,
                J::Arr(a) => a.get(core::str::from_utf8(&k).ok()?.parse::<usize>().ok()?)?,
                _ => return None,
            };
        }
        Some(cur)
    }

    pub fn valid(&mut self, s: &J, v: &V) -> bool {
        self.eval(s, v).is_some()
    }

    /// Annotations (evaluated properties and items) if the value is valid.
    pub fn eval(&mut self, s: &J, v: &V) -> Option<Ann> {
        match s {
            J::Bool(b) => return if *b { Some(Ann::default()) } else { None },
            J::Obj(_) => {}
            _ => {
                self.open = true;
                return Some(Ann::default());
            }
        }
        self.depth += 1;
        if self.depth > 40 {
            self.open = true;
            self.depth -= 1;
            return Some(Ann::default());
        }
        let r = self.eval2(s, v);
        self.depth -= 1;
        r
    }

    fn eval2(&mut self, s: &J, v: &V) -> Option<Ann> {
        let mut a = Ann::default();
        let mut ok = true;
        if let Some(J::Str(r)) = s.get("$ref") {
            match self.resolve(r) {
                Some(t) => match self.eval(t, v) {
                    Some(x) => a.add(x),
                    None => ok = false,
                },
                None => {
                    self.open = true;
                }
            }
        }
        if let Some(t) = s.get("type") {
            let m = |w: &J| match w {
                J::Str(w) => match (&w[..], v) {
                    (b"string", V::Str(_)) | (b"boolean", V::Bool(_)) | (b"array", V::Arr(_)) | (b"object", V::Tbl(_)) => true,
                    (b"integer", V::Int(_)) => true,
                    (b"number", V::Int(_) | V::Float(_)) => true,
                    _ => false,
                },
                _ => false,
            };
            ok &= match t {
                J::Arr(l) => l.iter().any(m),
                t => m(t),
            };
            // JSON does not distinguish 1.0 from 1, and TOML date-times have no JSON type
            let has = |n: &[u8]| match t {
                J::Arr(l) => l.iter().any(|x| matches!(x, J::Str(x) if x == n)),
                J::Str(x) => x == n,
                _ => false,
            };
            if matches!(v, V::Float(_)) && has(b"integer") && !has(b"number") && num(v).is_some_and(|n| n.multiple_of(Num::int(1))) {
                self.open = true;
            }
        }
        if matches!(v, V::Dt(_)) {
            self.open = true;
        }
        if let Some(J::Arr(l)) = s.get("enum") {
            ok &= l.iter().any(|j| equal(v, j));
        }
        if let Some(j) = s.get("const") {
            ok &= equal(v, j);
        }
        if let (Some(n), true) = (num(v), true) {
            use core::cmp::Ordering::*;
            if let Some(J::Num(x)) = s.get("minimum") {
                ok &= n.cmp(*x) != Less;
            }
            if let Some(J::Num(x)) = s.get("maximum") {
                ok &= n.cmp(*x) != Greater;
            }
            if let Some(J::Num(x)) = s.get("exclusiveMinimum") {
                ok &= n.cmp(*x) == Greater;
            }
            if let Some(J::Num(x)) = s.get("exclusiveMaximum") {
                ok &= n.cmp(*x) == Less;
            }
            if let Some(J::Num(x)) = s.get("multipleOf") {
                ok &= n.multiple_of(*x);
            }
        }
        if let V::Str(t) = v {
            let len = t.iter().filter(|c| **c & 0xc0 != 0x80).count();
            if let Some(n) = s.get("minLength").and_then(J::usize) {
                ok &= len >= n;
            }
            if let Some(n) = s.get("maxLength").and_then(J::usize) {
                ok &= len <= n;
            }
            if let Some(J::Str(p)) = s.get("pattern") {
                ok &= self.pat(p, t);
            }
        }
        if let V::Arr(t) = v {
            self.array(s, t, &mut a, &mut ok);
        }
        if let V::Tbl(t) = v {
            self.table(s, t, &mut a, &mut ok);
        }
        for x in Self::list(s.get("allOf")) {
            match self.eval(x, v) {
                Some(b) => a.add(b),
                None => ok = false,
            }
        }
        if let Some(J::Arr(l)) = s.get("anyOf") {
            let mut any = false;
            for x in l {
                if let Some(b) = self.eval(x, v) {
                    a.add(b);
                    any = true;
                }
            }
            ok &= any;
        }
        if let Some(J::Arr(l)) = s.get("oneOf") {
            let mut n = 0;
            let mut ann = None;
            for x in l {
                if let Some(b) = self.eval(x, v) {
                    ann = Some(b);
                    n += 1;
                }
            }
            ok &= n == 1;
            if let (1, Some(b)) = (n, ann) {
                a.add(b);
            }
        }
        if let Some(x) = s.get("not") {
            ok &= self.eval(x, v).is_none();
        }
        if let Some(c) = s.get("if") {
            match self.eval(c, v) {
                Some(b) => {
                    a.add(b);
                    if let Some(x) = s.get("then") {
                        match self.eval(x, v) {
                            Some(b) => a.add(b),
                            None => ok = false,
                        }
                    }
                }
                None => {
                    if let Some(x) = s.get("else") {
                        match self.eval(x, v) {
                            Some(b) => a.add(b),
                            None => ok = false,
                        }
                    }
                }
            }
        }
        if let V::Tbl(t) = v
            && let Some(u) = s.get("unevaluatedProperties")
        {
            for (k, x) in &t.e {
                if !a.props.iter().any(|p| p == k) {
                    if self.eval(u, x).is_some() {
                        a.props.push(k.clone());
                    } else {
                        ok = false;
                    }
                }
            }
        }
        if let V::Arr(t) = v
            && let Some(u) = s.get("unevaluatedItems")
        {
            for (i, x) in t.iter().enumerate() {
                if i >= a.upto && !a.items.contains(&i) && self.eval(u, x).is_none() {
                    ok = false;
                }
            }
            a.upto = t.len();
        }
        if ok { Some(a) } else { None }
    }

    fn array(&mut self, s: &J, t: &[V], a: &mut Ann, ok: &mut bool) {
        if let Some(n) = s.get("minItems").and_then(J::usize) {
            *ok &= t.len() >= n;
        }
        if let Some(n) = s.get("maxItems").and_then(J::usize) {
            *ok &= t.len() <= n;
        }
        if let Some(J::Bool(true)) = s.get("uniqueItems") {
            for i in 0..t.len() {
                for j in 0..i {
                    *ok &= !same_value(&t[i], &t[j]);
                }
            }
        }
        let (prefix, rest) = match (s.get("prefixItems"), s.get("items")) {
            (Some(J::Arr(p)), r) => (&p[..], r),
            (_, Some(J::Arr(p))) => (&p[..], s.get("additionalItems")),
            (_, r) => (&[][..], r),
        };
        for (i, x) in t.iter().enumerate() {
            let e = if i < prefix.len() {
                if a.upto < i + 1 {
                    a.upto = i + 1;
                }
                self.eval(&prefix[i], x)
            } else if let Some(r) = rest {
                a.upto = t.len();
                self.eval(r, x)
            } else {
                continue;
            };
            *ok &= e.is_some();
        }
        if let Some(c) = s.get("contains") {
            let mut n = 0;
            for (i, x) in t.iter().enumerate() {
                if self.eval(c, x).is_some() {
                    n += 1;
                    if !self.old {
                        a.items.push(i);
                    }
                }
            }
            let min = s.get("minContains").and_then(J::usize).unwrap_or(1);
            *ok &= n >= min;
            if let Some(m) = s.get("maxContains").and_then(J::usize) {
                *ok &= n <= m;
            }
        }
    }

    fn table(&mut self, s: &J, t: &T, a: &mut Ann, ok: &mut bool) {
        if let Some(n) = s.get("minProperties").and_then(J::usize) {
            *ok &= t.e.len() >= n;
        }
        if let Some(n) = s.get("maxProperties").and_then(J::usize) {
            *ok &= t.e.len() <= n;
        }
        for r in Self::list(s.get("required")) {
            if let J::Str(r) = r {
                *ok &= t.get(r).is_some();
            }
        }
        if let Some(p) = s.get("propertyNames") {
            for (k, _) in &t.e {
                *ok &= self.eval(p, &V::Str(k.clone())).is_some();
            }
        }
        for (k, x) in &t.e {
            let mut seen = false;
            if let Some(p) = s.get("properties").and_then(|p| p.getb(k)) {
                seen = true;
                *ok &= self.eval(p, x).is_some();
            }
            for (re, p) in Self::obj(s.get("patternProperties")) {
                if self.pat(re, k) {
                    seen = true;
                    *ok &= self.eval(p, x).is_some();
                }
            }
            if !seen && let Some(p) = s.get("additionalProperties") {
                seen = true;
                *ok &= self.eval(p, x).is_some();
            }
            if seen {
                a.props.push(k.clone());
            }
        }
        for (k, l) in Self::obj(s.get("dependentRequired")) {
            if t.get(k).is_some() {
                for r in Self::list(Some(l)) {
                    if let J::Str(r) = r {
                        *ok &= t.get(r).is_some();
                    }
                }
            }
        }
        for (k, p) in Self::obj(s.get("dependentSchemas")) {
            if t.get(k).is_some() {
                match self.eval(p, &V::Tbl(t.clone())) {
                    Some(b) => a.add(b),
                    None => *ok = false,
                }
            }
        }
        for (k, p) in Self::obj(s.get("dependencies")) {
            if t.get(k).is_some() {
                match p {
                    J::Arr(l) => {
                        for r in l {
                            if let J::Str(r) = r {
                                *ok &= t.get(r).is_some();
                            }
                        }
                    }
                    p => match self.eval(p, &V::Tbl(t.clone())) {
                        Some(b) => a.add(b),
                        None => *ok = false,
                    },
                }
            }
        }
    }
}

/// Is the document valid under the schema? `None`: left open.
pub fn check(schema: &[u8], doc: &T) -> Option<bool> {
    let j = json(schema)?;
    let mut s = S { root: &j, old: false, open: false, depth: 0 };
    let v = V::Tbl(doc.clone());
    let r = s.valid(&j, &v);
    if s.open { None } else { Some(r) }
}
