//! The order the documentation of tombi prescribes for keys and values (x-tombi-* keywords and
//! `# tombi:` directives).
use crate::js::{S, J};
use crate::{Dt, K, T, V};
use core::cmp::Ordering;

#[derive(PartialEq)]
enum C<'a> {
    Op(&'a str),
    Sep,
    /// significant digits, leading zeros
    Num(&'a str, usize),
    Str(&'a str),
}
const OPS: [&str; 12] = ["===", ">=", "<=", "==", "!=", "~=", "~>", ">", "<", "=", "^", "~"];
fn chunks(s: &str) -> Vec<C<'_>> {
    let mut v = Vec::with_capacity(8);
    let b = s.as_bytes();
    let mut i = 0;
    while i < s.len() {
        if b[i] == b'_' || b[i] == b'-' {
            v.push(C::Sep);
            i += 1;
        } else if b[i].is_ascii_digit() {
            let st = i;
            while i < s.len() && b[i].is_ascii_digit() {
                i += 1;
            }
            let mut z = st;
            while z < i && b[z] == b'0' {
                z += 1;
            }
            v.push(C::Num(&s[z..i], z - st));
        } else if let Some(op) = OPS.iter().find(|o| s[i..].starts_with(**o)) {
            v.push(C::Op(&s[i..i + op.len()]));
            i += op.len();
        } else {
            let st = i;
            while i < s.len()
                && !(b[i] == b'_' || b[i] == b'-' || b[i].is_ascii_digit())
                && !(s.is_char_boundary(i) && OPS.iter().any(|o| s[i..].starts_with(*o)))
            {
                i += 1;
            }
            v.push(C::Str(&s[st..i]));
        }
    }
    v
}
/// The order of the Rust style guide, with version operators first: chunk by chunk, operators before
/// separators before everything else, digit runs by value; more leading zeros decide last.
pub fn version(a: &str, b: &str) -> Ordering {
    let (a, b) = (chunks(a), chunks(b));
    let mut zeros = Ordering::Equal;
    for (x, y) in a.iter().zip(b.iter()) {
        let o = match (x, y) {
            (C::Op(p), C::Op(q)) => p.cmp(q),
            (C::Op(_), _) => Ordering::Less,
            (_, C::Op(_)) => Ordering::Greater,
            (C::Sep, C::Sep) => Ordering::Equal,
            (C::Sep, _) => Ordering::Less,
            (_, C::Sep) => Ordering::Greater,
            (C::Num(p, n), C::Num(q, m)) => {
                let o = p.len().cmp(&q.len()).then(p.cmp(q));
                if o == Ordering::Equal && zeros == Ordering::Equal {
                    zeros = m.cmp(n);
                }
                o
            }
            (C::Str(p), C::Str(q)) => p.cmp(q),
            (C::Str(p), C::Num(..)) => if p.as_bytes()[0] < b'0' { Ordering::Less } else { Ordering::Greater },
            (C::Num(..), C::Str(q)) => if q.as_bytes()[0] < b'0' { Ordering::Greater } else { Ordering::Less },
        };
        if o != Ordering::Equal {
            return o;
        }
    }
    a.len().cmp(&b.len()).then(zeros)
}


/// Entry defined by headers (these follow the key/value pairs of their table).
pub fn by_header(v: &V) -> bool {
    match v {
        V::Tbl(t) => matches!(t.k, K::Header | K::Implicit),
        V::Arr(a) => crate::is_aot(a),
        _ => false,
    }
}

/// Minutes and nanoseconds since 0000-03-01.
fn instant(d: &Dt) -> (i64, i64) {
    let (y, m) = if d.mo > 2 { (d.y as i64, d.mo as i64 - 3) } else { (d.y as i64 - 1, d.mo as i64 + 9) };
    let days = 365 * y + y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400) + (153 * m + 2) / 5 + d.d as i64;
    let min = days * 1440 + d.h as i64 * 60 + d.mi as i64 - d.off as i64;
    (min, d.s as i64 * 1_000_000_000 + d.nanos as i64)
}

fn key_cmp(o: &[u8], a: &[u8], b: &[u8]) -> Ordering {
    match o {
        b"ascending" => a.cmp(b),
        b"descending" => b.cmp(a),
        b"version-sort" => version(core::str::from_utf8(a).unwrap(), core::str::from_utf8(b).unwrap()),
        _ => Ordering::Equal,
    }
}

/// `Some(order)` of two values of the same sortable type.
fn val_cmp(o: &[u8], a: &V, b: &V) -> Option<Ordering> {
    let r = match (a, b) {
        (V::Bool(a), V::Bool(b)) => a.cmp(b),
        (V::Int(a), V::Int(b)) => a.cmp(b),
        (V::Str(a), V::Str(b)) => return Some(key_cmp(o, a, b)),
        (V::Dt(a), V::Dt(b)) if (a.has_date, a.has_time, a.has_off) == (b.has_date, b.has_time, b.has_off) => instant(a).cmp(&instant(b)),
        _ => return None,
    };
    Some(if o == b"descending" { r.reverse() } else { r })
}
fn insertion<A>(v: &mut Vec<A>, f: impl Fn(&A, &A) -> Ordering) {
    for i in 1..v.len() {
        let mut j = i;
        while j > 0 && f(&v[j - 1], &v[j]) == Ordering::Greater {
            v.swap(j - 1, j);
            j -= 1;
        }
    }
}
fn text(j: &J) -> &[u8] {
    match j {
        J::Str(s) => s,
        _ => b"",
    }
}

/// A directive: path of the table or array, order (or `disabled`).
pub struct D<'a>(pub &'a str, pub &'a str);

pub struct Sorter<'a> {
    pub s: S<'a>,
    pub dirs: Vec<D<'a>>,
    /// schemas that replace the one of the value at a path
    pub subs: Vec<(String, &'a J)>,
    /// something was to be sorted whose place the documentation leaves open
    pub open: bool,
    pub tables: bool,
    pub arrays: bool,
}

impl<'a> Sorter<'a> {
    fn deref(&self, s: &'a J) -> &'a J {
        let mut s = s;
        while let Some(J::Str(r)) = s.get("$ref") {
            s = self.s.resolve(r).unwrap();
        }
        s
    }
    /// The schemas that apply: the schema itself and the valid branches of its combinators.
    fn applicable(&mut self, s: &'a J, v: &V) -> Vec<&'a J> {
        let s = self.deref(s);
        let mut out = vec![s];
        for k in ["oneOf", "anyOf", "allOf"] {
            if let Some(J::Arr(l)) = s.get(k) {
                for x in l {
                    if self.s.valid(x, v) {
                        let x = self.deref(x);
                        out.push(x);
                    }
                }
            }
        }
        out
    }
    fn directive(&self, path: &str) -> Option<&'a str> {
        self.dirs.iter().find(|d| d.0 == path).map(|d| d.1)
    }

    /// Puts entries and elements in the prescribed order.
    pub fn sort(&mut self, v: &mut V, schema: Option<&'a J>, path: &str) {
        let schema = self.subs.iter().find(|s| s.0 == path).map(|s| s.1).or(schema);
        let app = match schema {
            Some(s) => self.applicable(s, v),
            None => vec![],
        };
        let dir = self.directive(path);
        match v {
            V::Tbl(t) => {
                let order = app.iter().find_map(|s| s.get("x-tombi-table-keys-order").map(|o| (*s, o)));
                for (k, x) in t.e.iter_mut() {
                    let sub = app.iter().find_map(|s| child(s, k));
                    let p = format!("{path}.{}", core::str::from_utf8(k).unwrap());
                    self.sort(x, sub, &p);
                }
                match dir {
                    Some("disabled") => {}
                    Some("schema") => {
                        if let Some(s) = app.first() {
                            self.tables = true;
                            self.keys(t, s, &J::Str(b"schema".to_vec()));
                        }
                    }
                    Some(d) => {
                        self.tables = true;
                        insertion(&mut t.e, |a, b| key_cmp(d.as_bytes(), &a.0, &b.0));
                    }
                    None => {
                        if let Some((s, o)) = order {
                            self.tables = true;
                            self.keys(t, s, o);
                        }
                    }
                }
            }
            V::Arr(a) => {
                let item = app.iter().find_map(|s| s.get("items"));
                let aot = crate::is_aot(a);
                for (i, x) in a.iter_mut().enumerate() {
                    self.sort(x, item, &format!("{path}[{i}]"));
                }
                if aot {
                    return;
                }
                match dir {
                    Some("disabled") => {}
                    Some(d) => self.values(a, item, d.as_bytes()),
                    None => {
                        if let Some(o) = app.iter().find_map(|s| s.get("x-tombi-array-values-order")) {
                            match o {
                                J::Str(d) => self.values(a, item, d),
                                J::Obj(g) => self.groups(a, item, &g[0].0, &g[0].1),
                                _ => {}
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }

    fn keys(&mut self, t: &mut T, s: &J, o: &J) {
        let names: Vec<&[u8]> = match s.get("properties") {
            Some(J::Obj(p)) => p.iter().map(|x| &x.0[..]).collect(),
            _ => vec![],
        };
        let rank = |k: &[u8]| names.iter().position(|n| *n == k).unwrap_or(names.len());
        let by = |o: &[u8], a: &[u8], b: &[u8]| if o == b"schema" { rank(a).cmp(&rank(b)) } else { key_cmp(o, a, b) };
        match o {
            J::Str(o) => insertion(&mut t.e, |a, b| by(o, &a.0, &b.0)),
            J::Obj(g) => {
                // which group a key belongs to: its number, and how the group is sorted
                let class = |k: &[u8]| {
                    let n: &[u8] = if names.contains(&k) {
                        b"properties"
                    } else if patterned(s, k).is_some() {
                        b"patternProperties"
                    } else {
                        b"additionalProperties"
                    };
                    g.iter().position(|x| x.0 == n)
                };
                if t.e.iter().any(|x| class(&x.0).is_none()) {
                    self.open = true;
                    return;
                }
                insertion(&mut t.e, |a, b| {
                    let (x, y) = (class(&a.0).unwrap(), class(&b.0).unwrap());
                    x.cmp(&y).then_with(|| by(text(&g[x].1), &a.0, &b.0))
                });
            }
            _ => {}
        }
    }

    /// Sorts if all values have one sortable type.
    fn values(&mut self, a: &mut Vec<V>, item: Option<&'a J>, o: &[u8]) {
        let mut keyed: Vec<(V, V)> = Vec::new();
        for v in a.iter() {
            let key = match v {
                V::Tbl(t) => {
                    let by = match item {
                        Some(i) => self.applicable(i, v).iter().find_map(|s| s.get("x-tombi-array-values-order-by")),
                        None => None,
                    };
                    match by.and_then(|b| t.get(text(b))) {
                        Some(k) => k.clone(),
                        None => return,
                    }
                }
                v => v.clone(),
            };
            keyed.push((key, v.clone()));
        }
        if keyed.iter().any(|x| val_cmp(o, &x.0, &keyed[0].0).is_none()) {
            return;
        }
        self.arrays = true;
        insertion(&mut keyed, |a, b| val_cmp(o, &a.0, &b.0).unwrap());
        *a = keyed.into_iter().map(|x| x.1).collect();
    }

    fn groups(&mut self, a: &mut Vec<V>, item: Option<&'a J>, kind: &[u8], orders: &J) {
        let Some(item) = item else { return };
        let item = self.deref(item);
        let (Some(J::Arr(l)), J::Arr(o)) = (item.getb(kind), orders) else { return };
        let mut rest = core::mem::take(a);
        for (s, o) in l.iter().zip(o.iter()) {
            let (mut g, r): (Vec<V>, Vec<V>) = rest.into_iter().partition(|v| self.s.valid(s, v));
            self.values(&mut g, Some(s), text(o));
            a.extend(g);
            rest = r;
        }
        a.extend(rest);
    }
}

fn patterned<'a>(s: &'a J, k: &[u8]) -> Option<&'a J> {
    match s.get("patternProperties") {
        Some(J::Obj(p)) => p.iter().find(|x| crate::js::matches(&x.0, k) == Some(true)).map(|x| &x.1),
        _ => None,
    }
}
fn child<'a>(s: &'a J, k: &[u8]) -> Option<&'a J> {
    s.get("properties").and_then(|p| p.getb(k)).or_else(|| patterned(s, k)).or_else(|| s.get("additionalProperties"))
}

/// Same data in the same order; key/value pairs and sub tables of a table are ordered separately.
pub fn same_order(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Tbl(a), V::Tbl(b)) => {
            let part = |t: &T, h: bool| t.e.iter().filter(|x| by_header(&x.1) == h).cloned().collect::<Vec<_>>();
            [false, true].into_iter().all(|h| {
                let (x, y) = (part(a, h), part(b, h));
                x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| p.0 == q.0 && same_order(&p.1, &q.1))
            })
        }
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| same_order(x, y)),
        (a, b) => crate::same(a, b),
    }
}
/// Same data, in any order of keys and elements.
pub fn same_any(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Tbl(a), V::Tbl(b)) => a.e.len() == b.e.len() && a.e.iter().all(|(k, v)| b.get(k).is_some_and(|w| same_any(v, w))),
        (V::Arr(a), V::Arr(b)) => {
            let mut used = vec![false; b.len()];
            a.len() == b.len()
                && a.iter().all(|x| match (0..b.len()).find(|i| !used[*i] && same_any(x, &b[*i])) {
                    Some(i) => {
                        used[i] = true;
                        true
                    }
                    None => false,
                })
        }
        (a, b) => crate::same(a, b),
    }
}
