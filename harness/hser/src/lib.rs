//! serde drivers: values of the serde data model written by the real serializer and read by the
//! reference reader, and documents read by the real deserializer into values the reference knows.
use core::fmt;
use serde::de::{MapAccess, SeqAccess, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use tombi_date_time as dt;
use vref::{Dt, K, T, V};

/// A reference value as a serde data structure.
struct Ser<'a>(&'a V);
struct SerT<'a>(&'a T);

fn text(d: &Dt) -> String {
    let mut o = String::new();
    use fmt::Write;
    if d.has_date {
        let _ = write!(o, "{:04}-{:02}-{:02}", d.y, d.mo, d.d);
    }
    if d.has_time {
        if d.has_date {
            o.push('T');
        }
        let _ = write!(o, "{:02}:{:02}:{:02}", d.h, d.mi, d.s);
        if d.nanos != 0 {
            let _ = write!(o, ".{:09}", d.nanos);
        }
    }
    if d.has_off {
        let a = d.off.abs();
        let _ = write!(o, "{}{:02}:{:02}", if d.off < 0 { '-' } else { '+' }, a / 60, a % 60);
    }
    o
}

impl Serialize for Ser<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self.0 {
            V::Str(b) => s.serialize_str(core::str::from_utf8(b).unwrap()),
            V::Int(i) => s.serialize_i64(*i),
            V::Float(f) => s.serialize_f64(f64::from_bits(match vref::float(f) {
                1 => f64::NAN.to_bits(),
                b => b,
            })),
            V::Bool(b) => s.serialize_bool(*b),
            V::Dt(d) => {
                let x = text(d);
                match (d.has_date, d.has_time, d.has_off) {
                    (true, true, true) => x.parse::<dt::OffsetDateTime>().unwrap().serialize(s),
                    (true, true, _) => x.parse::<dt::LocalDateTime>().unwrap().serialize(s),
                    (true, _, _) => x.parse::<dt::LocalDate>().unwrap().serialize(s),
                    _ => x.parse::<dt::LocalTime>().unwrap().serialize(s),
                }
            }
            V::Arr(a) => {
                let mut q = s.serialize_seq(Some(a.len()))?;
                for v in a {
                    q.serialize_element(&Ser(v))?;
                }
                q.end()
            }
            V::Tbl(t) => SerT(t).serialize(s),
        }
    }
}
impl Serialize for SerT<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.e.len()))?;
        for (k, v) in &self.0.e {
            m.serialize_entry(core::str::from_utf8(k).unwrap(), &Ser(v))?;
        }
        m.end()
    }
}

/// What a self-describing deserialization yields.
struct De(V);
struct DeV;
impl<'de> Deserialize<'de> for De {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<De, D::Error> {
        d.deserialize_any(DeV)
    }
}
fn stored(s: &str) -> V {
    V::Str(s.as_bytes().to_vec())
}
impl<'de> Visitor<'de> for DeV {
    type Value = De;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("any value")
    }
    fn visit_bool<E>(self, v: bool) -> Result<De, E> {
        Ok(De(V::Bool(v)))
    }
    fn visit_i64<E>(self, v: i64) -> Result<De, E> {
        Ok(De(V::Int(v)))
    }
    fn visit_f64<E>(self, v: f64) -> Result<De, E> {
        Ok(De(V::Float(format!("{v:?}").to_lowercase().into_bytes())))
    }
    fn visit_str<E>(self, v: &str) -> Result<De, E> {
        Ok(De(stored(v)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<De, A::Error> {
        let mut o = vec![];
        while let Some(De(v)) = a.next_element()? {
            o.push(v);
        }
        Ok(De(V::Arr(o)))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<De, A::Error> {
        let mut t = T::new(K::Inline);
        while let Some((k, De(v))) = a.next_entry::<String, De>()? {
            t.e.push((k.into_bytes(), v));
        }
        Ok(De(V::Tbl(t)))
    }
    /// Date-times come as a newtype around their text.
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<De, D::Error> {
        struct S;
        impl<'de> Visitor<'de> for S {
            type Value = De;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("text")
            }
            fn visit_str<E: serde::de::Error>(self, v: &str) -> Result<De, E> {
                match vref::datetime(v.as_bytes(), true) {
                    Ok(d) => Ok(De(V::Dt(d))),
                    Err(_) => Err(E::custom("no date-time")),
                }
            }
        }
        d.deserialize_str(S)
    }
}

fn exact(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Str(a), V::Str(b)) => a == b,
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b.iter()).all(|(x, y)| exact(x, y)),
        (V::Tbl(a), V::Tbl(b)) => exact_table(a, b),
        _ => vref::same(a, b),
    }
}
fn exact_table(a: &T, b: &T) -> bool {
    a.e.len() == b.e.len()
        && a.e.iter().all(|(k, v)| match b.get(k) {
            Some(w) => exact(v, w),
            None => false,
        })
}

fn to_text<S: Serialize>(v: &S) -> Result<String, String> {
    let store = tombi_schema_store::SchemaStore::new();
    vs::block_on(serde_tombi::Serializer::builder().schema_store(&store).build().to_string_async(v)).map_err(|e| e.to_string())
}
fn from_text<'a, D: serde::de::DeserializeOwned>(s: &str) -> Result<D, String> {
    let store = tombi_schema_store::SchemaStore::new();
    vs::block_on(serde_tombi::Deserializer::builder().schema_store(&store).build().from_str_async::<D>(s)).map_err(|e| e.to_string())
}

fn warm() {
    let t = vref::parse(b"a = 1\n[b]\nc = [1.5, {d = 'x'}]\n[[e]]\nf = 1979-05-27T07:32:00Z\n\"g h\" = \"\\n\"\n", false).unwrap();
    let _ = to_text(&SerT(&t));
    let _ = from_text::<De>("a = 1 # c\n[b]\nc = [1.5, {d = 'x'}]\n[[e]]\nf = 1979-05-27T07:32:00Z\n\"g h\" = \"\\n\"\n");
}

/// blob0: the value, as a TOML text.
fn ser() {
    let src = vs::doc(0);
    let Ok(t) = vref::parse(src.as_bytes(), true) else {
        vs::assume(false);
        return;
    };
    match to_text(&SerT(&t)) {
        Err(e) => {
            vs::note(&e);
            vs::check(false, "not serialized");
        }
        Ok(o) => {
            vs::note(&o);
            vs::reach("serialized");
            vs::out(o.as_bytes());
            match vref::parse(o.as_bytes(), false) {
                Err(_) => vs::check(false, "the text is not valid TOML"),
                Ok(u) => vs::check(exact_table(&t, &u), "the text has other data"),
            }
        }
    }
}

/// blob0: a document
fn de() {
    let src = vs::doc(0);
    let t = match vref::parse(src.as_bytes(), false) {
        Err(vref::E::Ambiguous) => {
            vs::assume(false);
            return;
        }
        t => t,
    };
    // what is no TOML may be read leniently (C04 is about that), but without a panic
    match (from_text::<De>(&src), t) {
        (Ok(De(V::Tbl(u))), Ok(t)) => {
            vs::reach("read");
            vs::check(exact_table(&t, &u), "other data")
        }
        (Ok(_), Ok(_)) => vs::check(false, "no table"),
        (Ok(_), Err(_)) => {}
        (Err(e), Ok(_)) => {
            vs::note(&e);
            vs::check(false, "valid document refused")
        }
        (Err(_), Err(_)) => vs::reach("refused"),
    }
}

#[derive(Serialize, Deserialize, PartialEq, Clone)]
enum En {
    Unit,
    New(i64),
    Tup(i64, String),
    Named { x: i64, y: Option<String> },
}
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Inner {
    s: String,
    e: En,
}
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Wrap(i32);
#[derive(Serialize, Deserialize, PartialEq, Clone)]
struct Typed {
    b: bool,
    i: i64,
    u: u64,
    n: i8,
    w: Wrap,
    c: char,
    o: Option<i64>,
    t: (i64, String),
    f: f64,
    e: En,
    es: Vec<En>,
    v: Vec<Inner>,
    m: std::collections::BTreeMap<String, Inner>,
    d: dt::LocalDate,
    z: dt::OffsetDateTime,
}

/// A structure with every kind of field survives writing and reading.
/// int0: which part is symbolic; blob0: the text used in it
fn typed() {
    let part = vs::int(0);
    let s = vs::doc(0);
    let en = |k: usize, s: &str| match k {
        0 => En::Unit,
        1 => En::New(5),
        2 => En::Tup(7, s.to_string()),
        3 => En::Named { x: 1, y: Some(s.to_string()) },
        _ => En::Named { x: 2, y: None },
    };
    let inner = |k: usize, s: &str| Inner { s: s.to_string(), e: en(k, s) };
    let ch = |p: i64, n: usize| if part == p { vs::choice(n) } else { 0 };
    let ints: [i64; 7] = [0, -1, 1, 127, -128, i64::MAX, i64::MIN];
    let a = Typed {
        b: ch(0, 2) == 1,
        i: ints[ch(0, 7)],
        u: [0, 1, i64::MAX as u64, 1 << 63, u64::MAX][ch(0, 5)],
        n: ints[ch(0, 5)] as i8,
        w: Wrap(ints[ch(0, 5)] as i32),
        c: if part == 1 { s.chars().next().unwrap_or('x') } else { 'x' },
        o: if ch(0, 2) == 1 { Some(3) } else { None },
        t: (1, if part == 1 { s.clone() } else { String::new() }),
        f: [0.0, 1.0, -1.5, 1e300, 5e-324, f64::INFINITY][ch(2, 6)],
        e: en(ch(3, 5), &s),
        es: (0..ch(4, 3)).map(|_| en(vs::choice(5), &s)).collect(),
        v: (0..ch(5, 3)).map(|_| inner(vs::choice(5), &s)).collect(),
        m: (0..ch(6, 3)).map(|i| (format!("{i}{s}"), inner(vs::choice(5), &s))).collect(),
        d: dt::LocalDate::from_ymd(1979 + ch(7, 2) as u16 * 100, 2, 28),
        z: ["1979-05-27T07:32:00Z", "1979-05-27T00:32:00-07:00", "0001-01-01T00:00:00.5+00:30"][ch(7, 3)].parse().unwrap(),
    };
    match to_text(&a) {
        Err(e) => {
            vs::note(&e);
            vs::reach("refused");
            vs::check(a.u > i64::MAX as u64, "not serialized")
        }
        Ok(o) => {
            vs::note(&o);
            vs::out(o.as_bytes());
            vs::check(vref::parse(o.as_bytes(), false).is_ok(), "the text is not valid TOML");
            match from_text::<Typed>(&o) {
                Ok(b) => {
                    vs::reach("read back");
                    vs::check(a == b, "read back as another value")
                }
                Err(e) => {
                    vs::note(&e);
                    vs::check(false, "not read back")
                }
            }
        }
    }
}

vs::harness! { warm: warm; ser, de, typed }
