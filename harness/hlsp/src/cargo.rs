//! Cargo manifests: a workspace of three packages, on disk, one of them open in the editor.
use crate::*;

const DIRS: [&str; 3] = ["", "a", "b"];
const MAIN: &str = "src/m.rs";

/// The directory of the workspace: in memory, or a scratch directory of this process.
pub fn base() -> String {
    #[cfg(target_family = "wasm")]
    return "/w".into();
    #[cfg(not(target_family = "wasm"))]
    return format!("{}/vs-{}", std::env::temp_dir().display(), std::process::id());
}
pub struct Disk(String);
impl Disk {
    pub fn new(files: &[(String, &str)]) -> Disk {
        let d = Disk(base());
        for (p, s) in files {
            let p = format!("{}/{p}", d.0);
            #[cfg(target_family = "wasm")]
            tombi_fs::set_file(p, s.to_string());
            #[cfg(not(target_family = "wasm"))]
            {
                std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).unwrap();
                std::fs::write(&p, s).unwrap();
            }
        }
        d
    }
    pub fn uri(&self, p: &str) -> Url {
        tombi_uri::Uri::from_file_path(format!("{}/{p}", self.0)).unwrap().into()
    }
    /// The path below the directory.
    pub fn rel(&self, u: &Url) -> Option<String> {
        let p = u.path().strip_prefix(&self.0)?;
        Some(join("", p.as_bytes()))
    }
}
impl Drop for Disk {
    fn drop(&mut self) {
        #[cfg(not(target_family = "wasm"))]
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct F {
    dir: &'static str,
    src: String,
    t: vref::T,
    keys: Vec<(usize, usize, Vec<Step>)>,
    vals: Vec<(usize, usize, Vec<Step>)>,
}
/// A place: file and bytes.
type Loc = (usize, usize, usize);
/// Every group answered by at least one location; the others stay among `may`.
#[derive(Default)]
struct Want {
    must: Vec<Vec<Loc>>,
    may: Vec<Loc>,
}
fn k(s: &[u8]) -> Step {
    Step::K(s.to_vec())
}
fn names(p: &[Step]) -> Vec<Option<&[u8]>> {
    p.iter()
        .map(|s| match s {
            Step::K(k) => Some(k.as_slice()),
            Step::I(_) => None,
        })
        .collect()
}
const KINDS: [&[u8]; 3] = [b"dependencies", b"dev-dependencies", b"build-dependencies"];
/// The length of the path of the dependency entry that `p` is, or lies in.
fn dep_len(p: &[Step]) -> Option<usize> {
    let n = names(p);
    match n.as_slice() {
        [Some(b"target"), Some(_), Some(kind), Some(_), ..] if KINDS.contains(kind) => Some(4),
        [Some(kind), Some(_), ..] if KINDS.contains(kind) => Some(2),
        _ => None,
    }
}
fn text<'a>(t: &'a vref::T, p: &[Step]) -> Option<&'a [u8]> {
    match dig_steps(t, p) {
        Some(vref::V::Str(s)) => Some(s),
        _ => None,
    }
}
fn sub<'a>(v: &'a vref::V, key: &[u8]) -> Option<&'a vref::V> {
    match v {
        vref::V::Tbl(t) => t.get(key),
        _ => None,
    }
}
fn join(dir: &str, p: &[u8]) -> String {
    let p = String::from_utf8_lossy(p);
    let mut v: Vec<&str> = dir.split('/').filter(|x| !x.is_empty()).collect();
    for s in p.split('/') {
        match s {
            "" | "." => {}
            ".." => {
                if v.pop().is_none() {
                    return "?".into();
                }
            }
            s => v.push(s),
        }
    }
    v.join("/")
}

pub struct World {
    pub fs: Vec<F>,
}
impl World {
    pub fn new(docs: &[String]) -> Option<World> {
        World::of(docs, false)
    }
    pub fn of(docs: &[String], v11: bool) -> Option<World> {
        let mut fs = Vec::new();
        for (i, src) in docs.iter().enumerate() {
            let t = vref::parse(src.as_bytes(), v11).ok()?;
            let parsed = tombi_parser::parse(src);
            let mut ps = Paths { aot: vec![], out: vec![] };
            ps.node(&parsed.syntax_node(), &[]);
            let (mut keys, mut vals) = (vec![], vec![]);
            for (a, b, p, is_key) in ps.out {
                let q = matches!(src.as_bytes()[a], b'"' | b'\'') as usize;
                if is_key { &mut keys } else { &mut vals }.push((a + q, b - q, p));
            }
            fs.push(F { dir: DIRS[i], src: src.clone(), t, keys, vals });
        }
        Some(World { fs })
    }
    fn key(&self, f: usize, p: &[Step]) -> Vec<Loc> {
        self.fs[f].keys.iter().filter(|x| x.2 == p).map(|x| (f, x.0, x.1)).collect()
    }
    fn val(&self, f: usize, p: &[Step]) -> Vec<Loc> {
        self.fs[f].vals.iter().filter(|x| x.2 == p).map(|x| (f, x.0, x.1)).collect()
    }
    fn at(&self, dir: &str, p: &[u8]) -> Option<usize> {
        let d = join(dir, p);
        self.fs.iter().position(|f| f.dir == d)
    }
    /// The package a path dependency names, where that is a package.
    fn package(&self, c: Option<usize>) -> Vec<Loc> {
        match c {
            Some(c) if text(&self.fs[c].t, &[k(b"package"), k(b"name")]).is_some() => self.val(c, &[k(b"package"), k(b"name")]),
            _ => vec![],
        }
    }
    fn root(&self, f: usize) -> Option<usize> {
        let is = |f: usize| self.fs[f].t.get(b"workspace").is_some();
        if let Some(w) = text(&self.fs[f].t, &[k(b"package"), k(b"workspace")]) {
            return self.at(self.fs[f].dir, w).filter(|x| is(*x));
        }
        if is(f) {
            return Some(f);
        }
        (f != 0 && is(0)).then_some(0)
    }
    /// The local package a dependency entry means.
    fn target(&self, f: usize, entry: &[Step]) -> Option<usize> {
        let v = dig_steps(&self.fs[f].t, entry)?;
        if let Some(vref::V::Str(p)) = sub(v, b"path") {
            return self.at(self.fs[f].dir, p);
        }
        if let Some(vref::V::Bool(true)) = sub(v, b"workspace") {
            let r = self.root(f)?;
            let w = dig_steps(&self.fs[r].t, &[k(b"workspace"), k(b"dependencies"), entry.last()?.clone()])?;
            if let Some(vref::V::Str(p)) = sub(w, b"path") {
                return self.at(self.fs[r].dir, p);
            }
        }
        None
    }
    /// Every dependency entry of a manifest.
    fn entries(&self, f: usize) -> Vec<Vec<Step>> {
        let mut o: Vec<Vec<Step>> = Vec::new();
        let t = &self.fs[f].t;
        let mut tables: Vec<Vec<Step>> = KINDS.iter().map(|x| vec![k(x)]).collect();
        if let Some(vref::V::Tbl(x)) = t.get(b"target") {
            for e in &x.e {
                for kind in KINDS {
                    tables.push(vec![k(b"target"), k(&e.0), k(kind)]);
                }
            }
        }
        for p in tables {
            if let Some(vref::V::Tbl(x)) = dig_steps(t, &p) {
                for e in &x.e {
                    let mut p = p.clone();
                    p.push(k(&e.0));
                    o.push(p);
                }
            }
        }
        o
    }
    /// The packages that the members of the workspace at `r` are, by pattern.
    fn members(&self, r: usize, key: &[u8], only: Option<usize>) -> Vec<usize> {
        let mut o = Vec::new();
        let Some(vref::V::Arr(a)) = dig_steps(&self.fs[r].t, &[k(b"workspace"), k(key)]) else { return o };
        let out: Vec<String> = match dig_steps(&self.fs[r].t, &[k(b"workspace"), k(b"exclude")]) {
            Some(vref::V::Arr(a)) => a.iter().filter_map(|v| if let vref::V::Str(s) = v { Some(join(self.fs[r].dir, s)) } else { None }).collect(),
            _ => vec![],
        };
        for (i, v) in a.iter().enumerate() {
            let vref::V::Str(s) = v else { continue };
            if only.is_some_and(|x| x != i) {
                continue;
            }
            for (j, f) in self.fs.iter().enumerate() {
                let hit = match s.as_slice() {
                    b"*" => !f.dir.is_empty(),
                    s if s.contains(&b'[') => f.dir.len() == 1 && s[1..].contains(&f.dir.as_bytes()[0]),
                    b"?" => f.dir.len() == 1,
                    s => join(self.fs[r].dir, s) == f.dir,
                };
                // (a member that is listed by its path stays one)
                let listed = a.iter().any(|v| matches!(v, vref::V::Str(s) if join(self.fs[r].dir, s) == f.dir));
                if hit && (listed || !out.iter().any(|x| x == f.dir)) && !o.contains(&j) && text(&f.t, &[k(b"package"), k(b"name")]).is_some() {
                    o.push(j);
                }
            }
        }
        o
    }
    /// What a string of a feature list means: a feature of a package, or an optional dependency of this one.
    fn feature(&self, f: usize, s: &[u8]) -> Option<(usize, Vec<Step>)> {
        let entry = |d: &[u8]| self.entries(f).into_iter().find(|e| e.last() == Some(&k(d)));
        let optional = |d: &[u8]| {
            let e = entry(d)?;
            let v = dig_steps(&self.fs[f].t, &e)?;
            matches!(sub(v, b"optional"), Some(vref::V::Bool(true))).then_some((f, e))
        };
        if let Some(d) = s.strip_prefix(b"dep:") {
            return optional(d);
        }
        if let Some(i) = s.iter().position(|c| *c == b'/') {
            let d = s[..i].strip_suffix(b"?").unwrap_or(&s[..i]);
            return self.feature_of(self.target(f, &entry(d)?)?, &s[i + 1..]);
        }
        if let Some(x) = self.feature_of(f, s) {
            return Some(x);
        }
        // an optional dependency is a feature of its own unless some feature names it by `dep:`
        let mut dep = b"dep:".to_vec();
        dep.extend_from_slice(s);
        if self.strings(f).iter().any(|x| x.1 == dep) {
            return None;
        }
        optional(s)
    }
    fn feature_of(&self, f: usize, s: &[u8]) -> Option<(usize, Vec<Step>)> {
        let p = vec![k(b"features"), k(s)];
        dig_steps(&self.fs[f].t, &p).map(|_| (f, p))
    }
    /// The strings of the lists of [features].
    fn strings(&self, f: usize) -> Vec<(Vec<Step>, Vec<u8>)> {
        let mut o = Vec::new();
        if let Some(vref::V::Tbl(x)) = self.fs[f].t.get(b"features") {
            for e in &x.e {
                let vref::V::Arr(a) = &e.1 else { continue };
                for (i, v) in a.iter().enumerate() {
                    if let vref::V::Str(s) = v {
                        o.push((vec![k(b"features"), k(&e.0), Step::I(i)], s.clone()));
                    }
                }
            }
        }
        o
    }
    /// A feature is at its key, an optional dependency at its `optional`.
    fn place(&self, x: &(usize, Vec<Step>)) -> Vec<Loc> {
        if x.1[0] == k(b"features") {
            return self.key(x.0, &x.1);
        }
        let mut p = x.1.clone();
        p.push(k(b"optional"));
        let (a, b) = (self.key(x.0, &p), self.val(x.0, &p));
        let mut o = b.clone();
        for a in a {
            for b in &b {
                o.push((a.0, a.1, b.2));
            }
        }
        o
    }
    fn one(v: Vec<Loc>) -> Option<Want> {
        Some(Want { must: if v.is_empty() { vec![] } else { vec![v] }, may: vec![] })
    }
    fn many(&self, v: Vec<usize>) -> Option<Want> {
        Some(Want { must: v.into_iter().map(|c| self.package(Some(c))).collect(), may: vec![] })
    }
    fn wdep(&self, f: usize, name: &Step) -> Vec<Loc> {
        match self.root(f) {
            Some(r) => self.key(r, &[k(b"workspace"), k(b"dependencies"), name.clone()]),
            None => vec![],
        }
    }
    fn inherits(&self, f: usize, entry: &[Step]) -> bool {
        dig_steps(&self.fs[f].t, entry).is_some_and(|v| matches!(sub(v, b"workspace"), Some(vref::V::Bool(true))))
    }
    fn definition(&self, f: usize, p: &[Step]) -> Option<Want> {
        let n = names(p);
        match n.as_slice() {
            [Some(b"package"), Some(b"name")] => return Self::one(self.package(Some(f))),
            [Some(b"features"), Some(_)] => return Self::one(self.key(f, p)),
            [Some(b"features"), Some(_), None] => {
                let x = text(&self.fs[f].t, p).and_then(|s| self.feature(f, s));
                return Self::one(x.map(|x| self.place(&x)).unwrap_or_default());
            }
            [Some(b"workspace"), Some(b"dependencies"), Some(_)] => {
                let v = dig_steps(&self.fs[f].t, p)?;
                let c = if let Some(vref::V::Str(x)) = sub(v, b"path") { self.package(self.at(self.fs[f].dir, x)) } else { vec![] };
                return Self::one(if c.is_empty() { self.key(f, p) } else { c });
            }
            [Some(b"workspace"), Some(b"dependencies"), Some(_), Some(b"path")] => {
                return Self::one(self.package(self.at(self.fs[f].dir, text(&self.fs[f].t, p)?)));
            }
            [Some(b"workspace"), Some(b"dependencies"), Some(_), Some(b"features"), None] => {
                let x = sub(dig_steps(&self.fs[f].t, &p[..3])?, b"path");
                let c = if let Some(vref::V::Str(x)) = x { self.at(self.fs[f].dir, x) } else { None };
                let x = c.and_then(|c| self.feature_of(c, text(&self.fs[f].t, p)?));
                return Self::one(x.map(|x| self.place(&x)).unwrap_or_default());
            }
            [Some(b"workspace"), Some(m @ (b"members" | b"default-members"))] => return self.many(self.members(f, m, None)),
            [Some(b"workspace"), Some(m @ (b"members" | b"default-members")), None] => {
                let Step::I(i) = p[2] else { return None };
                return self.many(self.members(f, m, Some(i)));
            }
            [Some(b"bin"), None, Some(b"path")] => {
                let x = text(&self.fs[f].t, p)?;
                return Self::one(if join(self.fs[f].dir, x) == MAIN { vec![(9, 0, 0)] } else { vec![] });
            }
            _ => {}
        }
        let d = dep_len(p)?;
        let inherits = self.inherits(f, &p[..d]);
        match &n[d..] {
            [] => {
                let c = self.package(self.target(f, p));
                if !c.is_empty() {
                    return Self::one(c);
                }
                if inherits {
                    return Self::one(self.wdep(f, p.last()?));
                }
                // (an entry that leads nowhere else may answer with itself)
                Some(Want { must: vec![], may: self.key(f, p) })
            }
            [Some(b"path")] => Self::one(self.package(self.at(self.fs[f].dir, text(&self.fs[f].t, p)?))),
            [Some(b"workspace")] if inherits => Self::one(self.wdep(f, &p[d - 1])),
            [Some(b"optional")] if matches!(dig_steps(&self.fs[f].t, p), Some(vref::V::Bool(true))) => Self::one(self.place(&(f, p[..d].to_vec()))),
            [Some(b"features"), None] => {
                let x = self.target(f, &p[..d]).and_then(|c| self.feature_of(c, text(&self.fs[f].t, p)?));
                Self::one(x.map(|x| self.place(&x)).unwrap_or_default())
            }
            _ => None,
        }
    }
    fn declaration(&self, f: usize, p: &[Step]) -> Option<Want> {
        let d = dep_len(p)?;
        let own = p.len() == d || (p.len() == d + 1 && p[d] == k(b"workspace"));
        (own && self.inherits(f, &p[..d])).then(|| Self::one(self.wdep(f, &p[d - 1])))?
    }
    fn package_name(&self, f: usize, e: &[Step]) -> Option<&[u8]> {
        let v = dig_steps(&self.fs[f].t, e)?;
        let Step::K(name) = e.last()? else { return None };
        // borrowed from the tree
        let own = |v| if let Some(vref::V::Str(s)) = sub(v, b"package") { Some(s.as_slice()) } else { None };
        let name = self.fs[f].keys.iter().find(|x| x.2 == e).map(|x| match x.2.last() {
            Some(Step::K(k)) => k.as_slice(),
            _ => &[],
        }).filter(|x| x == name)?;
        if let Some(x) = own(v) {
            return Some(x);
        }
        if self.inherits(f, e) {
            let r = self.root(f)?;
            if let Some(w) = dig_steps(&self.fs[r].t, &[k(b"workspace"), k(b"dependencies"), e.last()?.clone()])
                && let Some(x) = own(w)
            {
                return Some(x);
            }
        }
        Some(name)
    }
    fn references(&self, f: usize, p: &[Step]) -> Option<Want> {
        let n = names(p);
        let r = self.root(f);
        let mut files: Vec<usize> = r.map(|r| self.members(r, b"members", None)).unwrap_or_default();
        for x in [r, Some(f)].into_iter().flatten() {
            if !files.contains(&x) {
                files.push(x);
            }
        }
        let mut w = Want::default();
        match n.as_slice() {
            [Some(b"package"), Some(b"name")] => {
                let name = text(&self.fs[f].t, p)?;
                if r.is_none() {
                    return None;
                }
                for &m in &files {
                    let mut es = self.entries(m);
                    if Some(m) == r
                        && let Some(vref::V::Tbl(x)) = dig_steps(&self.fs[m].t, &[k(b"workspace"), k(b"dependencies")])
                    {
                        es.extend(x.e.iter().map(|e| vec![k(b"workspace"), k(b"dependencies"), k(&e.0)]));
                    }
                    for e in es {
                        if self.package_name(m, &e) == Some(name) {
                            let at = self.key(m, &e);
                            let local = match e.len() {
                                3 if e[0] == k(b"workspace") => {
                                    let x = sub(dig_steps(&self.fs[m].t, &e)?, b"path");
                                    if let Some(vref::V::Str(x)) = x { self.at(self.fs[m].dir, x) } else { None }
                                }
                                _ => self.target(m, &e),
                            };
                            w.may.extend(at.iter().copied());
                            if local == Some(f) {
                                w.must.push(at);
                            }
                        }
                    }
                }
            }
            [Some(b"features"), Some(_)] => {
                let goal = (f, p.to_vec());
                for &m in &files {
                    for (at, s) in self.strings(m) {
                        if self.feature(m, &s).as_ref() == Some(&goal) {
                            w.must.push(self.val(m, &at));
                        }
                    }
                    let mut es: Vec<(Vec<Step>, Option<usize>)> = self.entries(m).into_iter().map(|e| { let t = self.target(m, &e); (e, t) }).collect();
                    if let Some(vref::V::Tbl(x)) = dig_steps(&self.fs[m].t, &[k(b"workspace"), k(b"dependencies")]) {
                        for e in &x.e {
                            let c = if let Some(vref::V::Str(x)) = sub(&e.1, b"path") { self.at(self.fs[m].dir, x) } else { None };
                            es.push((vec![k(b"workspace"), k(b"dependencies"), k(&e.0)], c));
                        }
                    }
                    for (mut e, c) in es {
                        if c != Some(f) {
                            continue;
                        }
                        e.push(k(b"features"));
                        let Some(vref::V::Arr(a)) = dig_steps(&self.fs[m].t, &e) else { continue };
                        for (i, v) in a.iter().enumerate() {
                            if let vref::V::Str(s) = v
                                && Some(&k(s)) == p.last()
                            {
                                e.push(Step::I(i));
                                w.must.push(self.val(m, &e));
                                e.pop();
                            }
                        }
                    }
                }
            }
            [Some(b"workspace"), Some(b"dependencies"), Some(_)] => {
                for &m in &files {
                    for e in self.entries(m) {
                        if e.last() == p.last() && self.inherits(m, &e) {
                            w.must.push(self.key(m, &e));
                        }
                    }
                }
            }
            _ => {
                let d = dep_len(p)?;
                if p.len() != d + 1 || p[d] != k(b"optional") || !matches!(dig_steps(&self.fs[f].t, p), Some(vref::V::Bool(true))) {
                    return None;
                }
                let goal = (f, p[..d].to_vec());
                for (at, s) in self.strings(f) {
                    if self.feature(f, &s).as_ref() == Some(&goal) {
                        w.must.push(self.val(f, &at));
                    }
                }
            }
        }
        Some(w)
    }
}

/// C53: navigation.  int1: the open manifest, int2: 0 definition, 1 declaration, 2 references.
pub fn navigate() {
    let e = enc(0);
    let (open, what) = (vs::int(1) as usize, vs::int(2));
    let docs = [vs::doc(0), vs::doc(1), vs::doc(2)];
    let Some(w) = World::new(&docs) else { return };
    let path = |i: usize| if DIRS[i].is_empty() { "Cargo.toml".to_string() } else { format!("{}/Cargo.toml", DIRS[i]) };
    let mut files: Vec<(String, &str)> = (0..3).map(|i| (path(i), docs[i].as_str())).collect();
    files.push((MAIN.into(), "fn main() {}\n"));
    files.push(("tombi.toml".into(), "[schema]\nenabled = false\ncatalog = {paths = []}\n"));
    let disk = Disk::new(&files);
    let uri = disk.uri(&path(open));
    let s = Srv::new(e);
    run(s.b().did_open(DidOpenTextDocumentParams {
        text_document: TextDocumentItem { uri: uri.clone(), language_id: "toml".into(), version: 1, text: docs[open].clone() },
    }));
    let mut bad = None;
    let f = &w.fs[open];
    for (a, b, p) in f.keys.iter().chain(&f.vals) {
        let want = match what {
            0 => w.definition(open, p),
            1 => w.declaration(open, p),
            _ => w.references(open, p),
        };
        let Some(want) = want else { continue };
        for o in [*a, (*b).max(a + 1) - 1] {
            if !f.src.is_char_boundary(o) {
                continue;
            }
            let tp = TextDocumentPositionParams { text_document: TextDocumentIdentifier { uri: uri.clone() }, position: pos(&f.src, o, e) };
            let def = GotoDefinitionParams { text_document_position_params: tp.clone(), work_done_progress_params: Default::default(), partial_result_params: Default::default() };
            let got = match what {
                0 => run(s.b().goto_definition(def)).unwrap(),
                1 => run(s.b().goto_declaration(def)).unwrap(),
                _ => run(s.b().references(ReferenceParams {
                    text_document_position: tp,
                    work_done_progress_params: Default::default(),
                    partial_result_params: Default::default(),
                    context: ReferenceContext { include_declaration: false },
                }))
                .unwrap()
                .map(GotoDefinitionResponse::Array),
            };
            let got: Vec<Location> = match got {
                None => vec![],
                Some(GotoDefinitionResponse::Scalar(l)) => vec![l],
                Some(GotoDefinitionResponse::Array(l)) => l,
                Some(GotoDefinitionResponse::Link(_)) => vec![],
            };
            vs::note(&format!("{} at {o}: {:?}", show(p), got.iter().map(|l| (disk.rel(&l.uri), l.range)).collect::<Vec<_>>()));
            let mut locs: Vec<Loc> = Vec::new();
            for l in &got {
                let Some(r) = disk.rel(&l.uri) else {
                    bad = bad.or(Some("location-elsewhere"));
                    continue;
                };
                if r == MAIN {
                    locs.push((9, 0, 0));
                    continue;
                }
                let Some(i) = (0..3).find(|i| path(*i) == r) else {
                    bad = bad.or(Some("location-elsewhere"));
                    continue;
                };
                match (offset(&docs[i], l.range.start, e), offset(&docs[i], l.range.end, e)) {
                    (Some(a), Some(b)) => locs.push((i, a, b)),
                    _ => bad = bad.or(Some("location-outside-the-document")),
                }
            }
            for m in &want.must {
                if !m.iter().any(|x| locs.contains(x)) {
                    vs::note(&format!("  want one of {m:?}, got {locs:?}"));
                    bad = bad.or(Some(["definition-missed", "declaration-missed", "reference-missed"][what as usize]));
                }
                vs::reach("found");
            }
            for x in &locs {
                if !want.may.contains(x) && !want.must.iter().any(|m| m.contains(x)) {
                    vs::note(&format!("  not wanted: {x:?}"));
                    bad = bad.or(Some(["another-definition", "another-declaration", "another-reference"][what as usize]));
                }
            }
            if want.must.is_empty() {
                vs::reach("nothing");
            }
            vs::out(&[locs.len() as u8]);
        }
    }
    drop(disk);
    if let Some(id) = bad {
        vs::check(false, id);
    }
    vs::check(true, "navigation");
}

/// The comments of a manifest outside `hole`: text, on its own line or not, and the key or value it belongs to.
fn comments(f: &F, hole: Option<(usize, usize)>, entry: Option<&[Step]>) -> Vec<(String, bool, Option<Vec<Step>>)> {
    let b = f.src.as_bytes();
    let mut o = Vec::new();
    for t in tombi_parser::parse(&f.src).syntax_node().descendants_with_tokens() {
        let Some(t) = t.into_token() else { continue };
        let s = u32::from(t.span().start) as usize..u32::from(t.span().end) as usize;
        if t.kind() != tombi_syntax::SyntaxKind::COMMENT || hole.is_some_and(|h| h.0 <= s.start && s.end <= h.1) {
            continue;
        }
        let line = b[..s.start].iter().rposition(|c| *c == b'\n').map_or(0, |i| i + 1);
        let own = b[line..s.start].iter().all(|c| matches!(c, b' ' | b'\t'));
        let owner = if own {
            let mut i = s.end;
            loop {
                let nl = |i: usize| if b[i..].starts_with(b"\r\n") { 2 } else { b[i..].starts_with(b"\n") as usize };
                i += nl(i);
                while i < b.len() && matches!(b[i], b' ' | b'\t') {
                    i += 1;
                }
                if i < b.len() && b[i] == b'#' {
                    while i < b.len() && b[i] != b'\n' && !b[i..].starts_with(b"\r\n") {
                        i += 1;
                    }
                    continue;
                }
                while i < b.len() && matches!(b[i], b'[' | b'"' | b'\'') {
                    i += 1;
                }
                break;
            }
            f.keys.iter().chain(&f.vals).find(|x| x.0 == i).map(|x| x.2.clone())
        } else {
            f.keys.iter().chain(&f.vals).filter(|x| x.1 <= s.start && x.1 > line).min_by_key(|x| (x.2.len(), std::cmp::Reverse(x.1))).map(|x| x.2.clone())
        };
        let owner = owner.map(|mut p| {
            if let Some(e) = entry
                && p.starts_with(e)
            {
                p.truncate(e.len());
            }
            p
        });
        o.push((f.src[s].to_string(), own, owner));
    }
    o
}
fn put(t: &mut vref::T, p: &[Step], v: Option<vref::V>) {
    let Step::K(key) = &p[0] else { return };
    if p.len() == 1 {
        match (t.find(key), v) {
            (Some(i), Some(v)) => t.e[i].1 = v,
            (Some(i), None) => drop(t.e.remove(i)),
            (None, Some(v)) => t.e.push((key.clone(), v)),
            _ => {}
        }
    } else if let Some(i) = t.find(key)
        && let vref::V::Tbl(t) = &mut t.e[i].1
    {
        put(t, &p[1..], v);
    }
}
fn table(e: Vec<(&[u8], vref::V)>) -> vref::V {
    let mut t = vref::T::new(vref::K::Inline);
    t.e = e.into_iter().map(|(k, v)| (k.to_vec(), v)).collect();
    vref::V::Tbl(t)
}
const FIELDS: [&[u8]; 16] = [
    b"authors", b"categories", b"description", b"documentation", b"edition", b"exclude", b"homepage", b"include", b"keywords", b"license-file", b"license", b"publish", b"readme", b"repository",
    b"rust-version", b"version",
];
const TITLES: [&str; 4] = ["Inherit from Workspace", "Inherit Dependency from Workspace", "Convert Dependency to Table Format", "Add to Workspace and Inherit Dependency"];
/// An action that is (or may be) offered, and the data of both manifests after it.
struct Offer {
    must: bool,
    entry: Vec<Step>,
    member: vref::V,
    root: Vec<vref::V>,
}
impl World {
    fn offer(&self, f: usize, p: &[Step], title: &str) -> Option<Offer> {
        let ws = |t: &vref::T| t.get(b"workspace").is_some();
        let tru = || vref::V::Bool(true);
        let t = &self.fs[f].t;
        let r = self.root(f).filter(|r| *r != f);
        if title == TITLES[0] {
            let n = names(p);
            let ([Some(b"package"), Some(x), ..], Some(r)) = (n.as_slice(), r) else { return None };
            if !FIELDS.contains(x) || matches!(dig_steps(t, &p[..2])?, vref::V::Tbl(t) if ws(t)) {
                return None;
            }
            dig_steps(&self.fs[r].t, &[k(b"workspace"), k(b"package"), p[1].clone()])?;
            return Some(Offer { must: true, entry: p[..2].to_vec(), member: table(vec![(b"workspace", tru())]), root: vec![] });
        }
        if title == TITLES[2] {
            let n = names(p);
            if dep_len(p) != Some(p.len()) && !matches!(n.as_slice(), [Some(b"workspace"), Some(b"dependencies"), Some(_)]) {
                return None;
            }
            let v @ vref::V::Str(_) = dig_steps(t, p)? else { return None };
            return Some(Offer { must: true, entry: p.to_vec(), member: table(vec![(b"version", v.clone())]), root: vec![] });
        }
        let d = dep_len(p)?;
        let r = r?;
        let old = dig_steps(t, &p[..d])?;
        let at = [k(b"workspace"), k(b"dependencies"), p[d - 1].clone()];
        let has = dig_steps(&self.fs[r].t, &at).is_some();
        let deps = dig_steps(&self.fs[r].t, &at[..2]);
        if has != (title == TITLES[1]) {
            return None;
        }
        // elsewhere: nothing says what inheriting means for a dependency that names its source
        let mut must = matches!(deps, Some(vref::V::Tbl(x)) if matches!(x.k, vref::K::Header | vref::K::Inline));
        let mut member = vec![(b"workspace".as_slice(), tru())];
        let mut root = vec![old.clone()];
        match old {
            vref::V::Str(_) => {
                let v @ vref::V::Str(_) = old else { return None };
                root.push(table(vec![(b"version", v.clone())]));
            }
            vref::V::Tbl(o) => {
                if ws(o) {
                    return None;
                }
                if o.get(b"path").is_some() || o.get(b"git").is_some() || o.get(b"registry").is_some() || o.get(b"version").is_none() {
                    must = false;
                }
                if o.get(b"path").is_some() && title == TITLES[3] {
                    return None;
                }
                for e in &o.e {
                    if e.0 != b"version" {
                        member.push((&e.0, e.1.clone()));
                    }
                }
                let mut w = o.clone();
                put(&mut w, &[k(b"optional")], None);
                root = vec![vref::V::Tbl(w.clone())];
                if let ([(x, v)], true) = (w.e.as_slice(), true)
                    && x == b"version"
                {
                    root.push(v.clone());
                }
            }
            _ => return None,
        }
        if title == TITLES[1] {
            root = vec![];
        }
        Some(Offer { must, entry: p[..d].to_vec(), member: table(member), root })
    }
}

/// C54: code actions.  int1: the open manifest; documents: root, a.
pub fn rewrite() {
    let e = enc(0);
    let open = vs::int(1) as usize;
    let docs = [vs::doc(0), vs::doc(1)];
    let Some(w) = World::of(&docs, docs[1].starts_with("#:tombi toml-version")) else { return };
    let path = |i: usize| if DIRS[i].is_empty() { "Cargo.toml".to_string() } else { format!("{}/Cargo.toml", DIRS[i]) };
    let mut files: Vec<(String, &str)> = (0..2).map(|i| (path(i), docs[i].as_str())).collect();
    files.push(("tombi.toml".into(), "[schema]\nenabled = false\ncatalog = {paths = []}\n"));
    let disk = Disk::new(&files);
    let uri = disk.uri(&path(open));
    let s = Srv::online(e, false);
    run(s.b().did_open(DidOpenTextDocumentParams {
        text_document: TextDocumentItem { uri: uri.clone(), language_id: "toml".into(), version: 1, text: docs[open].clone() },
    }));
    let mut bad = None;
    let f = &w.fs[open];
    for (a, b, p) in f.keys.iter().chain(&f.vals) {
        for o in [*a, (*b).max(a + 1) - 1] {
            if !f.src.is_char_boundary(o) {
                continue;
            }
            let at = pos(&f.src, o, e);
            let got: Vec<CodeAction> = run(s.b().code_action(CodeActionParams {
                text_document: TextDocumentIdentifier { uri: uri.clone() },
                range: Range::new(at, at),
                context: Default::default(),
                work_done_progress_params: Default::default(),
                partial_result_params: Default::default(),
            }))
            .unwrap()
            .unwrap_or_default()
            .into_iter()
            .filter_map(|c| if let CodeActionOrCommand::CodeAction(c) = c { Some(c) } else { None })
            .collect();
            for title in TITLES {
                // anywhere in a header
                let head = || {
                    let line = f.src[..*a].rfind('\n').map_or(0, |i| i + 1);
                    f.src[line..].starts_with('[').then(|| f.keys.iter().filter(|x| x.0 > line && x.2.starts_with(p) && !f.src[*a..x.0].contains('\n')).max_by_key(|x| x.2.len()))?
                };
                let want = w.offer(open, p, title).or_else(|| Some(Offer { must: false, ..w.offer(open, &head()?.2, title)? }));
                let mine: Vec<&CodeAction> = got.iter().filter(|c| c.title == title).collect();
                vs::out(&[mine.len() as u8]);
                let what = || vs::note(&format!("{title} at {} ({o})", show(p)));
                if mine.len() > 1 {
                    what();
                    bad = bad.or(Some("the-same-action-twice"));
                }
                let Some(c) = mine.first() else {
                    if want.is_some_and(|x| x.must) {
                        what();
                        bad = bad.or(Some("action-not-offered"));
                    }
                    continue;
                };
                let Some(want) = want else {
                    what();
                    bad = bad.or(Some("action-offered-where-it-means-nothing"));
                    continue;
                };
                vs::reach(["inherit", "inherit-dependency", "convert", "add"][TITLES.iter().position(|t| *t == title).unwrap()]);
                let mut new = docs.clone();
                let mut seen = vec![];
                if let Some(DocumentChanges::Edits(es)) = c.edit.as_ref().and_then(|e| e.document_changes.as_ref()) {
                    for x in es {
                        let i = (0..2).find(|i| Some(path(*i)) == disk.rel(&x.text_document.uri));
                        let Some(i) = i.filter(|i| !seen.contains(i)) else {
                            what();
                            bad = bad.or(Some("edits-another-document"));
                            continue;
                        };
                        seen.push(i);
                        let es: Vec<TextEdit> = x.edits.iter().map(|x| match x { OneOf::Left(x) => x.clone(), OneOf::Right(x) => x.text_edit.clone() }).collect();
                        match apply(&docs[i], &es, e) {
                            Some(s) => new[i] = s,
                            None => {
                                what();
                                bad = bad.or(Some("edits-outside-the-document"));
                            }
                        }
                    }
                }
                let Some(nw) = World::of(&new, true) else {
                    what();
                    vs::note(&new[0]);
                    vs::note(&new[1]);
                    bad = bad.or(Some("leaves-an-invalid-document"));
                    continue;
                };
                let mut t = f.t.clone();
                put(&mut t, &want.entry, Some(want.member));
                let mut err = None;
                if !vref::same_table(&t, &nw.fs[open].t) {
                    err = Some("entry-means-something-else");
                }
                let wdep = [k(b"workspace"), k(b"dependencies"), want.entry.last().unwrap().clone()];
                let rest = (0..2).filter(|i| *i != open);
                for i in rest {
                    let ok = |v: Option<&vref::V>| {
                        let mut t = w.fs[i].t.clone();
                        if let Some(v) = v {
                            put(&mut t, &wdep, Some(v.clone()));
                        }
                        vref::same_table(&t, &nw.fs[i].t)
                    };
                    if !(want.root.is_empty() && ok(None) || want.root.iter().any(|v| ok(Some(v)))) {
                        err = Some("workspace-holds-another-entry");
                    }
                }
                let span = |f: &F, p: &[Step]| {
                    let i = |x: &&(usize, usize, Vec<Step>)| x.2.starts_with(p);
                    Some((f.keys.iter().find(i)?.0, f.vals.iter().filter(i).map(|x| x.1 + 1).max()?))
                };
                for i in 0..2 {
                    let (h, n) = if i == open { (span(&w.fs[i], &want.entry), span(&nw.fs[i], &want.entry)) } else { (None, None) };
                    let x = if i == open { Some(want.entry.as_slice()) } else { None };
                    let (c0, c1) = (comments(&w.fs[i], h, x), comments(&nw.fs[i], n, x));
                    if c0 != c1 && err.is_none() {
                        vs::note(&format!("{c0:?}\n{c1:?}"));
                        err = Some("comments-lost-or-moved");
                    }
                }
                if let Some(x) = err {
                    what();
                    vs::note(&new[0]);
                    vs::note(&new[1]);
                    bad = bad.or(Some(x));
                }
            }
        }
    }
    drop(disk);
    if let Some(id) = bad {
        vs::check(false, id);
    }
    vs::check(true, "actions");
}
