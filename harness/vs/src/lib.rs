//! Symbolic-input interface of the harnesses.
//!
//! On wasm the functions are imports answered by the symbolic executor; natively the same harness
//! reads a concrete assignment, which is how counterexamples and sampled paths are replayed on the
//! real code.

#[cfg(target_family = "wasm")]
mod imp {
    mod sys {
        #[link(wasm_import_module = "vs")]
        unsafe extern "C" {
            pub fn sym(p: *const u8, n: usize) -> u32;
            pub fn assume(c: u32);
            pub fn check(c: u32, p: *const u8, n: usize);
            pub fn known(c: u32, p: *const u8, n: usize);
            pub fn reach(p: *const u8, n: usize);
            pub fn out(p: *const u8, n: usize);
            pub fn panic(p: *const u8, n: usize, line: u32);
            pub fn param(i: u32) -> i64;
            pub fn note(p: *const u8, n: usize);
        }
    }
    pub fn sym(alpha: &[u8]) -> u8 {
        unsafe { sys::sym(alpha.as_ptr(), alpha.len()) as u8 }
    }
    pub fn assume(c: bool) {
        unsafe { sys::assume(c as u32) }
    }
    pub fn check(c: bool, id: &str) {
        unsafe { sys::check(c as u32, id.as_ptr(), id.len()) }
    }
    pub fn known(c: bool, id: &str) {
        unsafe { sys::known(c as u32, id.as_ptr(), id.len()) }
    }
    pub fn reach(id: &str) {
        unsafe { sys::reach(id.as_ptr(), id.len()) }
    }
    pub fn out(b: &[u8]) {
        unsafe { sys::out(b.as_ptr(), b.len()) }
    }
    pub fn param(i: u32) -> i64 {
        unsafe { sys::param(i) }
    }
    pub fn note(s: &str) {
        unsafe { sys::note(s.as_ptr(), s.len()) }
    }
    pub fn init() {
        std::panic::set_hook(Box::new(|i| {
            let (f, l) = i.location().map(|l| (l.file(), l.line())).unwrap_or(("?", 0));
            unsafe { sys::panic(f.as_ptr(), f.len(), l) }
        }));
    }

    /// Size-class allocator: cheap to execute symbolically, sizes stay concrete.
    pub struct Alloc;
    static mut FREE: [usize; 40] = [0; 40];
    static mut TOP: usize = 0;
    static mut END: usize = 0;
    #[inline]
    fn class(n: usize) -> (usize, usize) {
        let n = if n < 16 { 16 } else { n };
        let k = (usize::BITS - (n - 1).leading_zeros()) as usize; // 2^k >= n
        (k, 1usize << k)
    }
    unsafe impl std::alloc::GlobalAlloc for Alloc {
        #[inline]
        unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
            unsafe {
                let n = if l.size() > l.align() { l.size() } else { l.align() };
                let (k, sz) = class(n);
                let h = FREE[k];
                if h != 0 {
                    FREE[k] = *(h as *const usize);
                    return h as *mut u8;
                }
                // classes up to 64 KiB are carved from the top; alignment is at least the class size up to 16
                let al = if l.align() > 16 { l.align() } else { 16 };
                let mut p = (TOP + al - 1) & !(al - 1);
                if p + sz > END {
                    let pages = (sz + al) / 65536 + 16;
                    let old = core::arch::wasm32::memory_grow(0, pages) * 65536;
                    if END != old {
                        p = (old + al - 1) & !(al - 1);
                    }
                    END = old + pages * 65536;
                }
                TOP = p + sz;
                p as *mut u8
            }
        }
        #[inline]
        unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
            unsafe {
                let n = if l.size() > l.align() { l.size() } else { l.align() };
                let (k, _) = class(n);
                *(p as *mut usize) = FREE[k];
                FREE[k] = p as usize;
            }
        }
        #[inline]
        unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, new: usize) -> *mut u8 {
            unsafe {
                let n = if l.size() > l.align() { l.size() } else { l.align() };
                let m = if new > l.align() { new } else { l.align() };
                if class(n).0 == class(m).0 {
                    return p;
                }
                let nl = std::alloc::Layout::from_size_align_unchecked(new, l.align());
                let q = self.alloc(nl);
                core::ptr::copy_nonoverlapping(p, q, if l.size() < new { l.size() } else { new });
                self.dealloc(p, l);
                q
            }
        }
    }
}

#[cfg(not(target_family = "wasm"))]
mod imp {
    use std::sync::Mutex;
    #[derive(Default)]
    pub struct St {
        pub model: Vec<u8>,
        pub pos: usize,
        pub params: Vec<i64>,
        pub outs: Vec<u8>,
        pub checks: u64,
    }
    pub static ST: Mutex<St> = Mutex::new(St { model: vec![], pos: 0, params: vec![], outs: vec![], checks: 0 });
    fn finish(line: String) -> ! {
        println!("{line}");
        std::process::exit(0)
    }
    pub fn sym(alpha: &[u8]) -> u8 {
        let mut s = ST.lock().unwrap();
        let p = s.pos;
        s.pos += 1;
        let v = match s.model.get(p) {
            Some(&v) => v,
            None => alpha[0],
        };
        if !alpha.contains(&v) {
            drop(s);
            finish(format!("BADMODEL value {v} not in alphabet of symbol {p}"));
        }
        v
    }
    pub fn assume(c: bool) {
        if !c {
            finish("ASSUME".into());
        }
    }
    pub fn check(c: bool, id: &str) {
        ST.lock().unwrap().checks += 1;
        if !c {
            finish(format!("VIOL {id}"));
        }
    }
    pub fn known(c: bool, id: &str) {
        if c {
            finish(format!("KNOWN {id}"));
        }
    }
    pub fn reach(_id: &str) {}
    pub fn out(b: &[u8]) {
        ST.lock().unwrap().outs.extend_from_slice(b);
    }
    pub fn param(i: u32) -> i64 {
        ST.lock().unwrap().params.get(i as usize).copied().unwrap_or(0)
    }
    pub fn note(s: &str) {
        if std::env::var_os("VS_NOTE").is_some() {
            eprintln!("note: {s}");
        }
    }
    pub fn init() {}

    /// `<entry> <params,comma> <hex model>`; one result line on stdout.
    pub fn native_main(entries: &[(&str, fn())]) {
        let a: Vec<String> = std::env::args().collect();
        let f = entries.iter().find(|e| e.0 == a[1]).expect("unknown entry").1;
        {
            let mut s = ST.lock().unwrap();
            s.params = a[2].split(',').filter(|x| !x.is_empty() && *x != "-").map(|x| x.parse().unwrap()).collect();
            let h = a.get(3).map(|x| x.as_str()).unwrap_or("").trim_start_matches('-');
            s.model = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        }
        std::panic::set_hook(Box::new(|i| {
            let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            println!("PANIC {l}");
            eprintln!("{i}");
            std::process::exit(0);
        }));
        // a generous stack: depth bugs are judged against the same 8 MiB a main thread has
        let t = std::thread::Builder::new().stack_size(8 << 20).spawn(f).unwrap();
        let _ = t.join();
        let s = ST.lock().unwrap();
        let h: String = s.outs.iter().map(|b| format!("{b:02x}")).collect();
        println!("OK checks={} outs={h}", s.checks);
    }
}

pub use imp::*;

/// Symbolic byte chosen from an ASCII alphabet, as a char.
pub fn symc(alpha: &str) -> char {
    sym(alpha.as_bytes()) as char
}
/// Symbolic number in 0..n (n <= 256).
pub fn choice(n: usize) -> usize {
    let v: Vec<u8> = (0..n).map(|x| x as u8).collect();
    sym(&v) as usize
}
pub fn any_u8() -> u8 {
    let v: Vec<u8> = (0..=255u8).collect();
    sym(&v)
}
pub fn any_u32() -> u32 {
    u32::from_le_bytes([any_u8(), any_u8(), any_u8(), any_u8()])
}
pub fn any_u64() -> u64 {
    (any_u32() as u64) | (any_u32() as u64) << 32
}
pub fn any_bool() -> bool {
    sym(&[0, 1]) != 0
}

/// Job parameters: integers followed by byte strings (packed eight bytes per parameter).
pub fn int(i: usize) -> i64 {
    param(1 + i as u32)
}
pub fn blob(i: usize) -> Vec<u8> {
    let mut p = 1 + param(0) as u32;
    for _ in 0..i {
        p += 1 + (param(p) as u32).div_ceil(8);
    }
    let n = param(p) as usize;
    let mut v = Vec::with_capacity(n + 8);
    for k in 0..n.div_ceil(8) {
        v.extend_from_slice(&(param(p + 1 + k as u32) as u64).to_le_bytes());
    }
    v.truncate(n);
    v
}
/// Instantiates template `i`: literal bytes, `0x02 n <n bytes>` = one symbolic byte of that alphabet,
/// `0x03 n (len bytes)*n` = a symbolic choice of one of n strings,
/// `0x04 k` = the value of hole number k (0-based, among holes of both kinds) once more.
pub fn doc(i: usize) -> String {
    fill(&blob(i))
}
pub fn fill(t: &[u8]) -> String {
    let mut o: Vec<u8> = Vec::with_capacity(t.len());
    let mut spans: Vec<(usize, usize)> = Vec::new();
    let mut p = 0;
    while p < t.len() {
        match t[p] {
            2 => {
                let n = t[p + 1] as usize;
                spans.push((o.len(), o.len() + 1));
                o.push(sym(&t[p + 2..p + 2 + n]));
                p += 2 + n;
            }
            3 => {
                let n = t[p + 1] as usize;
                let c = choice(n);
                let st = o.len();
                p += 2;
                for k in 0..n {
                    let l = t[p] as usize;
                    if k == c {
                        o.extend_from_slice(&t[p + 1..p + 1 + l]);
                    }
                    p += 1 + l;
                }
                spans.push((st, o.len()));
            }
            4 => {
                let (a, b) = spans[t[p + 1] as usize];
                for k in a..b {
                    let c = o[k];
                    o.push(c);
                }
                p += 2;
            }
            c => {
                o.push(c);
                p += 1;
            }
        }
    }
    // alphabets are ASCII, choices and literals are whole UTF-8 strings
    unsafe { String::from_utf8_unchecked(o) }
}

/// Poll a future that never waits (no I/O in the harness environment).
pub fn block_on<F: core::future::Future>(f: F) -> F::Output {
    let mut f = core::pin::pin!(f);
    let mut cx = core::task::Context::from_waker(core::task::Waker::noop());
    for _ in 0..64 {
        if let core::task::Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
    }
    panic!("future did not complete")
}

/// `vs::harness! { warm: path; entry1, entry2, ... }` exports the entries.
#[macro_export]
macro_rules! harness {
    (warm: $warm:ident; $($name:ident),* $(,)?) => {
        #[cfg(target_family = "wasm")]
        mod __exports {
            #[global_allocator]
            static A: $crate::Alloc = $crate::Alloc;
            #[unsafe(no_mangle)]
            unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), ()> {
                unsafe { core::ptr::write_bytes(dest, 7, len) };
                Ok(())
            }
            #[unsafe(no_mangle)]
            pub extern "C" fn vs_warm() {
                $crate::init();
                super::$warm();
            }
            /// Start state without the warm-up, for code whose warm-up fails.
            #[unsafe(no_mangle)]
            pub extern "C" fn vs_init() {
                $crate::init();
            }
            #[unsafe(no_mangle)]
            pub extern "C" fn h_vs_warm() {
                super::$warm();
            }
            $(
                mod $name {
                    #[unsafe(export_name = concat!("h_", stringify!($name)))]
                    pub extern "C" fn f() { super::super::$name() }
                }
            )*
        }
        pub fn entries() -> Vec<(&'static str, fn())> {
            vec![("h_vs_warm", $warm as fn()), $((concat!("h_", stringify!($name)), $name as fn())),*]
        }
    };
}
