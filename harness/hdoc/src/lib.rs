mod fmt;
mod toml;
use fmt::format_props;
use toml::*;

fn warm() {
    let _ = lint("a = 1 # c\n[t]\nb.c = [1.5, {x = \"y\"}]\nd = 1979-05-27T07:32:00Z\ns=\"\\n\"", ver(0));
    let _ = fmt::format("a = 1 # c\n[t]\nb.c = [1.5, {x = \"y\"}]\nd = 1979-05-27T07:32:00Z\ns=\"\\n\"", 0, &fmt::options(0));
    let _ = tree("a = 1 # c\n[t]\nb.c = [1.5, {x = \"y\"}]\nd = 1979-05-27T07:32:00Z\ns=\"\\n\"", ver(0));
}

/// The document is accepted exactly if the specification allows it, and then decodes to the same data.
/// int0: TOML version; int1 bit 0: compare acceptance, bit 1: compare data.
fn accept() {
    let v = vs::int(0);
    let what = vs::int(1);
    let src = vs::doc(0);
    let r = vref::parse(src.as_bytes(), v == 1);
    if matches!(r, Err(vref::E::Ambiguous)) {
        vs::assume(false);
        return;
    }
    let errs = lint(&src, ver(v));
    let t = tree(&src, ver(v));
    let ok = errs.is_empty() && t.is_ok();
    vs::out(&[ok as u8]);
    match (&r, &t) {
        (Ok(r), Ok(t)) if ok => {
            vs::reach("accepted");
            if what & 2 != 0 {
                vs::check(same_table(r, t), "data-differs-from-spec");
            }
        }
        (Ok(_), _) => vs::check(what & 1 == 0, "valid-toml-rejected"),
        (Err(_), _) => {
            vs::reach("rejected");
            vs::check(!ok || what & 1 == 0, "invalid-toml-accepted");
        }
    }
}

vs::harness! { warm: warm; accept, format_props }
