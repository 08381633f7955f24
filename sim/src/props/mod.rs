use crate::json::J;
use crate::report::Report;
use crate::rng::{hash_bytes, Rng};

pub mod scan;
pub mod read;
pub mod cli;
pub mod trip;

pub const ALL: [&str; 22] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C23", "C24"];

pub fn generate(prop: &str, seed: u64, idx: u64) -> J {
    let mut r = Rng::new(hash_bytes(seed, format!("{} {}", prop, idx).as_bytes()));
    let r = &mut r;
    // every so many cases one that is wide for certain, whatever the seed
    let wide = idx % 3000 == 1500 && matches!(prop, "C01" | "C02" | "C04" | "C05" | "C07" | "C10" | "C11" | "C13" | "C14" | "C15" | "C24");
    crate::model::FORCE_WIDE.with(|f| f.set(if wide { 1 + idx / 3000 } else { 0 }));
    let mut c = match prop {
        "C01" => scan::gen_c01(r), "C02" => scan::gen_c02(r), "C03" => scan::gen_c03(r), "C04" => scan::gen_c04(r), "C05" => scan::gen_c05(r),
        "C06" => scan::gen_c06(r), "C07" => scan::gen_c07(r), "C08" => scan::gen_c08(r), "C09" => scan::gen_c09(r),
        "C10" => read::gen_c10(r), "C11" => read::gen_c11(r), "C12" => read::gen_c12(r), "C13" => read::gen_c13(r), "C14" => read::gen_c14(r),
        "C15" => read::gen_c15(r), "C16" => read::gen_c16(r), "C17" => read::gen_c17(r), "C18" => read::gen_c18(r),
        "C19" => cli::gen_c19(r), "C20" => cli::gen_c20(r), "C23" => scan::gen_c23(r), "C24" => trip::gen_c24(r),
        p => panic!("unknown property {}", p),
    };
    let left = crate::model::FORCE_WIDE.with(|f| f.take()) > 0;
    if matches!(prop, "C01" | "C02" | "C04" | "C05" | "C07") && !c.has("colliding") && (left || !wide && r.chance(1, 6000)) {
        let mut w = crate::model::gen_wide(r);
        if left { w.set("s", J::i(66_000)); }
        let mut fs = c.get("fs").clone();
        if let J::Arr(a) = &mut fs { if let Some(d) = a.iter_mut().find(|n| n.get("n").bytes() == b"r0") { crate::model::push_kid(d, w); } }
        c.set("fs", fs);
    }
    // sizes that need more than four bytes; such a run takes seconds, so there is one of a kind
    if idx == 5 && matches!(prop, "C01" | "C02") { c = scan::gen_huge(r, prop != "C01"); }
    if (idx == 5 || idx == 11) && prop == "C16" { c = read::gen_huge(r, idx == 5); }
    c.set("rseed", J::i(r.seed()));
    if !matches!(prop, "C10" | "C11" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18") { scan::dress(r, prop, &mut c); }
    c
}

/// Whether a case is one the generators produce; others (the minimiser tries
/// them) say nothing: a tree that is to be scanned and is not there.
fn sound(prop: &str, c: &J) -> bool {
    if !scan::forms_lead(c) { return false; }
    if prop == "C19" { return true; }
    ["cfg", "cfg2"].iter().all(|k| c.get(k).get("roots").items().iter().all(|r| {
        let r = r.bytes();
        r.contains(&b'/') || c.get("fs").items().iter().any(|n| n.get("n").bytes() == r)
    }))
}

pub fn execute(prop: &str, c: &J) -> Report {
    if !sound(prop, c) { return Report::default(); }
    match prop {
        "C01" | "C02" => scan::exec_full(c), "C03" => scan::exec_c03(c), "C04" => scan::exec_c04(c), "C05" => scan::exec_c05(c),
        "C06" => scan::exec_c06(c), "C07" => scan::exec_c07(c), "C08" => scan::exec_c08(c), "C09" => scan::exec_c09(c),
        "C10" => read::exec_c10(c), "C11" => read::exec_c11(c), "C12" => read::exec_c12(c), "C13" => read::exec_c13(c), "C14" => read::exec_c14(c),
        "C15" => read::exec_c15(c), "C16" => read::exec_c16(c), "C17" => read::exec_c17(c), "C18" => read::exec_c18(c),
        "C19" => cli::exec_c19(c), "C20" => cli::exec_c20(c), "C23" => scan::exec_c23(c), "C24" => trip::exec_c24(c),
        p => panic!("unknown property {}", p),
    }
}
