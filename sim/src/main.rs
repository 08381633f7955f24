use simos::{json, os, rng};
mod model;
mod props;
mod report;
mod streams;

use json::J;
use std::alloc::{GlobalAlloc, Layout, System};

struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { os::on_alloc(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { os::on_alloc(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { os::on_free(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { os::on_alloc(n); os::on_free(l.size()); System.realloc(p, l, n) }
}
#[global_allocator]
static GLOBAL: A = A;

fn run_case(prop: &str, case: &J) -> report::Report {
    let mut r = props::execute(prop, case);
    if os::has_sim() && prop != "C19" && prop != "C20" { r.probe_n("read of no bytes", os::sim().junk_reads); }
    r
}

fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }
fn num(a: &[String], k: &str, d: u64) -> u64 { arg(a, k).and_then(|v| v.parse().ok()).unwrap_or(d) }

/// the first case of a process initialises what is initialised once
fn warm(prop: &str) {
    if prop == "C19" || prop == "C20" || std::env::var_os("DST_NOWARM").is_some() { return; }
    let mut ps = vec![prop];
    if prop <= "C09" || prop >= "C23" { ps.insert(0, "C02"); }
    for p in ps {
        let mut c = props::generate(p, 424242, 1);
        // num_cpus looks at the control groups once per process
        if p == "C02" { let g = c.get("cfg").clone().with("auto", json::J::Bool(true)); c.set("cfg", g); }
        let r = props::execute(p, &c);
        if r.must_exit {
            // only on a changed tree: this process is spoilt, go on in a new one without
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new(std::env::current_exe().unwrap()).args(std::env::args_os().skip(1)).env("DST_NOWARM", "1").exec();
            eprintln!("exec: {}", e);
            std::process::exit(6);
        }
    }
}

fn main() {
    simos::libc_hooks::keep();
    std::panic::set_hook(Box::new(|i| {
        let sim = os::tid() != 0;
        if sim && os::in_sim() {
            let _b = os::Busy::new();
            let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
            os::sim().panics.push((os::tid(), format!("{} at {}", m, loc)));
        } else {
            eprintln!("harness: {}", i);
            std::process::exit(5);
        }
    }));
    let _ = log::set_logger(&os::Logger);
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    match cmd {
        // dst gen PROP SEED IDX
        "gen" => { let c = props::generate(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()); println!("{}", c.dump()); }
        // dst exec FILE: a replay file {"prop","case"}
        "exec" => {
            let t = std::fs::read_to_string(&a[2]).expect("replay file");
            let j = J::parse(&t).expect("JSON");
            let prop = j.get("prop").str().to_string();
            warm(&prop);
            let r = run_case(&prop, j.get("case"));
            let mut o = r.to_json();
            if a.iter().any(|x| x == "--picks") { o.set("picks", J::Arr(r.picks.iter().map(|p| J::Arr(vec![J::i(p.0 as i64), J::i(p.1 as i64)])).collect())); }
            println!("{}", o.dump());
            std::process::exit(0);
        }
        // dst batch PROP --seed S --from A --step K --count N --ms M --status FILE --full
        "batch" => batch(&a),
        _ => { eprintln!("usage: dst gen|exec|batch"); std::process::exit(2); }
    }
}

fn batch(a: &[String]) {
    let prop = a[2].clone();
    let (seed, from, step, count, ms) = (num(a, "--seed", 1), num(a, "--from", 0), num(a, "--step", 1), num(a, "--count", 10), num(a, "--ms", 1 << 40));
    let status = arg(a, "--status");
    let traces = a.iter().any(|x| x == "--traces");
    warm(&prop);
    let sf = status.map(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).expect("status file"));
    let t0 = os::wall_ns();
    let mut sum = report::Report::default();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut multi = 0u64;
    let mut orders = std::collections::BTreeSet::new();
    let mut states = std::collections::BTreeSet::new();
    let mut viols = J::arr();
    let mut known: std::collections::BTreeMap<String, (u64, J)> = Default::default();
    let mut tr = J::arr();
    let mut samples = J::arr();
    let mut next = from;
    let mut code = 0;
    let mut k = 0;
    while k < count {
        if (os::wall_ns() - t0) / 1_000_000 > ms as i64 { break; }
        let idx = from + k * step;
        next = idx + step;
        k += 1;
        if let Some(f) = &sf { use std::os::unix::fs::FileExt; let _ = f.write_at(format!("{:020}\n", idx).as_bytes(), 0); }
        let case = props::generate(&prop, seed, idx);
        let r = run_case(&prop, &case);
        runs += 1;
        if traces { tr.push(J::s(&format!("{} {:016x} {} {}", idx, r.trace, r.steps, r.viol.as_ref().map_or("", |v| &v.0)))); }
        if r.nontrivial { nontrivial += 1; states.insert(r.trace); }
        if r.multi { multi += 1; orders.insert(r.order); }
        sum.steps += r.steps; sum.switches += r.switches; sum.sim_ns = sum.sim_ns.saturating_add(r.sim_ns);
        for (k, v) in &r.faults { *sum.faults.entry(k.clone()).or_insert(0) += v; }
        for (k, v) in &r.probes { *sum.probes.entry(k.clone()).or_insert(0) += v; }
        if from < 8 && samples.items().len() < 2 {
            let mut x = J::obj().with("seed", J::i(seed as i64)).with("idx", J::i(idx as i64)).with("steps", J::i(r.steps as i64)).with("switches", J::i(r.switches as i64)).with("faults", J::Obj(r.faults.iter().map(|(k, v)| (k.clone(), J::i(*v as i64))).collect()));
            if case.dump().len() < 3000 { x.set("case", case.clone()); }
            samples.push(x);
        }
        for kn in &r.known { let e = known.entry(kn.clone()).or_insert((0, J::i(idx as i64))); e.0 += 1; }
        if let Some(h) = &r.harness { viols.push(J::obj().with("idx", J::i(idx as i64)).with("harness", J::s(h))); code = 4; break; }
        if let Some((c, m)) = &r.viol {
            viols.push(J::obj().with("idx", J::i(idx as i64)).with("class", J::s(c)).with("msg", J::s(m)).with("case", case));
            if viols.items().len() >= 3 { break; }
        }
        if r.must_exit { code = 3; break; }
    }
    let m = |b: &std::collections::BTreeMap<String, u64>| J::Obj(b.iter().map(|(k, v)| (k.clone(), J::i(*v as i64))).collect());
    let o = J::obj().with("runs", J::i(runs as i64)).with("nontrivial", J::i(nontrivial as i64)).with("multi", J::i(multi as i64))
        .with("orders", J::Arr(orders.iter().map(|x| J::s(&format!("{:x}", x))).collect())).with("states", J::Arr(states.iter().map(|x| J::s(&format!("{:x}", x))).collect()))
        .with("steps", J::i(sum.steps as i64)).with("switches", J::i(sum.switches as i64)).with("sim_ns", J::i(sum.sim_ns.min(1 << 62) as i64))
        .with("faults", m(&sum.faults)).with("probes", m(&sum.probes)).with("viols", viols)
        .with("known", J::Obj(known.iter().map(|(k, v)| (k.clone(), J::Arr(vec![J::i(v.0 as i64), v.1.clone()]))).collect()))
        .with("samples", samples).with("next", J::i(next as i64)).with("done", J::i(k as i64)).with("traces", tr);
    println!("{}", o.dump());
    std::process::exit(code);
}
