//! LD_PRELOAD mode: SIM_CASE names the case file, SIM_OUT the file that
//! receives what happened when the program ends.
use crate::json::J;
use crate::os::{self, *};

extern "C" fn init() {
    let case = match std::env::var("SIM_CASE") { Ok(c) => c, Err(_) => return };
    let _b = Busy::new();
    let text = match std::fs::read_to_string(&case) { Ok(t) => t, Err(_) => unsafe { libc::_exit(250) } };
    let case = match J::parse(&text) { Some(c) => c, None => unsafe { libc::_exit(250) } };
    unsafe { libc::atexit(at_end); os::PRELOAD_FATAL = on_fatal; }
    os::adopt(&case, |s| { s.max_steps = case.get("max_steps").int_or(400_000).max(1000) as u64; });
}
#[used]
#[link_section = ".init_array"]
static INIT: extern "C" fn() = init;

extern "C" fn at_end() { let _b = Busy::new(); dump(); }
fn on_fatal() {
    dump();
    let code = match &sim().fatal { Some((c, _)) if c == "crash" => 137, _ => 199 };
    unsafe { sys6(231, code, 0, 0, 0, 0, 0); }
}

fn dump() {
    let out = match std::env::var("SIM_OUT") { Ok(o) => o, Err(_) => return };
    let s = sim();
    if s.fine_points > 0 { let n = s.fine_points; s.stats.probes.insert("switch points between basic blocks".into(), n); }
    let m = |b: &std::collections::BTreeMap<String, u64>| J::Obj(b.iter().map(|(k, v)| (k.clone(), J::i(*v as i64))).collect());
    let mut j = J::obj().with("steps", J::i(s.step as i64)).with("switches", J::i(s.switches as i64)).with("sim_ns", J::i((s.now - 1_000_000_000_000).min(1 << 60) as i64))
        .with("trace", J::s(&format!("{:016x}", s.trace))).with("order", J::s(&format!("{:016x}", s.order_hash)))
        .with("faults", m(&s.stats.faults)).with("probes", m(&s.stats.probes))
        .with("threads", J::i(s.threads_made as i64)).with("open", J::i(s.open_now))
        .with("stdout", J::b(&s.stdout)).with("stderr", J::b(&s.stderr))
        .with("fired", J::Arr(s.fired_errnos.iter().map(|(e, o)| J::Arr(vec![J::i(*e as i64), J::s(o)])).collect()))
        .with("picks", J::Arr(s.picks_out.iter().map(|p| J::Arr(vec![J::i(p.0 as i64), J::i(p.1 as i64)])).collect()));
    if let Some((c, t)) = &s.fatal { j.set("fatal", J::Arr(vec![J::s(c), J::s(t)])); }
    if let Some(i) = os::lookup(b"/out/index") {
        if let Some(d) = &sim().ino[i].data { j.set("index", J::b(d)); }
    }
    // what else the command has left in the directory of its output
    if let Some(i) = os::lookup(b"/out") {
        let mut e = J::arr();
        for (n, k) in &s.ino[i].kids {
            if n == b"index" { continue; }
            if let (Kind::File, Some(d)) = (s.ino[*k].kind, &s.ino[*k].data) { e.push(J::obj().with("n", J::b(n)).with("t", J::s("f")).with("data", J::b(d))); }
        }
        j.set("extra", e);
    }
    let _ = std::fs::write(out, j.dump());
}
