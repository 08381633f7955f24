use std::collections::BTreeMap;
use crate::json::J;
use crate::os::{End, Sim};

#[derive(Default)]
pub struct Report {
    pub viol: Option<(String, String)>,
    pub known: Vec<String>,
    pub harness: Option<String>,
    pub nontrivial: bool,
    pub must_exit: bool,
    pub trace: u64,
    pub order: u64,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub picks: Vec<(u64, u32)>,
    pub multi: bool,
}
impl Report {
    pub fn fail(&mut self, class: &str, msg: String) { if self.viol.is_none() { self.viol = Some((class.to_string(), msg)); } }
    pub fn probe(&mut self, k: &str) { *self.probes.entry(k.to_string()).or_insert(0) += 1; }
    pub fn probe_n(&mut self, k: &str, n: u64) { if n > 0 { *self.probes.entry(k.to_string()).or_insert(0) += n; } }
    /// take the counters of a finished run, and its ending as a violation
    pub fn absorb(&mut self, end: &End, s: &Sim) {
        self.trace = crate::rng::mix(self.trace ^ s.trace ^ s.step);
        self.order = crate::rng::mix(self.order ^ s.order_hash);
        self.steps += s.step;
        self.switches += s.switches;
        self.sim_ns += s.now - 1_000_000_000_000;
        for (k, v) in &s.stats.faults { *self.faults.entry(k.clone()).or_insert(0) += v; }
        for (k, v) in &s.stats.probes { *self.probes.entry(k.clone()).or_insert(0) += v; }
        self.probe_n("switch points between basic blocks", s.fine_points);
        self.picks = s.picks_out.clone();
        self.multi = s.threads_made > 0;
        match end {
            End::Finished => {}
            End::Fatal(c, m) => { self.must_exit = true; if c != "crash" { self.fail(c, m.clone()); } }
            End::Spin => { self.must_exit = true; self.fail("hang", "runs without end and without any simulated call".into()); }
            End::Stuck => { self.must_exit = true; self.harness = Some("the simulated process blocks outside the simulator".into()); }
        }
        if let Some((t, p)) = s.panics.first() { self.fail("panic", format!("thread {} panicked: {}", t, p)); }
    }
    pub fn to_json(&self) -> J {
        let m = |b: &BTreeMap<String, u64>| J::Obj(b.iter().map(|(k, v)| (k.clone(), J::i(*v as i64))).collect());
        let mut j = J::obj().with("steps", J::i(self.steps as i64)).with("switches", J::i(self.switches as i64)).with("sim_ns", J::i(self.sim_ns.min(1 << 60) as i64))
            .with("trace", J::s(&format!("{:016x}", self.trace))).with("order", J::s(&format!("{:016x}", self.order)))
            .with("faults", m(&self.faults)).with("probes", m(&self.probes)).with("nontrivial", J::Bool(self.nontrivial));
        if let Some((c, t)) = &self.viol { j.set("class", J::s(c)); j.set("msg", J::s(t)); }
        if let Some(h) = &self.harness { j.set("harness", J::s(h)); }
        if !self.known.is_empty() { j.set("known", J::Arr(self.known.iter().map(|k| J::s(k)).collect())); }
        j
    }
}

pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(300).map(|&c| if (0x20..0x7f).contains(&c) { (c as char).to_string() } else { format!("\\x{:02x}", c) }).collect();
    if b.len() > 300 { format!("{}... ({} bytes)", s, b.len()) } else { s }
}
/// where two byte strings first differ, for messages
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let n = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    let ln = got[..n].iter().filter(|c| **c == b'\n').count() + 1;
    let st = got[..n].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
    let l = |b: &[u8]| { let e = b[st.min(b.len())..].iter().position(|c| *c == b'\n').map_or(b.len(), |x| st + x); show(&b[st.min(b.len())..e]) };
    format!("first difference at byte {} (line {}): got \"{}\" want \"{}\" (lengths {} and {})", n, ln, l(got), l(want), got.len(), want.len())
}
