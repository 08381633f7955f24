//! C19, C20: the real command, a process of its own, on the simulated kernel
//! (libsimos.so as LD_PRELOAD).
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use dir_signature::v1::Parser;
use crate::json::J;
use crate::model::*;
use crate::os;
use crate::props::read;
use crate::props::scan::*;
use crate::report::*;
use crate::rng::{hash_bytes, Rng};

pub const K_COLON: &str = "cli-prefix-argument";
pub const K_UTF8: &str = "cli-non-utf8-argument";
const OUT: &str = "/out/index";

/// what one run of the command did
struct Run { code: i32, signal: i32, d: J, index: Option<Vec<u8>>, stdout: Vec<u8>, stderr: Vec<u8> }

fn tmp() -> std::path::PathBuf {
    let base = std::env::var("DST_TMP").unwrap_or_else(|_| "/tmp".into());
    let p = std::path::Path::new(&base).join(format!("dst-cli-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&p);
    p
}

fn argv(case: &J) -> Vec<Vec<u8>> {
    let c = case.get("cfg");
    let mut a: Vec<Vec<u8>> = Vec::new();
    let long = c.get("long").bool();
    let opt = |s: &[u8], l: &[u8]| if long { l.to_vec() } else { s.to_vec() };
    let dirs = |a: &mut Vec<Vec<u8>>| for (i, r) in c.get("roots").items().iter().enumerate() {
        a.push([if i == 0 { c.get("colon").str() } else { "" }.as_bytes(), &root_arg(c, i, r)].concat());
    };
    if c.get("first").bool() { dirs(&mut a); }
    match c.get("bad").str() {
        "hash" => { a.push(b"--hash".to_vec()); a.push(b"md5".to_vec()); }
        "threads" => { a.push(b"-t".to_vec()); a.push(b"many".to_vec()); }
        "option" => a.push(b"--no-such-option".to_vec()),
        _ => {}
    }
    if c.get("to").str() != "stdout" { a.push(opt(b"-o", b"--write-index")); a.push(if c.get("orel").bool() { format!("..{}", OUT) } else { format!("/@sim{}", OUT) }.into_bytes()); }
    if c.has("t") { a.push(opt(b"-t", b"--threads")); a.push(c.get("t").int().to_string().into_bytes()); }
    if c.has("hash") { a.push(b"--hash".to_vec()); a.push([&b"sha512/256"[..], b"blake2b/256", b"blake3/256"][c.get("hash").uint().min(2) as usize].to_vec()); }
    if c.get("progress").bool() { if c.get("pflag").bool() { a.push(b"--progress".to_vec()); } } else { a.push(opt(b"-q", b"--no-progress")); }
    if !c.get("first").bool() { dirs(&mut a); }
    a
}

/// Runs the command on the case; `None` and a harness error if it cannot run.
fn command(case: &J, rep: &mut Report) -> Option<Run> {
    use std::os::unix::ffi::OsStringExt;
    let dir = tmp();
    let (cf, of) = (dir.join("case"), dir.join("out"));
    let _ = std::fs::remove_file(&of);
    let exe = std::env::current_exe().ok()?;
    let bin = exe.parent()?.to_path_buf();
    let nodes = count_nodes(case.get("fs").items());
    let bytes = count_bytes(case.get("fs").items());
    let io = case.get("io");
    let mut max = 100_000 + 3_000 * nodes + bytes / 64 + 50_000;
    if io.int_at("rs") || io.int_at("ri") { max += bytes * 40; }
    max = 3 * (max + 30 * path_bytes(case.get("fs").items(), 1));
    if std::fs::write(&cf, case.clone().with("max_steps", J::i(max as i64)).dump()).is_err() { rep.harness = Some("cannot write the case".into()); return None; }
    let mut cmd = Command::new(bin.join("index-sim"));
    cmd.env_clear().env("LD_PRELOAD", bin.join("libsimos.so")).env("SIM_CASE", &cf).env("SIM_OUT", &of)
        .stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).current_dir("/");
    if case.get("cfg").has("log") { cmd.env("RUST_LOG", case.get("cfg").get("log").str()); }
    for a in argv(case) { cmd.arg(std::ffi::OsString::from_vec(a)); }
    unsafe { cmd.pre_exec(|| {
        let l = libc::rlimit { rlim_cur: 20, rlim_max: 21 };
        libc::setrlimit(libc::RLIMIT_CPU, &l);
        let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &l);
        Ok(())
    }); }
    let st = match cmd.status() { Ok(s) => s, Err(e) => { rep.harness = Some(format!("cannot run the command: {}", e)); return None; } };
    let d = std::fs::read_to_string(&of).ok().and_then(|t| J::parse(&t)).unwrap_or(J::Null);
    let _ = std::fs::remove_dir_all(&dir);
    let code = st.code().unwrap_or(-1);
    let signal = st.signal().unwrap_or(0);
    if signal == libc::SIGXCPU || signal == libc::SIGKILL { rep.fail("hang", "the command runs without end".into()); return None; }
    if !d.has("steps") && signal == 0 { rep.harness = Some(format!("no record from the command (exit {})", code)); return None; }
    // counters
    rep.trace = crate::rng::mix(rep.trace ^ hash_bytes(1, d.get("trace").str().as_bytes()) ^ d.get("steps").uint());
    rep.order = crate::rng::mix(rep.order ^ hash_bytes(2, d.get("order").str().as_bytes()));
    rep.steps += d.get("steps").uint(); rep.switches += d.get("switches").uint(); rep.sim_ns = rep.sim_ns.saturating_add(d.get("sim_ns").uint());
    for (m, k) in [(&mut rep.faults, "faults"), (&mut rep.probes, "probes")] {
        if let J::Obj(o) = d.get(k) { for (n, v) in o { *m.entry(n.clone()).or_insert(0) += v.uint(); } }
    }
    if d.get("threads").int() > 0 { rep.multi = true; }
    rep.picks = d.get("picks").items().iter().map(|p| (p.at(0).uint(), p.at(1).uint() as u32)).collect();
    if d.has("fatal") && code == 199 { rep.fail(d.get("fatal").at(0).str(), d.get("fatal").at(1).str().to_string()); return None; }
    let index = if d.has("index") { Some(d.get("index").bytes()) } else { None };
    let (stdout, stderr) = (d.get("stdout").bytes(), d.get("stderr").bytes());
    Some(Run { code, signal, index, stdout, stderr, d })
}

trait IntAt { fn int_at(&self, k: &str) -> bool; }
impl IntAt for J { fn int_at(&self, k: &str) -> bool { self.get(k).int() != 0 } }

/// the configuration as `want` understands it
fn want_cli(case: &J) -> Want {
    let c = case.get("cfg");
    let t = if c.has("t") { c.get("t").uint() } else { case.get("io").get("cpus").int_or(4) as u64 };
    let cfg = J::obj().with("roots", c.get("roots").clone()).with("threads", J::i(t as i64 + 1)).with("hash", J::i(c.get("hash").int()));
    want(case, &cfg)
}

/// is `out` the whole index? the listed blake3 finding counts, and is noted
fn complete(rep: &mut Report, out: &[u8], w: &Want) -> bool {
    if out == &w.spec[..] { return true; }
    if w.quirk.as_deref() == Some(out) { if !rep.known.contains(&K_BLAKE3.to_string()) { rep.known.push(K_BLAKE3.into()); } return true; }
    false
}

fn gen_cli_cfg(r: &mut Rng, roots: J, file: bool) -> J {
    let mut c = J::obj().with("roots", roots).with("to", J::s(if file { "file" } else { "stdout" }));
    if r.chance(3, 4) { c.set("t", J::i(if r.chance(1, 60) { *r.pick(&[16, 32, 64]) } else { *r.pick(&[0, 0, 1, 2, 3, 5]) })); }
    if r.chance(1, 2) { c.set("hash", J::i(*r.pick(&[0, 1, 1, 2]))); }
    if r.chance(1, 12) { c.set("log", J::s(*r.pick(&["error", "off", "trace", "", "info", "index=debug,=,x"]))); }
    if r.chance(1, 2) { c.set("progress", J::Bool(true)); if r.chance(1, 2) { c.set("pflag", J::Bool(true)); } }
    c
}
/// what an earlier command left in the output file
fn leftover(r: &mut Rng, fs: &mut J, data: Vec<u8>) {
    let n = J::obj().with("n", J::s("index")).with("t", J::s("f")).with("x", J::i(*r.pick(&[0o644, 0o600]))).with("data", J::b(&data));
    put_out(fs, Some(n));
}
fn put_out(fs: &mut J, n: Option<J>) {
    if let J::Arr(a) = fs { for d in a.iter_mut() { if d.get("n").str() == "out" {
        let mut k: Vec<J> = d.get("k").items().iter().filter(|x| x.get("n").str() != "index").cloned().collect();
        if let Some(n) = &n { k.push(n.clone()); }
        d.set("k", J::Arr(k));
    } } }
}

/// whatever else the command left beside its output (temporary files)
fn put_extra(fs: &mut J, extra: &J) {
    if let J::Arr(a) = fs { for d in a.iter_mut() { if d.get("n").str() == "out" {
        let mut k: Vec<J> = d.get("k").items().iter().filter(|x| !x.has("data") || x.get("n").str() == "index").cloned().collect();
        k.extend(extra.items().iter().cloned());
        d.set("k", J::Arr(k));
    } } }
}

fn out_data(case: &J) -> Option<Vec<u8>> {
    let d = case.get("fs").items().iter().find(|d| d.get("n").str() == "out")?;
    d.get("k").items().iter().find(|x| x.get("n").str() == "index").map(|x| x.get("data").bytes())
}

pub fn gen_c19(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    if r.chance(1, 5) { o.budget = 90; o.depth = 4; }
    let (mut fs, mut roots) = gen_roots(r, &mut o);
    let file = r.chance(2, 3);
    match r.below(24) {
        0 => roots = J::Arr(vec![J::s("missing")]),
        1 => { roots.push(J::s("missing")); }
        2 => roots = J::Arr(vec![J::s("out/secret")]),
        3 => { roots.push(J::s("out/secret")); }
        _ => {}
    }
    let mut c = gen_cli_cfg(r, roots.clone(), file);
    if r.chance(1, 4) { c.set("long", J::Bool(true)); }
    if r.chance(1, 6) { c.set("first", J::Bool(true)); }
    if r.chance(1, 120) { c.set("bad", J::s(*r.pick(&["hash", "threads", "option", "dirs"]))); if c.get("bad").str() == "dirs" { roots = J::arr(); c.set("roots", J::arr()); } }
    else if r.chance(1, 200) { c.set("colon", J::s("/:")); }
    let mut io = gen_io(r);
    io.set("cpus", J::i(*r.pick(&[1, 1, 2, 3, 4])));
    let th = if c.has("t") { c.get("t").uint() } else { io.get("cpus").uint() } + 1;
    let mut case = base_case(fs.clone(), c, io, gen_sched(r, th));
    if !c0_bad(&case) && r.chance(1, 16) {
        // a file that is shorter than its file system says (or than it was a moment ago)
        let mut all = Vec::new();
        all_nodes(fs.items(), b"", &mut all);
        let files: Vec<(Vec<u8>, i64)> = all.iter().filter(|x| x.1.get("t").str() == "f" && x.0.starts_with(b"/r")).map(|x| (x.0.clone(), x.1.get("s").int())).collect();
        drop(all);
        if !files.is_empty() {
            let (p, n) = r.pick(&files).clone();
            let z = n + *r.pick(&[1, 1, 50, 4096, 32768, 40000, 100_000]);
            set_at(&mut fs, &p[1..], "z", J::i(z));
            case.set("fs", fs.clone());
            case.set("short", J::Bool(true));
            return case;
        }
    }
    let w = want_cli(&case);
    let len = w.spec.len() as u64;
    if file && r.chance(1, 3) {
        let n = match r.below(3) { 0 => r.below(len), 1 => len + r.range(1, 3000), _ => len };
        let mut d: Vec<u8> = if r.chance(1, 3) {
            // the index of this very tree, damaged between its header and its footer
            let mut d = w.spec.clone();
            let body = d.iter().position(|b| *b == b'\n').unwrap() + 1;
            let end = d.len() - 65;
            if r.chance(2, 3) { let i = r.range(body as u64, end as u64) as usize % d.len(); d[i] ^= 1 << r.below(5); }
            else { let i = body + r.us(end - body); let k = 1 + r.us(end - i); d.drain(i..i + k); }
            d
        } else if r.chance(1, 2) { w.spec.iter().cycle().take(n as usize).cloned().collect() } else { (0..n).map(|_| *r.pick(b"abc\n 0/")).collect() };
        if d == w.spec { d.reverse(); }
        leftover(r, &mut fs, d);
        case.set("fs", fs.clone());
    }
    let name = if file { OUT } else { "stdout" };
    match r.below(12) {
        0 | 1 => {}
        2..=6 => { let mut f = gen_out_fault(r, name, len); if !file && f.get("errno").int() == libc::EBADF as i64 { f.set("errno", J::i(libc::EIO as i64)); } push_fault(&mut case, f); }
        7 => if file { let e = *r.pick(&[libc::EACCES, libc::EISDIR, libc::ENOSPC, libc::EROFS, libc::EMFILE, libc::ENOENT]); push_fault(&mut case, J::obj().with("op", J::s("openw")).with("path", J::s(OUT)).with("nth", J::i(0)).with("act", J::s("errno")).with("errno", J::i(e as i64))); },
        _ => { if let Some(f) = gen_fs_fault(r, &fs, &roots) { push_fault(&mut case, f); } }
    }
    if r.chance(1, 4) { let mut f = case.get("faults").clone(); gen_intr_writes(r, &mut f, name, len); case.set("faults", f); }
    if r.chance(1, 6) { push_fault(&mut case, J::obj().with("op", J::s("write")).with("path", J::s("stderr")).with("nth", J::i(r.below(4) as i64)).with("from", J::Bool(r.chance(1, 2))).with("act", J::s("errno")).with("errno", J::i(*r.pick(&[libc::EPIPE, libc::EIO, libc::ENOSPC]) as i64))); }
    case
}

fn reason(e: i32) -> Vec<String> {
    let s = std::io::Error::from_raw_os_error(e).to_string();
    let t = s.split(" (os error").next().unwrap_or("").to_string();
    vec![format!("os error {}", e), t]
}

fn c0_bad(case: &J) -> bool { let c = case.get("cfg"); c.has("bad") || c.has("colon") }
pub fn exec_c19(case: &J) -> Report {
    let mut rep = Report::default();
    let w = want_cli(case);
    let run = match command(case, &mut rep) { Some(r) => r, None => return rep };
    let fired: Vec<(i32, String)> = run.d.get("fired").items().iter().map(|f| (f.at(0).int() as i32, f.at(1).str().to_string())).collect();
    let hard: Vec<&(i32, String)> = fired.iter().filter(|f| f.0 != libc::EINTR && !["fdpath", "close", "flush", "stderr"].contains(&f.1.as_str())).collect();
    let out_hard = hard.iter().any(|f| ["write", "stdout", "openw"].contains(&f.1.as_str()));
    let err_bad = fired.iter().any(|f| f.1 == "stderr");
    let fs = case.get("fs").items();
    let bad_root = case.get("cfg").get("roots").items().iter().any(|r| r.str().contains("secret") || crate::model::find_node(fs, &r.bytes()).is_none());
    let file = case.get("cfg").get("to").str() != "stdout";
    let got: Vec<u8> = if file { run.index.clone().unwrap_or_default() } else { run.stdout.clone() };
    let text = String::from_utf8_lossy(&run.stderr).into_owned();
    let names: Vec<String> = hard.iter().map(|f| format!("{} at {}", os::errname(f.0), f.1)).collect();
    let why = if bad_root { "a root that is no directory".to_string() } else { names.join(", ") };
    if run.signal != 0 { rep.fail("killed", format!("the command died of signal {}", run.signal)); return rep; }
    if case.get("cfg").has("bad") {
        // arguments that make no sense
        if run.code == 0 { rep.fail("false-success", format!("exit status 0 although the {} argument is wrong", case.get("cfg").get("bad").str())); }
        else if text.trim().is_empty() && !err_bad { rep.fail("no-reason", format!("exit status {}, and nothing on standard error about the {} argument", run.code, case.get("cfg").get("bad").str())); }
        rep.probe("bad arguments");
        return rep;
    }
    let colon = case.get("cfg").has("colon");
    if colon && run.code != 0 { if hard.is_empty() && !bad_root { rep.known.push(K_COLON.into()); } return rep; }
    if argv(case).iter().any(|a| std::str::from_utf8(a).is_err()) && run.code == 101 && hard.is_empty() {
        rep.known.push(K_UTF8.into());
        if got != out_data(case).unwrap_or_default() { rep.fail("wrong-output", "the command failed on its arguments, and wrote output".into()); }
        return rep;
    }
    if case.get("short").bool() && hard.is_empty() && !bad_root {
        // no index can have as many bytes of that file as its size says
        if run.code == 0 {
            let lines = parse_lines(&got);
            let body: Vec<u8> = lines[..lines.len().max(1) - 1].concat();
            let foot = format!("{}\n", crate::model::hex(&crate::model::hash(w.h, &body)));
            if lines.last().map(|l| l.to_vec()) != Some(foot.into_bytes()) { rep.fail("false-success", "exit status 0 although a file is shorter than its size, and the output ends early".into()); }
        } else if !err_bad && !text.to_lowercase().contains("error") { rep.fail("no-reason", format!("exit status {} (a file shorter than its size), but standard error does not say why: {}", run.code, show(text.as_bytes()))); }
        rep.probe("a file shorter than its size");
        rep.nontrivial = true;
        return rep;
    }
    if run.code == 0 && !err_bad && !rep.viol.is_some() {
        // the options about progress
        let on = case.get("cfg").get("progress").bool();
        let noise = case.get("cfg").has("log") || case.get("cfg").get("roots").items().len() > 1 || case.dump().contains("\"t\":\"o\"");
        if on && text.trim().is_empty() { rep.fail("no-progress", "progress was to be shown, and standard error is empty".into()); }
        if !on && !noise && !text.is_empty() { rep.fail("not-quiet", format!("the command was told to be quiet: {}", show(text.as_bytes()))); }
    }
    if run.code == 0 {
        if bad_root || !hard.is_empty() && !complete(&mut rep, &got, &w) { rep.fail("false-success", format!("exit status 0 although {}", why)); }
        else if !complete(&mut rep, &got, &w) { rep.fail("wrong-output", format!("exit status 0 but the output is not the index: {}", diff(&got, w.quirk.as_ref().unwrap_or(&w.spec)))); }
        else if !hard.is_empty() { rep.fail("swallowed", format!("exit status 0 although {}", why)); }
        rep.probe("exit 0");
    } else {
        rep.probe("exit non-zero");
        if hard.is_empty() && !bad_root { rep.fail("false-failure", format!("exit status {} with nothing wrong: {}", run.code, show(text.as_bytes()))); }
        if !out_hard && !err_bad && complete(&mut rep, &got, &w) && !bad_root { rep.fail("complete-on-error", format!("exit status {} ({}) but the whole index was written", run.code, why)); }
        if !err_bad {
            let zero = hard.iter().any(|f| f.0 == 0);
            let said = if bad_root { text.to_lowercase().contains("error") }
                else { hard.iter().any(|f| f.0 != 0 && reason(f.0).iter().any(|s| text.to_lowercase().contains(&s.to_lowercase()))) || zero && text.to_lowercase().contains("error") };
            if !said { rep.fail("no-reason", format!("exit status {} ({}), but standard error does not say why: {}", run.code, why, show(text.as_bytes()))); }
        }
    }
    if err_bad { rep.probe("stderr failed"); }
    if out_hard { rep.probe("output failed"); if got.len() + 66 > w.spec.len() { rep.probe("output fails inside the footer"); } }
    if bad_root { rep.probe("bad root"); }
    if !file { rep.probe("to standard output"); }
    rep.nontrivial = !fired.is_empty() || bad_root || rep.multi;
    rep
}

// ------------------------------------------------------------- C20

pub fn gen_c20(r: &mut Rng) -> J {
    let mut o = TreeOpt { budget: *r.pick(&[4, 12, 40, 120, 200]), depth: r.range(1, 4) as usize, special: r.chance(1, 3), kin: None };
    let (mut fs, roots) = gen_roots(r, &mut o);
    let c = gen_cli_cfg(r, roots, true);
    let mut io = gen_io(r);
    if r.chance(2, 3) { io.set("ws", J::i(r.seed())); }
    io.set("cpus", J::i(*r.pick(&[1, 2, 3])));
    let th = if c.has("t") { c.get("t").uint() } else { io.get("cpus").uint() } + 1;
    let mut case = base_case(fs.clone(), c, io, gen_sched(r, th));
    let w = want_cli(&case);
    let len = w.spec.len() as u64;
    match r.below(6) {
        0 => {
            // an earlier command was killed as well
            let mut d = w.spec.clone(); d.truncate(r.below(len) as usize);
            leftover(r, &mut fs, d);
        }
        1 | 2 => {
            // the complete index of an older, different tree
            let mut o2 = TreeOpt { budget: *r.pick(&[4, 40, 150, 300]), depth: 3, special: false, kin: None };
            let t = gen_dir(r, b"old", &mut o2, 0);
            let es = tree_entries(&[&t], w.h, Quirk::Spec);
            leftover(r, &mut fs, encode(w.h, BLOCK as u64, &es));
        }
        3 => {
            // the same tree with more in it
            let mut es = w.entries.clone();
            for i in 0..1 + r.us(60) { es.push(E::Dir(format!("/\u{7f}{:05}", i).into_bytes())); }
            leftover(r, &mut fs, encode(w.h, BLOCK as u64, &es));
        }
        _ => {}
    }
    case.set("fs", fs.clone());
    let mut cr = J::arr();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        if r.chance(1, 5) {
            let f = if r.chance(2, 3) { Some(gen_out_fault(r, OUT, len)) } else { gen_fs_fault(r, &fs, case.get("cfg").get("roots")) };
            if let Some(f) = f { cr.push(J::obj().with("fault", f)); }
        } else if r.chance(1, 2) { cr.push(J::obj().with("frac", J::i(r.range(0, 1000) as i64))); }
        else {
            let off = match r.below(6) { 0 => len - 1 - r.below(66), 1 => 8192 * r.range(0, 1 + len / 8192), 2 => len, _ => r.below(len + 1) };
            cr.push(J::obj().with("off", J::i(off as i64)));
        }
    }
    case.with("crashes", cr)
}

/// does everything that reads an index refuse `data`?
fn rejected(case: &J, rep: &mut Report, data: &[u8]) -> Option<(bool, bool)> {
    let d = data.to_vec();
    let c = J::obj().with("sched", J::obj().with("mode", J::s("picks"))).with("fs", case.get("none").clone());
    let mut r2 = Report::default();
    let v = read::go(&c, &mut r2, 1_000_000, read::NOCAP, move || {
        let iter = match Parser::new(read::reader(&d, &J::obj(), 100)) {
            Err(_) => true,
            Ok(mut p) => { let mut bad = false; for e in p.iter() { if e.is_err() { bad = true; break; } } bad }
        };
        let mut sr = { let _b = os::Busy::new(); crate::streams::SimReader::new(d.clone(), &J::obj()) };
        (iter, dir_signature::get_hash(&mut sr).is_err())
    });
    if let Some(f) = r2.viol { rep.fail(&f.0, f.1); }
    rep.harness = rep.harness.take().or(r2.harness);
    if r2.must_exit { rep.must_exit = true; }
    v
}

pub fn exec_c20(case: &J) -> Report {
    let mut rep = Report::default();
    let w = want_cli(case);
    let mut cur = case.clone();
    let mut killed = 0;
    for cr in case.get("crashes").items() {
        let mut c = cur.clone();
        if cr.has("step") { c.set("crash", J::obj().with("step", cr.get("step").clone())); }
        else if cr.has("frac") {
            let mut r0 = Report::default();
            let base = match command(&c, &mut r0) { Some(b) => b, None => { rep.viol = r0.viol; rep.harness = r0.harness; return rep } };
            let n = base.d.get("steps").uint();
            c.set("crash", J::obj().with("step", J::i((1 + cr.get("frac").uint() * n / 1000).min(n) as i64)));
        } else if cr.has("fault") { push_fault(&mut c, cr.get("fault").clone());
        } else {
            push_fault(&mut c, J::obj().with("op", J::s("write")).with("path", J::s(OUT)).with("off", cr.get("off").clone()).with("act", J::s("crash")));
        }
        let run = match command(&c, &mut rep) { Some(r) => r, None => return rep };
        if run.code == 137 { killed += 1; }
        let failed = run.d.get("fired").items().iter().any(|f| f.at(0).int() != libc::EINTR as i64);
        if failed { killed += 1; rep.probe("failed"); }
        let left = run.index.clone();
        let before = out_data(&cur);
        match &left {
            None => rep.probe("killed before the file was there"),
            // not touched yet
            Some(d) if before.as_ref() == Some(d) && (run.code == 137 || failed) => rep.probe("the older content is still there"),
            Some(d) if complete(&mut rep, d, &w) => rep.probe(if run.code == 137 { "killed with the whole index written" } else { "not reached" }),
            Some(d) => {
                if run.code != 137 && !failed { rep.fail("wrong-output", format!("exit status {} but the output is not the index: {}", run.code, diff(d, w.quirk.as_ref().unwrap_or(&w.spec)))); return rep; }
                let (p, h) = match rejected(case, &mut rep, d) { Some(x) => x, None => return rep };
                if !p { rep.fail("torn-accepted", format!("after the kill or failure the file holds {} of {} bytes and the parser takes it for a whole index", d.len(), w.spec.len())); }
                if !h { rep.fail("torn-hash", format!("after the kill or failure the file holds {} of {} bytes and a hash is extracted from it", d.len(), w.spec.len())); }
                rep.probe(if d.is_empty() { "killed with an empty file" } else if d.len() + 66 > w.spec.len() { "killed inside the footer" } else { "killed with a torn index" });
                if d.len() > 8192 { rep.probe("torn index longer than one buffer"); }
            }
        }
        let mut fs = cur.get("fs").clone();
        put_out(&mut fs, left.map(|d| J::obj().with("n", J::s("index")).with("t", J::s("f")).with("data", J::b(&d))));
        put_extra(&mut fs, run.d.get("extra"));
        if !run.d.get("extra").items().is_empty() { rep.probe("other files left over"); }
        cur.set("fs", fs);
    }
    // once more, undisturbed
    let run = match command(&cur, &mut rep) { Some(r) => r, None => return rep };
    let got = run.index.unwrap_or_default();
    if run.code != 0 { rep.fail("rerun-failed", format!("the run after the kill exits with {} (signal {}): {}", run.code, run.signal, show(&run.stderr))); }
    else if !complete(&mut rep, &got, &w) { rep.fail("rerun-wrong", format!("the run after the kill: {}", diff(&got, w.quirk.as_ref().unwrap_or(&w.spec)))); }
    rep.nontrivial = killed > 0;
    rep
}
