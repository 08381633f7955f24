//! C01-C09: whole scans on the simulated kernel.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::os::unix::ffi::OsStrExt;
use std::sync::{Arc, Mutex};
use dir_signature::{Error, HashType, ScannerConfig};
use crate::json::J;
use crate::model::{self, *};
use crate::os::{self, *};
use crate::report::*;
use crate::rng::{hash_bytes, mix, Rng};
use crate::streams::SimWriter;

pub struct ErrInfo { pub variant: &'static str, pub raw: Option<i32>, pub kind: Option<std::io::ErrorKind>, pub text: String }
pub struct Scan { pub res: Result<(), ErrInfo>, pub out: SimWriter, pub panic: bool, /** faults delivered until its end */ pub fired: usize }

pub fn htype(h: i64) -> HashType { match h { 1 => HashType::blake2b_256(), 2 => HashType::blake3_256(), _ => HashType::sha512_256() } }

fn err_info(e: Error) -> ErrInfo {
    let text = e.to_string();
    let (variant, io) = match e {
        Error::WriteError(e) => ("WriteError", Some(e)), Error::OpenDir(e) => ("OpenDir", Some(e)), Error::ListDir(e) => ("ListDir", Some(e)),
        Error::ReadFile(e) => ("ReadFile", Some(e)), Error::NoRootDirectory => ("NoRootDirectory", None), Error::UnsupportedHash => ("UnsupportedHash", None), _ => ("?", None) };
    ErrInfo { variant, raw: io.as_ref().and_then(errcode), kind: io.as_ref().map(|e| e.kind()), text }
}

/// The directory as the caller names it: there are many ways to write a path.
pub fn root_arg(c: &J, i: usize, r: &J) -> Vec<u8> {
    let (r, f) = (r.bytes(), c.get("form").at(i));
    let abs = |a: &[u8], b: &[u8], e: &[u8]| [b"/@sim/", a, b, e].concat();
    match f.int_or(0) {
        1 => abs(b"", &r, b"/"),
        2 => abs(b"/", &r, b"//"),
        3 => abs(b"", &r, b"/."),
        4 => abs(b"./", &r, b""),
        5 => abs(b"ln-", &r, b""),
        6 => abs(b"out/../", &r, b"/./"),
        // relative to the working directory: the root, ...
        7 => r,
        8 => [b"./", &r[..]].concat(),
        // ... another directory in it, this directory
        9 => [b"../", &r[..]].concat(),
        10 => b".".to_vec(),
        _ => abs(b"", &r, b""),
    }
}

/// whether the paths lead to the directories meant
pub fn forms_lead(case: &J) -> bool {
    let cwd = case.get("io").get("cwd").bytes();
    let top = |n: &[u8]| case.get("fs").items().iter().any(|x| x.get("n").bytes() == n);
    ["cfg", "cfg2"].iter().all(|k| { let c = case.get(k); c.get("roots").items().iter().enumerate().all(|(i, r)| match c.get("form").at(i).int_or(0) {
        5 => top(&[b"ln-", &r.bytes()[..]].concat()),
        6 => top(b"out"),
        7 | 8 => cwd == b"/",
        9 => cwd.len() > 1 && top(&cwd[1..]),
        10 => cwd == [b"/", &r.bytes()[..]].concat(),
        _ => true,
    }) && (!c.get("orel").bool() || cwd.len() > 1 && top(&cwd[1..])) })
}

/// Gives the objects of a case identities (mounts, hard links) and writes
/// the paths in other ways.
pub fn dress(r: &mut Rng, prop: &str, case: &mut J) {
    if r.chance(1, 4) {
        let mut fs = case.get("fs").clone();
        let mut dev = 77;
        if let J::Arr(a) = &mut fs { for d in a.iter_mut() { mount(r, d, &mut dev, 0); } }
        // a change of one name is a change of the others
        if !matches!(prop, "C08" | "C09") && !case.has("edits") && r.chance(2, 3) { hard_links(r, &mut fs); }
        case.set("fs", fs);
    }
    forms(r, prop, case);
    if r.chance(1, 12) {
        let cli = matches!(prop, "C19" | "C20");
        let to: &[u8] = *r.pick(&[&b"r\xff\xfe"[..], "r\u{e9} \u{4e2d}".as_bytes(), b"r 0", b"r\n", b"r'\"$x", b"r\\x20", b"r\xc3", b"rr:r", b"r=*?"]);
        // arguments that are no text are a finding of their own
        if !cli || std::str::from_utf8(to).is_ok() && !to.contains(&b':') { rename_root(case, b"r0", to); }
        else if prop == "C19" && r.chance(1, 10) { rename_root(case, b"r0", b"r\xff\xfe"); }
    }
}
fn forms(r: &mut Rng, prop: &str, case: &mut J) {
    if matches!(prop, "C08" | "C09") || !r.chance(1, 5) { return; }
    let cli = matches!(prop, "C19" | "C20");
    let mut io = case.get("io").clone();
    let cwd: &[u8] = match r.below(6) { 0 | 1 => b"/", 2 | 3 => b"/r0", 4 => b"/out", _ => b"" };
    io.set("cwd", J::b(cwd));
    case.set("io", io);
    if case.has("io2") { let mut io = case.get("io2").clone(); io.set("cwd", J::b(cwd)); case.set("io2", io); }
    for k in ["cfg", "cfg2"] {
        if !case.has(k) { continue; }
        let mut c = case.get(k).clone();
        let mut form = J::arr();
        for x in c.get("roots").items() {
            let n = x.bytes();
            let f = match r.below(4) {
                0 | 1 if cwd == b"/" => r.range(7, 8),
                0 | 1 if !cwd.is_empty() => if cwd[1..] == n[..] { 10 } else { 9 },
                2 if !cli && !n.contains(&b'/') && r.chance(1, 2) => {
                    let mut fs = case.get("fs").clone();
                    let l = [b"ln-", &n[..]].concat();
                    if !fs.items().iter().any(|x| x.get("n").bytes() == l) {
                        let to = if r.chance(1, 2) { n.clone() } else { [b"/@sim/", &n[..]].concat() };
                        fs.push(J::obj().with("n", J::b(&l)).with("t", J::s("l")).with("to", J::b(&to)));
                    }
                    case.set("fs", fs);
                    5
                }
                _ => r.range(0, 6),
            };
            form.push(J::i(if f == 5 && cli { 0 } else { f as i64 }));
        }
        c.set("form", form);
        if cli && cwd.len() > 1 && r.chance(1, 2) { c.set("orel", J::Bool(true)); }
        case.set(k, c);
    }
    if !forms_lead(case) { for k in ["cfg", "cfg2"] { if case.has(k) { let mut c = case.get(k).clone(); c.set("form", J::arr()); c.set("orel", J::Bool(false)); case.set(k, c); } } }
}
/// Gives a directory that is scanned another name, everywhere.
pub fn rename_root(c: &mut J, from: &[u8], to: &[u8]) {
    match c {
        J::Str(_) => {
            let s = c.bytes();
            let mut out = Vec::new();
            let mut i = 0;
            while i < s.len() {
                let end = i + from.len();
                let begins = i == 0 || s[i - 1] == b'/' || i == 3 && s.starts_with(b"ln-");
                if begins && s[i..].starts_with(from) && (end == s.len() || s[end] == b'/') { out.extend_from_slice(to); i = end; } else { out.push(s[i]); i += 1; }
            }
            if out != s { *c = J::b(&out); }
        }
        J::Arr(a) => for x in a { rename_root(x, from, to); },
        J::Obj(o) => for (_, x) in o { rename_root(x, from, to); },
        _ => {}
    }
}
fn mount(r: &mut Rng, d: &mut J, dev: &mut i64, depth: u32) {
    if d.get("t").str() != "d" { return; }
    if r.chance(1, if depth == 0 { 2 } else { 5 }) { *dev += 1; d.set("dev", J::i(*dev)); }
    let mut k = d.get("k").clone();
    if depth < 60 { if let J::Arr(a) = &mut k { for x in a.iter_mut() { mount(r, x, dev, depth + 1); } } d.set("k", k); }
}
/// further names for some of the files
fn hard_links(r: &mut Rng, fs: &mut J) {
    let files: Vec<(Vec<u8>, J)> = { let mut v = Vec::new(); all_nodes(fs.items(), b"", &mut v); v.into_iter().filter(|(p, n)| n.get("t").str() == "f" && !p.starts_with(b"/out/") && n.get("s").uint() < 300_000 && !n.has("data")).map(|(p, n)| (p, n.clone())).collect() };
    if files.is_empty() { return; }
    for i in 0..1 + r.us(3) {
        let (p, f) = r.pick(&files).clone();
        let id = 1 + files.iter().position(|x| x.0 == p).unwrap() as i64;
        let mut g = f.clone();
        g.set("id", J::i(id));
        put_at(fs, &p, &g);
        g.set("n", J::b(format!("hl{}", i).as_bytes()));
        // any directory of the same tree
        let root = p[1..].split(|&b| b == b'/').next().unwrap().to_vec();
        if let J::Arr(a) = fs { for d in a.iter_mut() { if d.get("n").bytes() == root { add_somewhere(r, d, &g); } } }
    }
}
fn put_at(nodes: &mut J, path: &[u8], v: &J) {
    let p = &path[1..];
    let (c, rest) = match p.iter().position(|&b| b == b'/') { Some(k) => (&p[..k], Some(&p[k..])), None => (p, None) };
    if let J::Arr(a) = nodes { if let Some(x) = a.iter_mut().find(|x| x.get("n").bytes() == c) {
        match rest { None => *x = v.clone(), Some(q) => { let mut k = x.get("k").clone(); put_at(&mut k, q, v); x.set("k", k); } }
    } }
}
fn add_somewhere(r: &mut Rng, d: &mut J, f: &J) {
    let mut k = d.get("k").clone();
    let dirs: Vec<usize> = k.items().iter().enumerate().filter(|x| x.1.get("t").str() == "d").map(|x| x.0).collect();
    if !dirs.is_empty() && r.chance(1, 2) {
        let i = *r.pick(&dirs);
        if let J::Arr(a) = &mut k { add_somewhere(r, &mut a[i], f); }
    } else { k.push(f.clone()); }
    d.set("k", k);
}

fn config(c: &J) -> ScannerConfig {
    let mut cfg = ScannerConfig::new();
    { let _b = Busy::new(); }
    for (i, r) in c.get("roots").items().iter().enumerate() {
        let p = root_arg(c, i, r);
        let p = std::ffi::OsStr::from_bytes(&p);
        let pre = match c.get("pre").items().get(i) { Some(x) => x.str(), None => "/" };
        cfg.add_dir(p, pre);
    }
    if c.get("auto").bool() { cfg.auto_threads(); } else { cfg.threads(c.get("threads").uint() as usize); }
    if c.has("queue") { let q = c.get("queue").uint() as usize; cfg.queue_size(if q == NOLIMIT as usize { usize::MAX } else { q }); }
    cfg.hash(htype(c.get("hash").int()));
    if c.get("progress").bool() { cfg.print_progress(); }
    cfg
}

pub fn one_scan(c: &J, name: &str) -> Scan {
    let mut w = { let _b = Busy::new(); SimWriter::new(name) };
    let r = catch_unwind(AssertUnwindSafe(|| {
        let cfg = config(c);
        glue::scan(&cfg, &mut w)
    }));
    let _b = Busy::new();
    match r {
        Ok(Ok(())) => Scan { res: Ok(()), out: w, panic: false, fired: sim().fired_errnos.len() },
        Ok(Err(e)) => Scan { res: Err(err_info(e)), out: w, panic: false, fired: sim().fired_errnos.len() },
        Err(_) => Scan { res: Err(ErrInfo { variant: "panic", raw: None, kind: None, text: "panic".into() }), out: w, panic: true, fired: sim().fired_errnos.len() },
    }
}

/// Runs the scans of the case ("cfg", and "cfg2" at the same time on another
/// thread or, with "seq", afterwards), returns them if the run finished.
pub fn run_scan(case: &J, rep: &mut Report, setup: impl FnOnce(&mut Sim)) -> Option<Vec<Scan>> {
    let res: Arc<Mutex<Vec<(usize, Scan)>>> = Arc::new(Mutex::new(Vec::new()));
    let r2 = res.clone();
    let c1 = case.get("cfg").clone();
    let edits = case.get("edits").clone();
    let c2 = if case.has("cfg2") { Some(case.get("cfg2").clone()) } else { None };
    let nodes = count_nodes(case.get("fs").items());
    let bytes = count_bytes(case.get("fs").items());
    let two = c2.is_some();
    let (end, s) = os::run(case, |s| {
        s.max_steps = 60_000 + 3_000 * nodes + bytes / 64 + case.get("cfg").get("threads").uint() * 3000;
        if s.reint != 0 || s.rsplit != 0 { s.max_steps += bytes * 40; }
        // the path of every directory is written
        s.max_steps += 30 * path_bytes(case.get("fs").items(), 1);
        if two { s.max_steps *= 2; }
        s.max_steps *= 3;
        setup(s)
    }, move || {
        let (c2, after) = match c2 { Some(c) if c.get("seq").bool() => (None, Some(c)), c => (c, None) };
        let h = c2.map(|c2| {
            let r3 = r2.clone();
            std::thread::spawn(move || { let s = one_scan(&c2, "out1"); let _b = Busy::new(); r3.lock().unwrap().push((1, s)); })
        });
        let s = one_scan(&c1, "out");
        { let _b = Busy::new(); r2.lock().unwrap().push((0, s)); }
        if let Some(h) = h { let _ = h.join(); }
        if after.is_some() {
            let _b = Busy::new();
            for e in edits.items() { mutate(&Mut { op: String::new(), path: vec![], nth: 0, doit: e.get("do").str().into(), p: e.get("p").bytes(), arg: e.get("arg").clone(), done: false }); }
        }
        if let Some(c) = after { let s = one_scan(&c, "out1"); let _b = Busy::new(); r2.lock().unwrap().push((1, s)); }
    }, 10);
    // the listed finding: a file that another process made a fifo after it was listed
    if let End::Fatal(c, _) = &end { if c == "blocked-on-fifo" {
        let p = s.fifo_path.clone();
        if s.muts.iter().any(|m| m.done && (m.doit == "rename" && m.arg.bytes() == p || m.doit == "put" && m.p == p && m.arg.get("o").str() == "fifo")) {
            rep.absorb(&End::Finished, s);
            rep.must_exit = true;
            rep.known.push(K_FIFO.into());
            return None;
        }
    } }
    rep.absorb(&end, s);
    if !s.cwd.is_empty() || case.get("cfg").get("form").items().iter().any(|f| f.int() != 0) { rep.probe("directory named in another way"); }
    if s.ino.iter().any(|i| i.num >= 1 << 20) { rep.probe("hard links"); }
    if s.next_num.len() > 1 { rep.probe("mounted file systems"); }
    if rep.must_exit { return None; }
    let mut v = std::mem::take(&mut *res.lock().unwrap());
    v.sort_by_key(|x| x.0);
    Some(v.into_iter().map(|x| x.1).collect())
}

pub fn count_nodes(fs: &[J]) -> u64 { fs.iter().map(|n| if n.get("t").str() == "w" { n.get("s").uint().min(70_000) } else { 1 } + count_nodes(n.get("k").items())).sum() }
/// the lengths of the paths of all directories
pub fn path_bytes(fs: &[J], base: u64) -> u64 { fs.iter().filter(|n| n.get("t").str() == "d").map(|n| { let l = base + n.get("n").bytes().len() as u64; l + path_bytes(n.get("k").items(), l + 1) }).sum() }
pub fn count_bytes(fs: &[J]) -> u64 { fs.iter().map(|n| n.get("s").uint().min(1 << 30) + count_bytes(n.get("k").items())).sum() }

pub struct Want { pub h: usize, pub spec: Vec<u8>, pub quirk: Option<Vec<u8>>, pub entries: Vec<E> }

pub fn want(case: &J, cfg: &J) -> Want {
    let h = cfg.get("hash").uint() as usize;
    let fs = case.get("fs").items();
    let roots: Vec<&J> = cfg.get("roots").items().iter().filter_map(|r| find_node(fs, &r.bytes())).collect();
    let entries = tree_entries(&roots, h, Quirk::Spec);
    let spec = encode(h, BLOCK as u64, &entries);
    let quirk = if h == 2 {
        let threads = if cfg.get("auto").bool() { case.get("io").get("cpus").int_or(4) as u64 } else { cfg.get("threads").uint() };
        let q = if threads > 1 && cfg!(feature = "threads") { Quirk::PerFile } else { Quirk::PerScan };
        Some(encode(h, BLOCK as u64, &tree_entries(&roots, h, q)))
    } else { None };
    Want { h, spec, quirk, entries }
}

/// What a scan with other prefixes than the root should write: the trees of
/// these directories below their prefix.
fn want_prefixed(case: &J, cfg: &J, all: bool) -> Option<Vec<u8>> {
    let h = cfg.get("hash").uint() as usize;
    let mut own: Vec<J> = Vec::new();
    for (i, r) in cfg.get("roots").items().iter().enumerate() {
        let n = find_node(case.get("fs").items(), &r.bytes())?;
        let pre = match cfg.get("pre").items().get(i) { Some(x) => x.str(), None => "/" };
        if pre == "/" { own.push(n.clone()); continue; }
        if !all { continue; }
        let mut t = n.clone();
        for c in pre.split('/').filter(|c| !c.is_empty()).collect::<Vec<_>>().into_iter().rev() {
            t.set("n", J::s(c));
            t = J::obj().with("n", J::s("p")).with("t", J::s("d")).with("k", J::Arr(vec![t]));
        }
        own.push(t);
    }
    if own.is_empty() { return None; }
    Some(encode(h, BLOCK as u64, &tree_entries(&own.iter().collect::<Vec<_>>(), h, Quirk::Spec)))
}

pub const K_PREFIX: &str = "prefix-ignored";
pub const K_FIFO: &str = "fifo-swap";
pub const K_THREAD: &str = "thread-create";
pub const K_BLAKE3: &str = "blake3-cumulative";

/// exact output, or the listed blake3 finding
pub fn check_full(rep: &mut Report, out: &[u8], w: &Want, what: &str) {
    if out == &w.spec[..] { return; }
    if w.quirk.as_deref() == Some(out) { if !rep.known.contains(&K_BLAKE3.to_string()) { rep.known.push(K_BLAKE3.into()); } return; }
    let q = match &w.quirk { Some(q) => q, None => &w.spec };
    rep.fail("wrong-index", format!("{}: {}", what, diff(out, q)));
}
/// after an error: a prefix without the footer's final newline
fn check_prefix(rep: &mut Report, out: &[u8], w: &Want, what: &str) {
    let ok = |x: &[u8]| out.len() < x.len() && x.starts_with(out);
    if ok(&w.spec) { return; }
    if let Some(q) = &w.quirk { if ok(q) { return; } }
    let q = match &w.quirk { Some(q) => q, None => &w.spec };
    if out == &q[..] { rep.fail("complete-on-error", format!("{}: the whole index was written although the scan failed", what)); return; }
    rep.fail("not-a-prefix", format!("{}: {}", what, diff(out, q)));
}
/// no complete footer line (66 bytes from its start) after a read error
fn check_no_footer(rep: &mut Report, out: &[u8], w: &Want, what: &str) {
    let foot = w.spec.len() - 65;
    if out.len() > foot { rep.fail("footer-on-error", format!("{}: footer bytes were written although the scan failed", what)); }
}

// ------------------------------------------------------------- generation

/// a queue size that means none
const NOLIMIT: i64 = i64::MAX;
pub fn gen_roots(r: &mut Rng, o: &mut TreeOpt) -> (J, J) {
    let mut fs = J::arr();
    let mut roots = J::arr();
    let n = if r.chance(1, 5) { *r.pick(&[2, 2, 2, 3, 3, 4]) } else { 1 };
    let n = if n > 1 && r.chance(1, 60) { *r.pick(&[9, 17, 33, 40]) } else { n };
    let mut first = gen_dir(r, b"r0", o, 0);
    enlarge(r, &mut first, true);
    fs.push(first);
    roots.push(J::s("r0"));
    for i in 1..n {
        // other roots: some shared directories, never the same file name
        o.budget = 1 + r.us(if n > 4 { 2 } else { 8 });
        let nm = format!("r{}", i);
        let mut d = gen_dir(r, nm.as_bytes(), o, 0);
        for k in 0..i { disjoint(&mut d, fs.at(k)); }
        fs.push(d);
        roots.push(J::s(&nm));
    }
    fs.push(J::obj().with("n", J::s("out")).with("t", J::s("d")).with("k", J::Arr(vec![
        J::obj().with("n", J::s("secret")).with("t", J::s("f")).with("s", J::i(777)).with("c", J::i(4242)),
        J::obj().with("n", J::s("sdir")).with("t", J::s("d")).with("k", J::Arr(vec![J::obj().with("n", J::s("leak")).with("t", J::s("f")).with("s", J::i(33)).with("c", J::i(4243))])),
    ])));
    (fs, roots)
}
/// remove from `d` every entry whose name exists in `other` unless both are directories
fn disjoint(d: &mut J, other: &J) {
    let mut keep = Vec::new();
    for k in d.get("k").items() {
        let name = k.get("n").bytes();
        match other.get("k").items().iter().find(|x| x.get("n").bytes() == name) {
            None => keep.push(k.clone()),
            Some(o) => if o.get("t").str() == "d" && k.get("t").str() == "d" { let mut k = k.clone(); disjoint(&mut k, o); keep.push(k); }
        }
    }
    d.set("k", J::Arr(keep));
}

pub fn gen_sched(r: &mut Rng, threads: u64) -> J {
    let mut s = J::obj();
    match r.below(10) {
        0..=4 => { s.set("mode", J::s("rand")); s.set("p", J::i(*r.pick(&[10, 60, 150, 400, 800, 1024]))); s.set("pa", J::i(*r.pick(&[0, 0, 0, 3, 20, 100]))); }
        5..=7 => { s.set("mode", J::s("pct")); s.set("d", J::i(r.range(1, 8) as i64)); s.set("k", J::i(*r.pick(&[100, 300, 1000, 3000, 10000]))); }
        8 => { s.set("mode", J::s("rr")); s.set("k", J::i(r.range(1, 9) as i64)); }
        _ => { s.set("mode", J::s("picks")); }
    }
    s.set("seed", J::i(r.seed()));
    if r.chance(1, 6) { s.set("spur", J::i(*r.pick(&[2, 10, 30]))); }
    // also between any two basic blocks of the crate, at distances of about as many of them
    if threads > 1 && r.chance(1, 5) { s.set("fine", J::i(*r.pick(&[8, 30, 100, 400, 2000, 10_000]))); }
    if threads > 1 && r.chance(1, 3) {
        let mut st = J::arr();
        for _ in 0..1 + r.us(3) { let m = if r.chance(1, 2) { 60 } else { 400 }; let t = r.range(1, threads + 1) as i64; st.push(J::Arr(vec![J::i(t), J::i(r.range(1, m) as i64)])); }
        s.set("stalls", st);
    }
    s
}

pub fn gen_io(r: &mut Rng) -> J {
    let mut io = J::obj();
    if r.chance(2, 3) { io.set("order", J::i(r.seed())); }
    if r.chance(1, 3) { io.set("dchunk", J::i(r.range(1, 5) as i64)); }
    if r.chance(1, 3) { io.set("dt", J::i(r.seed())); }
    if r.chance(1, 3) { io.set("rs", J::i(r.seed())); }
    if r.chance(1, 3) { io.set("ri", J::i(r.seed())); }
    if r.chance(1, 3) { io.set("ws", J::i(r.seed())); }
    if r.chance(1, 3) { io.set("st", J::i(r.seed())); }
    if r.chance(1, 3) { io.set("log", J::Bool(true)); }
    io
}

fn cfg(roots: J, threads: u64, hash: u64) -> J { J::obj().with("roots", roots).with("threads", J::i(threads as i64)).with("hash", J::i(hash as i64)) }
pub fn pick_hash(r: &mut Rng) -> u64 { *r.pick(&[0, 0, 0, 1, 1, 2]) }
/// now and then more threads than there are processors anywhere
fn many(r: &mut Rng, th: u64) -> u64 { if th > 1 && r.chance(1, 60) { *r.pick(&[12, 17, 33, 40, 65, 70]) } else { th } }
pub fn pick_threads(r: &mut Rng) -> u64 { let th = few_threads(r); many(r, th) }
fn few_threads(r: &mut Rng) -> u64 { *r.pick(&[0, 1, 2, 2, 3, 4, 6]) }
pub fn tree_opt(r: &mut Rng, special: bool) -> TreeOpt { TreeOpt { budget: *r.pick(&[2, 4, 6, 10, 16, 25]), depth: r.range(1, 5) as usize, special, kin: None } }

/// a fault in the file system, at an operation a scan performs
pub fn gen_fs_fault(r: &mut Rng, fs: &J, roots: &J) -> Option<J> {
    let mut all = Vec::new();
    let rs: Vec<J> = fs.items().iter().filter(|n| roots.items().iter().any(|x| x.str() == n.get("n").str())).cloned().collect();
    all_nodes(&rs, b"", &mut all);
    if all.is_empty() { return None; }
    let (p, n) = r.pick(&all);
    let (op, nth) = match n.get("t").str() {
        "d" => match r.below(4) {
            0 => ("opend", if r.chance(1, 8) { 1 } else { 0 }),
            1 => ("opendir", 0),
            _ => ("readdir", r.range(0, n.get("k").items().len() as u64 + 3) as i64),
        },
        "l" => if r.chance(1, 6) { ("lstat", 0) } else { ("readlink", 0) },
        "f" => match r.below(8) {
            0 | 1 => ("open", 0),
            2 | 3 => ("stat", 0),
            4 => ("lstat", 0),
            _ => ("read", r.below(2 + n.get("s").uint() / 8192) as i64),
        },
        _ => ("lstat", 0),
    };
    // whatever the operation, a file system can fail it with any of these
    const ERRS: [i32; 35] = [libc::EACCES, libc::ENOENT, libc::EIO, libc::EMFILE, libc::ENFILE, libc::ENOMEM, libc::ESTALE, libc::EPERM, libc::EINVAL, libc::ELOOP, libc::ENOTDIR, libc::EISDIR,
        libc::ENXIO, libc::ETIMEDOUT, libc::EOVERFLOW, libc::ENAMETOOLONG, libc::EBUSY, libc::ENODEV, libc::EBADF, libc::EAGAIN, libc::ENOTCONN,
        libc::ENODATA, libc::ENOSYS, libc::EOPNOTSUPP, libc::EXDEV, libc::ECONNRESET, libc::EPROTO, libc::EBADMSG, libc::EREMOTEIO, libc::EUCLEAN, libc::ENOKEY, libc::EFAULT, libc::ETXTBSY, libc::EHOSTDOWN, libc::EPIPE];
    let few = r.chance(1, 3);
    let errno = *r.pick(if few { &ERRS[..4] } else { &ERRS[..] });
    Some(J::obj().with("op", J::s(op)).with("path", J::b(p)).with("nth", J::i(nth)).with("act", J::s("errno")).with("errno", J::i(errno as i64))
        .with("from", J::Bool(r.chance(1, 4))))
}

pub fn gen_out_fault(r: &mut Rng, name: &str, len: u64) -> J {
    let off = match r.below(8) { 0 => 0, 1 => r.below(60), 2 | 3 => len.saturating_sub(1 + r.below(68)), 4 => len - 1, _ => r.below(len.max(1)) };
    let mut f = J::obj().with("op", J::s("write")).with("path", J::s(name)).with("off", J::i(off as i64));
    if r.chance(1, 8) { f.set("act", J::s("zero")); f.set("errno", J::i(0)); } else {
        f.set("act", J::s("errno"));
        // a writer that is no file fails with errors of its own
        let own = name == "out" && r.chance(1, 3);
        f.set("errno", J::i(if own { *r.pick(&[-1, -2, -3, -4, -5, -6, -7]) } else { *r.pick(&[libc::ENOSPC, libc::EIO, libc::EPIPE, libc::EDQUOT, libc::EFBIG, libc::EAGAIN, libc::EROFS, libc::EINVAL, libc::ENOMEM, libc::ECONNRESET, libc::ESTALE, libc::ENXIO, libc::EPERM, libc::ETIMEDOUT]) } as i64));
    }
    if r.chance(1, 2) { f.set("once", J::Bool(true)); }
    f
}
pub fn gen_intr_writes(r: &mut Rng, faults: &mut J, name: &str, len: u64) {
    for _ in 0..r.us(4) {
        let off = r.below(len.max(1)) as i64;
        // now and then several times in a row
        let times = if r.chance(1, 4) { *r.pick(&[2, 2, 3, 5, 12]) } else { 1 };
        for _ in 0..times { faults.push(J::obj().with("op", J::s("write")).with("path", J::s(name)).with("off", J::i(off)).with("act", J::s("errno")).with("errno", J::i(libc::EINTR as i64)).with("once", J::Bool(true))); }
    }
}

pub fn base_case(fs: J, c: J, io: J, sched: J) -> J {
    J::obj().with("fs", fs).with("cfg", c).with("io", io).with("faults", J::arr()).with("sched", sched)
}
fn nontrivial(case: &J) -> bool { count_nodes(case.get("fs").items()) > 5 }

fn fdpath_fault() -> J { J::obj().with("op", J::s("fdpath")).with("path", J::s("*")).with("nth", J::i(0)).with("from", J::Bool(true)).with("act", J::s("errno")).with("errno", J::i(libc::ENOENT as i64)) }
pub fn push_fault(c: &mut J, f: J) { let mut a = c.get("faults").clone(); a.push(f); c.set("faults", a); }

// ------------------------------------------------------------- C01

pub fn gen_c01(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    let (fs, roots) = gen_roots(r, &mut o);
    let mut roots = roots;
    if r.chance(1, 2) { if let J::Arr(a) = &mut roots { a.reverse(); } }
    let h = pick_hash(r);
    let mut c = base_case(fs, cfg(roots, r.below(2), h), gen_io(r), J::obj().with("mode", J::s("picks")));
    if r.chance(1, 6) {
        // the name of a directory with special files cannot be found out: only the log suffers
        push_fault(&mut c, fdpath_fault());
    }
    if r.chance(1, 25) {
        let mut g = c.get("cfg").clone();
        g.set("hash", J::i(r.below(2) as i64));
        let mut pre = J::arr();
        for _ in g.get("roots").items() { pre.push(J::s(*r.pick(&["/", "/usr", "/usr/lib", "/a b", "/r0/x", "/lib"]))); }
        g.set("pre", pre);
        if r.chance(1, 4) { g.set("roots", J::arr()); }
        c.set("cfg", g);
    } else if r.chance(1, 40) {
        c = gen_colliding(r);
        let mut g = c.get("cfg").clone();
        g.set("threads", J::i(r.below(2) as i64));
        c.set("cfg", g);
        c.set("io2", gen_io(r));
    } else if r.chance(1, 15) {
        // the same process scans again, after changes
        let c2 = c.get("cfg").clone().with("seq", J::Bool(true)).with("hash", J::i(pick_hash(r) as i64));
        c.set("cfg2", c2);
        let e = gen_edits(r, &c);
        c.set("edits", e);
    }
    c
}
/// changes of the tree between two scans
fn gen_edits(r: &mut Rng, c: &J) -> J {
    let mut all = Vec::new();
    let rs: Vec<J> = c.get("fs").items().iter().filter(|n| n.get("n").bytes().starts_with(b"r")).cloned().collect();
    all_nodes(&rs, b"", &mut all);
    let files: Vec<&(Vec<u8>, &J)> = all.iter().filter(|x| x.1.get("t").str() == "f").collect();
    let mut e = J::arr();
    if files.is_empty() { return e; }
    for _ in 0..1 + r.us(4) {
        let (p, n) = &**r.pick(&files);
        let sz = n.get("s").uint() as i64;
        let x = J::obj().with("p", J::b(p));
        e.push(match r.below(12) {
            0 | 1 => x.with("do", J::s("truncate")).with("arg", J::i(*r.pick(&[0, sz / 2, sz - 1, sz - sz % 32768]).max(&0))),
            2 | 3 => x.with("do", J::s("extend")).with("arg", J::i(sz + *r.pick(&[1, 2, 32767, 32768]))),
            4 => x.with("do", J::s("chmod")).with("arg", J::i(*r.pick(&[0o755, 0o644]))),
            5 => x.with("do", J::s("rm")),
            6 => { let n = p.rsplit(|&b| b == b'/').next().unwrap().to_vec(); let k = if r.chance(1, 3) { gen_link(r, &n) } else { gen_file(r, &n) }; x.with("do", J::s("put")).with("arg", k) }
            _ => x.with("do", J::s("rewrite")).with("arg", J::i(r.range(1 << 41, 1 << 42) as i64)),
        });
    }
    e
}
/// the case as it is after its edits
fn edited(case: &J) -> J {
    fn apply(nodes: &mut J, p: &[u8], e: &J) {
        let p = &p[1..];
        let (c, rest) = match p.iter().position(|&b| b == b'/') { Some(k) => (&p[..k], Some(&p[k..])), None => (p, None) };
        let J::Arr(a) = nodes else { return };
        let Some(i) = a.iter().position(|x| x.get("n").bytes() == c) else {
            if rest.is_none() && e.get("do").str() == "put" { let mut n = e.get("arg").clone(); n.set("n", J::b(c)); a.push(n); }
            return;
        };
        match rest {
            Some(q) => { let mut k = a[i].get("k").clone(); apply(&mut k, q, e); a[i].set("k", k); }
            None => { let file = a[i].get("t").str() == "f"; match e.get("do").str() {
                "rm" => { a.remove(i); }
                "put" => { let mut n = e.get("arg").clone(); n.set("n", J::b(c)); a[i] = n; }
                "truncate" | "extend" if file => a[i].set("s", e.get("arg").clone()),
                "chmod" if file => a[i].set("x", e.get("arg").clone()),
                "rewrite" if file => a[i].set("c", e.get("arg").clone()),
                _ => {}
            } }
        }
    }
    let mut fs = case.get("fs").clone();
    for e in case.get("edits").items() { apply(&mut fs, &e.get("p").bytes(), e); }
    let mut c = case.clone();
    c.set("fs", fs);
    c
}
/// Several directories of one scan with files of the same names in them.
fn gen_colliding(r: &mut Rng) -> J {
    let mut fs = J::arr();
    let mut roots = J::arr();
    let n = *r.pick(&[2, 5, 11, 13, 24, 50, 120]);
    let sub = r.chance(1, 3);
    for i in 0..*r.pick(&[2, 2, 2, 3]) {
        let mut k = Vec::new();
        for j in 0..n { if r.chance(5, 6) {
            let nm = format!("f{:02}", j);
            k.push(match r.below(12) {
                0 => J::obj().with("n", J::s(&nm)).with("t", J::s("l")).with("to", J::s(&format!("to{}", i))),
                1 => J::obj().with("n", J::s(&nm)).with("t", J::s("d")).with("k", J::arr()),
                _ => J::obj().with("n", J::s(&nm)).with("t", J::s("f")).with("s", J::i(r.below(5) as i64)).with("c", J::i(r.range(1, 1 << 30) as i64)),
            });
        } }
        if sub { k = vec![J::obj().with("n", J::s("sub")).with("t", J::s("d")).with("k", J::Arr(k))]; }
        let nm = format!("r{}", i);
        fs.push(J::obj().with("n", J::s(&nm)).with("t", J::s("d")).with("k", J::Arr(k)));
        roots.push(J::s(&nm));
    }
    base_case(fs, cfg(roots, 0, *r.pick(&[0, 1])), gen_io(r), J::obj().with("mode", J::s("picks"))).with("colliding", J::Bool(true))
}
/// The format does not say what an index with two files of one name looks
/// like; whatever the scan makes of them, it makes of them every time.
fn exec_colliding(case: &J) -> Report {
    let mut rep = Report::default();
    let mut other = case.clone();
    if case.has("io2") { other.set("io", case.get("io2").clone()); }
    if case.has("threads2") { let mut g = case.get("cfg").clone(); g.set("threads", case.get("threads2").clone()); other.set("cfg", g); }
    let a = match run_scan(case, &mut rep, |_| {}) { Some(mut s) => s.remove(0), None => return rep };
    let b = match run_scan(&other, &mut rep, |_| {}) { Some(mut s) => s.remove(0), None => return rep };
    if a.panic || b.panic { rep.fail("panic", "a scan of directories with files of the same names panicked".into()); }
    else if a.res.is_ok() != b.res.is_ok() || a.res.is_ok() && a.out.data != b.out.data { rep.fail("not-the-same", format!("two scans of the same directories differ: {}", diff(&a.out.data, &b.out.data))); }
    rep.probe("files of one name in two directories");
    rep.nontrivial = nontrivial(case);
    rep
}
pub fn exec_full(case: &J) -> Report {
    if case.get("colliding").bool() { return exec_colliding(case); }
    let mut rep = Report::default();
    let scans = match run_scan(case, &mut rep, |_| {}) { Some(s) => s, None => return rep };
    let c1 = case.get("cfg");
    if c1.get("roots").items().is_empty() || c1.get("pre").items().iter().any(|p| p.str() != "/") {
        // directories that go elsewhere than to the root, or none at all
        let s = &scans[0];
        let full = want_prefixed(case, c1, true);
        match &s.res {
            Err(e) if s.panic => rep.fail("panic", e.text.clone()),
            // nothing in the way of the whole tree: only what is not supported may be refused
            Err(e) if e.raw.is_some() => rep.fail("error-without-fault", format!("scan failed with nothing wrong: {} {}", e.variant, e.text)),
            Err(_) => if full.as_ref().map_or(false, |f| s.out.data == *f) { rep.fail("complete-on-error", "the whole index was written although the scan failed".into()) },
            Ok(()) if full.as_ref().map_or(false, |f| s.out.data == *f) => {}
            Ok(()) if full.is_some() && want_prefixed(case, c1, false).map_or(false, |f| s.out.data == f) => rep.known.push(K_PREFIX.into()),
            Ok(()) => rep.fail("directory-left-out", format!("the scan succeeded with an index without the directories given to it: {:?}", String::from_utf8_lossy(&s.out.data[..s.out.data.len().min(200)]))),
        }
        rep.probe(if c1.get("roots").items().is_empty() { "no directory given" } else { "prefix other than the root" });
        rep.nontrivial = nontrivial(case);
        return rep;
    }
    for (i, s) in scans.iter().enumerate() {
        let w = if i == 0 { want(case, case.get("cfg")) } else { want(&edited(case), case.get("cfg2")) };
        match &s.res {
            Err(e) => rep.fail("error-without-fault", format!("scan {} failed with nothing wrong: {} {}", i, e.variant, e.text)),
            Ok(()) => check_full(&mut rep, &s.out.data, &w, "index"),
        }
        probes(&mut rep, &w);
    }
    if !case.get("edits").items().is_empty() { rep.probe("scanned again after changes"); }
    rep.nontrivial = nontrivial(case);
    rep
}
pub fn probes(rep: &mut Report, w: &Want) {
    for e in &w.entries {
        match e {
            E::File { size, hashes, exe, path } => {
                if *size == 0 { rep.probe("empty file"); }
                if hashes.len() > 1 { rep.probe("file of several blocks"); }
                if *size > 0 && size % BLOCK as u64 == 0 { rep.probe("size a multiple of the block"); }
                if *exe { rep.probe("executable"); }
                if path.iter().any(|&c| c <= 0x20 || c >= 0x7f || c == b'\\') { rep.probe("escaped name"); }
            }
            E::Link { .. } => rep.probe("symlink"),
            E::Dir(p) => if p.len() > 1 { rep.probe("subdirectory") },
        }
    }
}

// ------------------------------------------------------------- C02

pub fn gen_c02(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    if r.chance(1, 4) { o.budget = 60; }
    let (fs, roots) = gen_roots(r, &mut o);
    let th = *r.pick(&[2, 2, 3, 3, 4, 5, 8]);
    let th = many(r, th);
    let mut c1 = cfg(roots.clone(), th, pick_hash(r));
    if r.chance(1, 2) { c1.set("queue", J::i(*r.pick(&[0, 1, 2, 3, 5, 16, 100, NOLIMIT]))); }
    if r.chance(1, 8) { c1.set("progress", J::Bool(true)); }
    let mut io = gen_io(r);
    if r.chance(1, 12) { c1.set("auto", J::Bool(true)); io.set("cpus", J::i(if r.chance(1, 6) { 1 } else { th as i64 })); }
    let mut c = base_case(fs, c1, io, gen_sched(r, th));
    if r.chance(1, 5) {
        let mut c2 = cfg(roots, *r.pick(&[0, 2, 3]), pick_hash(r));
        if r.chance(1, 2) { c2.set("queue", J::i(*r.pick(&[0, 1, 2, 16, NOLIMIT]))); }
        if r.chance(1, 2) { c2.set("seq", J::Bool(true)); if r.chance(2, 3) { let e = gen_edits(r, &c); c.set("edits", e); } }
        c.set("cfg2", c2);
    }
    if r.chance(1, 50) {
        c = gen_colliding(r);
        let mut g = c.get("cfg").clone();
        g.set("threads", J::i(th as i64));
        if r.chance(1, 2) { g.set("queue", J::i(*r.pick(&[0, 1, 2, 3, 16, NOLIMIT]))); }
        c.set("cfg", g);
        c.set("sched", gen_sched(r, th));
        c.set("threads2", J::i(*r.pick(&[0, 1, 2, 4])));
    }
    c
}

// ------------------------------------------------------------- C03

pub fn gen_c03(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    let (fs, roots) = gen_roots(r, &mut o);
    let th = pick_threads(r);
    let mut c1 = cfg(roots.clone(), th, pick_hash(r));
    if r.chance(1, 3) { c1.set("queue", J::i(*r.pick(&[0, 1, 2, 16, NOLIMIT]))); }
    if r.chance(1, 8) { c1.set("progress", J::Bool(true)); }
    let mut c = base_case(fs.clone(), c1, gen_io(r), gen_sched(r, th));
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) { if let Some(mut f) = gen_fs_fault(r, &fs, &roots) {
        // no memory for the buffer of a listing (only here: openat does not close the descriptor then)
        if f.get("op").str() == "opendir" && r.chance(1, 4) { f.set("op", J::s("fdopen")); f.set("errno", J::i(libc::ENOMEM as i64)); }
        push_fault(&mut c, f);
    } }
    // and once more in the same process, when the failure may be over
    if r.chance(1, 6) { let th = pick_threads(r); c.set("cfg2", cfg(roots, th, pick_hash(r)).with("seq", J::Bool(true))); }
    c
}
fn judge_fs_fault(rep: &mut Report, s: &Scan, w: &Want, fired: &[(i32, String)]) {
    if fired.is_empty() {
        match &s.res {
            Ok(()) => check_full(rep, &s.out.data, w, "index (no fault fired)"),
            Err(e) => rep.fail("error-without-fault", format!("no fault fired, yet: {} {}", e.variant, e.text)),
        }
        return;
    }
    let names: Vec<String> = fired.iter().map(|f| format!("{} at {}", errname(f.0), f.1)).collect();
    match &s.res {
        Ok(()) => rep.fail("swallowed", format!("the scan succeeded although {}", names.join(", "))),
        Err(e) => {
            if e.variant == "WriteError" || !e.raw.map_or(false, |x| fired.iter().any(|f| f.0 == x)) {
                rep.fail("wrong-error", format!("{} but the scan returned {} {}", names.join(", "), e.variant, e.text));
            }
            check_prefix(rep, &s.out.data, w, &names.join(", "));
            check_no_footer(rep, &s.out.data, w, &names.join(", "));
        }
    }
}
pub fn exec_c03(case: &J) -> Report {
    let mut rep = Report::default();
    let scans = match run_scan(case, &mut rep, |_| {}) { Some(s) => s, None => return rep };
    let all = &sim().fired_errnos;
    let fired = fs_only(&all[..scans[0].fired]);
    let w = want(case, case.get("cfg"));
    judge_fs_fault(&mut rep, &scans[0], &w, &fired);
    if scans.len() > 1 {
        let later = fs_only(&all[scans[0].fired..]);
        // (threads of the first scan may still meet failures)
        let w2 = want(case, case.get("cfg2"));
        match &scans[1].res { Ok(()) => check_full(&mut rep, &scans[1].out.data, &w2, "second scan"), Err(_) => judge_fs_fault(&mut rep, &scans[1], &w2, &later) }
        if scans[0].res.is_err() && later.is_empty() { rep.probe("scan again after a failure"); }
    }
    rep.nontrivial = !fired.is_empty();
    rep
}
pub fn fs_fired() -> Vec<(i32, String)> { fs_only(&sim().fired_errnos) }
fn fs_only(v: &[(i32, String)]) -> Vec<(i32, String)> { v.iter().filter(|f| !["write", "stdout", "stderr", "fdpath", "flush", "close"].contains(&f.1.as_str())).cloned().collect() }

// ------------------------------------------------------------- C04

pub fn gen_c04(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    let (fs, roots) = gen_roots(r, &mut o);
    let th = pick_threads(r);
    let mut c1 = cfg(roots, th, pick_hash(r));
    if r.chance(1, 3) { c1.set("queue", J::i(*r.pick(&[0, 1, 2, 16, NOLIMIT]))); }
    if r.chance(1, 8) { c1.set("progress", J::Bool(true)); }
    let mut c = base_case(fs, c1, gen_io(r), gen_sched(r, th));
    let len = want(&c, c.get("cfg")).spec.len() as u64;
    let mut f = J::arr();
    if r.chance(5, 6) { f.push(gen_out_fault(r, "out", len)); }
    if r.chance(1, 2) { gen_intr_writes(r, &mut f, "out", len); }
    c.set("faults", f);
    c
}
fn judge_out(rep: &mut Report, s: &Scan, w: &Want) {
    if !s.out.failed() {
        match &s.res {
            Ok(()) => check_full(rep, &s.out.data, w, "index (no hard output failure)"),
            Err(e) => rep.fail("error-without-fault", format!("the output never failed, yet: {} {}", e.variant, e.text)),
        }
        return;
    }
    match &s.res {
        Ok(()) => rep.fail("swallowed", "the scan succeeded although its output failed".into()),
        Err(e) => {
            let carried = e.raw.map_or(false, |x| s.out.hard.contains(&x)) || (s.out.zero > 0 && e.kind == Some(std::io::ErrorKind::WriteZero));
            if e.variant != "WriteError" || !carried { rep.fail("wrong-error", format!("the output failed with {:?} (zero writes {}), the scan returned {} {}", s.out.hard.iter().map(|e| errname(*e)).collect::<Vec<_>>(), s.out.zero, e.variant, e.text)); }
            if s.out.after_err > 0 { rep.fail("write-after-error", format!("{} bytes written after the output had failed", s.out.after_err)); }
            check_prefix(rep, &s.out.data, w, "output failure");
        }
    }
}
pub fn exec_c04(case: &J) -> Report {
    let mut rep = Report::default();
    let scans = match run_scan(case, &mut rep, |_| {}) { Some(s) => s, None => return rep };
    let w = want(case, case.get("cfg"));
    judge_out(&mut rep, &scans[0], &w);
    if scans[0].out.failed() && scans[0].out.data.len() + 66 > w.spec.len() { rep.probe("output fails inside the footer"); }
    rep.nontrivial = scans[0].out.failed() || rep.faults.keys().any(|k| k.starts_with("write"));
    rep
}

// ------------------------------------------------------------- C05

pub fn gen_c05(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    let (fs, roots) = gen_roots(r, &mut o);
    let th = pick_threads(r);
    let mut c1 = cfg(roots.clone(), th, pick_hash(r)).with("progress", J::Bool(true));
    if r.chance(1, 4) { c1.set("queue", J::i(*r.pick(&[0, 1, 2, 16, NOLIMIT]))); }
    let mut c = base_case(fs.clone(), c1, gen_io(r), gen_sched(r, th));
    let mut ck = J::obj().with("tick", J::i(*r.pick(&[0, 1000, 100_000, 10_000_000])));
    if r.chance(1, 2) { ck.set("lat", J::i(*r.pick(&[1_000_000, 300_000_000]))); }
    let mut jumps = J::arr();
    for _ in 0..r.us(4) { jumps.push(J::Arr(vec![J::i(r.range(1, 30) as i64), J::i(*r.pick(&[-1_000_000_000_000i64 + 5, -50_000_000, 200_000_000, 3_600_000_000_000, 40_000_000_000_000_000, -3_000_000_000]))])); }
    ck.set("jumps", jumps);
    c.set("clock", ck);
    match r.below(4) {
        0 => push_fault(&mut c, J::obj().with("op", J::s("write")).with("path", J::s("stderr")).with("nth", J::i(r.below(6) as i64)).with("from", J::Bool(r.chance(1, 2))).with("act", J::s("errno"))
            .with("errno", J::i(*r.pick(&[libc::EPIPE, libc::EIO, libc::EBADF, libc::EAGAIN, libc::ENOSPC]) as i64))),
        1 => push_fault(&mut c, J::obj().with("op", J::s("write")).with("path", J::s("stderr")).with("off", J::i(r.below(200) as i64)).with("act", J::s("errno"))
            .with("errno", J::i(*r.pick(&[libc::EPIPE, libc::ENOSPC, libc::EINTR]) as i64)).with("once", J::Bool(r.chance(1, 2)))),
        _ => {}
    }
    if let Some(f) = c.get("faults").items().first().cloned() { if f.get("errno").int() == libc::EINTR as i64 { let mut f = f; f.set("once", J::Bool(true)); c.set("faults", J::Arr(vec![f])); } }
    if r.chance(1, 12) { let mut g = c.get("cfg").clone(); g.set("progress", J::Bool(false)); c.set("cfg", g); }
    if r.chance(1, 5) { if let Some(f) = gen_fs_fault(r, &fs, &roots) { push_fault(&mut c, f); } }
    else if r.chance(1, 4) { let len = want(&c, c.get("cfg")).spec.len() as u64; push_fault(&mut c, gen_out_fault(r, "out", len)); }
    c
}
pub fn exec_c05(case: &J) -> Report {
    let mut rep = Report::default();
    let scans = match run_scan(case, &mut rep, |_| {}) { Some(s) => s, None => return rep };
    let w = want(case, case.get("cfg"));
    let fired = fs_fired();
    let stderr_bad = sim().fired_errnos.iter().any(|f| f.1 == "stderr" && f.0 != libc::EINTR);
    let err_text = sim().stderr.clone();
    let s = &scans[0];
    if s.out.failed() && fired.is_empty() { judge_out(&mut rep, s, &w); }
    else if s.out.failed() && s.res.is_ok() { rep.fail("swallowed", "the scan succeeded although its output failed".into()); }
    else if !s.out.failed() { judge_fs_fault(&mut rep, s, &w, &fired); }
    if !case.get("cfg").get("progress").bool() {
        if !err_text.is_empty() { rep.fail("not-quiet", format!("a scan without progress wrote to standard error: {:?}", String::from_utf8_lossy(&err_text))); }
        rep.probe("no progress");
    } else if s.res.is_ok() && !stderr_bad {
        // the last line: counts and the first digits of the footer
        let text = String::from_utf8_lossy(&err_text).into_owned();
        let last = text.rsplit(|c| c == '\n' || c == '\r').find(|l| !l.trim().is_empty()).unwrap_or("").to_string();
        let foot: String = String::from_utf8_lossy(&s.out.data[s.out.data.len().saturating_sub(65)..]).chars().take(8).collect();
        let (d, f, l) = count_kinds(&w.entries);
        let num = |word: &str| -> Option<u64> { let i = last.find(word)?; last[..i].trim_end().rsplit(|c: char| !c.is_ascii_digit()).next()?.parse().ok() };
        if num(" dirs") != Some(d) || num(" files") != Some(f) || num(" symlinks") != Some(l) { rep.fail("wrong-progress", format!("final progress line {:?} but the tree has {} dirs, {} files, {} symlinks", last, d, f, l)); }
        if !last.contains(&foot) { rep.fail("wrong-progress-hash", format!("final progress line {:?} but the footer starts with {}", last, foot)); }
        rep.probe("final progress line checked");
        if text.contains("Indexing") { rep.probe("intermediate progress line"); }
    }
    if stderr_bad { rep.probe("stderr failed"); }
    rep.nontrivial = nontrivial(case);
    rep
}

// ------------------------------------------------------------- C06

pub fn gen_c06(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    if r.chance(1, 4) { o.budget = 50; }
    let (fs, roots) = gen_roots(r, &mut o);
    let th = *r.pick(&[0, 2, 2, 3, 4, 6, 8]);
    let mut c1 = cfg(roots.clone(), th, *r.pick(&[0, 1]));
    if r.chance(1, 2) { c1.set("queue", J::i(*r.pick(&[0, 1, 2, 3, 16, NOLIMIT]))); }
    if r.chance(1, 6) { c1.set("progress", J::Bool(true)); }
    let mut c = base_case(fs.clone(), c1, gen_io(r), gen_sched(r, th));
    match r.below(4) {
        0 => {}
        1 | 2 => { for _ in 0..1 + r.us(2) { if let Some(f) = gen_fs_fault(r, &fs, &roots) { push_fault(&mut c, f); } } }
        _ => { let len = want(&c, c.get("cfg")).spec.len() as u64; push_fault(&mut c, gen_out_fault(r, "out", len)); }
    }
    if r.chance(1, 6) { push_fault(&mut c, fdpath_fault()); }
    if th > 1 && r.chance(1, 30) { push_fault(&mut c, J::obj().with("op", J::s("thread")).with("path", J::s("create")).with("nth", J::i(r.below(th) as i64)).with("act", J::s("errno")).with("errno", J::i(libc::EAGAIN as i64))); }
    if r.chance(1, 3) { let m = gen_muts(r, &fs, &roots, false); c.set("muts", m); if c.get("io").get("order").int() == 0 { let mut io = c.get("io").clone(); io.set("order", J::i(77)); c.set("io", io); } }
    c
}
pub fn exec_c06(case: &J) -> Report {
    let mut rep = Report::default();
    let scans = match run_scan(case, &mut rep, |_| {}) { Some(s) => s, None => {
        // the same finding: the threads started before it may be left behind by the panic
        let s = sim();
        if s.fired_errnos.iter().any(|f| f.1 == "thread") && !s.panics.is_empty() && rep.viol.as_ref().map_or(false, |v| v.0 == "thread-leak") { rep.viol = None; rep.known.push(K_THREAD.into()); rep.must_exit = true; }
        return rep;
    } };
    if scans[0].panic { rep.fail("panic", "the scan panicked".into()); }
    let s = sim();
    // the listed finding: a thread that can not be started
    if s.fired_errnos.iter().any(|f| f.1 == "thread") && rep.viol.as_ref().map_or(false, |v| v.0 == "panic") { rep.viol = None; rep.known.push(K_THREAD.into()); }
    if s.open_now != 0 {
        let open: Vec<String> = s.fds.iter().flatten().map(|i| show(&s.ofds[*i].path)).collect();
        rep.fail("fd-leak", format!("{} descriptors left open: {:?}", s.open_now, open));
    }
    if scans[0].res.is_err() { rep.probe("scan failed"); }
    if s.threads_made > 0 { rep.probe("threads were started"); }
    rep.nontrivial = nontrivial(case);
    rep
}

// ------------------------------------------------------------- C07

pub fn gen_c07(r: &mut Rng) -> J {
    let th = *r.pick(&[2, 2, 2, 3, 3, 4, 4, 8]);
    let th = if r.chance(1, 3) { many(r, th) } else { th };
    let auto = r.chance(1, 5);
    let queue = if r.chance(2, 3) { Some(*r.pick(&[0, 1, 2, 3, 5, 8, 20])) } else { None };
    let lim = queue.unwrap_or(th as i64 * 16) as usize;
    let n = lim + 5 + r.us(40);
    // wide: many files in one directory, or many directories with few files
    let mut kids = J::arr();
    let style = r.below(4);
    let mut left = n;
    let mut i = 0;
    if style == 3 {
        // deep and bushy
        fn grow(r: &mut Rng, left: &mut usize, i: &mut i64, depth: u32) -> J {
            let mut k = J::arr();
            for j in 0..2 + r.us(6) {
                if *left == 0 { break; }
                *left -= 1; *i += 1;
                let nm = J::s(&format!("{}{}", if r.chance(1, 2) { "d" } else { "f" }, j));
                if depth < 12 && r.chance(2, 5) { k.push(J::obj().with("n", nm).with("t", J::s("d")).with("k", grow(r, left, i, depth + 1))); }
                else { k.push(J::obj().with("n", nm).with("t", J::s("f")).with("s", J::i(r.below(30) as i64)).with("c", J::i(*i))); }
            }
            k
        }
        let mut top = 0;
        while left > 0 { top += 1; let k = grow(r, &mut left, &mut i, 1); kids.push(J::obj().with("n", J::s(&format!("t{:03}", top))).with("t", J::s("d")).with("k", k)); }
    }
    while left > 0 {
        i += 1;
        let nm = format!("{:04}", i).into_bytes();
        let sz = if r.chance(1, 12) { 40000 } else { r.below(30) as i64 };
        let f = |nm: &[u8], sz: i64, c: i64| J::obj().with("n", J::b(nm)).with("t", J::s("f")).with("s", J::i(sz)).with("c", J::i(c));
        if style == 0 { kids.push(if r.chance(1, 9) { J::obj().with("n", J::b(&nm)).with("t", J::s("l")).with("to", J::s("x")) } else { f(&nm, sz, i) }); left -= 1; }
        else {
            let m = (r.us(if style == 1 { 2 } else { 9 })).min(left);
            let mut k = J::arr();
            for j in 0..m { k.push(f(format!("f{}", j).as_bytes(), sz, i * 100 + j as i64)); }
            kids.push(J::obj().with("n", J::b(&nm)).with("t", J::s("d")).with("k", k));
            left = left.saturating_sub(m + 1);
        }
    }
    let fs = J::Arr(vec![J::obj().with("n", J::s("r0")).with("t", J::s("d")).with("k", kids)]);
    let mut c1 = cfg(J::Arr(vec![J::s("r0")]), th, *r.pick(&[0, 1]));
    if auto { c1.set("auto", J::Bool(true)); }
    if let Some(q) = queue { c1.set("queue", J::i(q)); }
    let mut sched = gen_sched(r, th);
    if r.chance(2, 3) {
        // one worker stalls in an early file for as long as anything else can run
        let mut st = J::arr();
        for _ in 0..1 + r.us(2) { st.push(J::Arr(vec![J::i(r.range(2, th + 1) as i64), J::i(r.range(1, 80) as i64)])); }
        sched.set("stalls", st);
    }
    let mut io = J::obj();
    if r.chance(1, 2) { io.set("order", J::i(r.seed())); }
    if r.chance(1, 5) { io.set("dt", J::i(r.seed())); }
    if auto { io.set("cpus", J::i(th as i64)); }
    base_case(fs, c1, io, sched)
}
pub fn exec_c07(case: &J) -> Report {
    let mut rep = Report::default();
    let scans = match run_scan(case, &mut rep, |s| s.evs_on = true) { Some(s) => s, None => return rep };
    let w = want(case, case.get("cfg"));
    let th = if case.get("cfg").get("auto").bool() { case.get("io").get("cpus").int_or(4) as u64 } else { case.get("cfg").get("threads").uint() };
    let lim = if th > 1 { if case.get("cfg").has("queue") { case.get("cfg").get("queue").uint() } else { th * 16 } } else { 0 };
    let index: std::collections::BTreeMap<Vec<u8>, usize> = w.entries.iter().enumerate().filter(|(_, e)| !e.is_dir()).map(|(i, e)| { let mut p = b"/".to_vec(); p.extend_from_slice(&case.get("cfg").get("roots").at(0).bytes()); p.extend_from_slice(e.path()); (p, i) }).collect();
    let s = sim();
    let mut lines = 0i64;
    let mut worst = 0i64;
    for e in &s.evs {
        if e.op == "lines" { lines += e.ret; continue; }
        if e.op != "open" && e.op != "readlink" { continue; }
        if let Some(&i) = index.get(&e.path) {
            let ahead = i as i64 - (lines - 1); // header line
            worst = worst.max(ahead);
            if ahead > lim as i64 { rep.fail("look-ahead", format!("{} (entry {}) was opened when only {} entries were written: {} ahead, queue size {}", show(&e.path), i, lines - 1, ahead, lim)); }
        }
    }
    let depth = w.entries.iter().map(|e| e.path().iter().filter(|c| **c == b'/').count()).max().unwrap_or(1) as i64;
    let bound = 2 * (depth + 3) + lim as i64 + 2 * th as i64 + 6;
    if s.open_peak > bound { rep.fail("fd-bound", format!("{} descriptors open at once; depth {}, queue {}, threads {}", s.open_peak, depth, lim, th)); }
    if worst >= lim as i64 && th > 1 { rep.probe("queue was full"); if !case.get("cfg").has("queue") { rep.probe("default queue was full"); } }
    if depth > 5 { rep.probe("deep tree"); }
    if case.get("cfg").get("auto").bool() { rep.probe("one thread per processor"); }
    rep.nontrivial = worst > 0;
    let _ = scans;
    rep
}

// ------------------------------------------------------------- C08

/// Changes other processes make at chosen calls of the scan. `inplace`: only
/// changes of the content or flags of existing files.
pub fn gen_muts(r: &mut Rng, fs: &J, roots: &J, inplace: bool) -> J {
    let mut all = Vec::new();
    let rs: Vec<J> = fs.items().iter().filter(|n| roots.items().iter().any(|x| x.str() == n.get("n").str())).cloned().collect();
    all_nodes(&rs, b"", &mut all);
    let inner: Vec<&(Vec<u8>, &J)> = all.iter().filter(|x| x.0[1..].contains(&b'/')).collect();
    let mut out = J::arr();
    if inner.is_empty() { return out; }
    for _ in 0..*r.pick(&[1, 1, 2, 3]) {
        let (p, n) = r.pick(&inner);
        let isdir = n.get("t").str() == "d";
        // trigger: a call on the object itself, its directory, or some other object
        let (tp, tn) = if r.chance(2, 3) { (p.clone(), *n) } else { let x = r.pick(&all); (x.0.clone(), x.1) };
        let parent = { let k = tp.iter().rposition(|c| *c == b'/').unwrap(); tp[..k].to_vec() };
        let (op, path, nth) = match tn.get("t").str() {
            "d" => (*r.pick(&["opend", "opendir", "readdir", "readdir"]), tp.clone(), r.below(3) as i64),
            "l" => (*r.pick(&["readlink", "lstat"]), tp.clone(), 0),
            _ => (*r.pick(&["open", "stat", "read", "read", "lstat", "close"]), tp.clone(), r.below(if inplace { 6 } else { 2 }) as i64),
        };
        let (op, path, nth) = if r.chance(1, 4) && !parent.is_empty() { ("readdir", parent, r.below(6) as i64) } else { (op, path, nth) };
        let nth = if ["open", "stat", "opend", "opendir", "readlink", "lstat", "close"].contains(&op) { 0 } else { nth };
        let mut m = J::obj().with("op", J::s(op)).with("path", J::b(&path)).with("nth", J::i(nth)).with("p", J::b(p));
        let name: Vec<u8> = p.rsplit(|c| *c == b'/').next().unwrap().to_vec();
        if inplace {
            if n.get("t").str() != "f" { continue; }
            let sz = n.get("s").uint() as i64;
            match r.below(5) {
                0 | 1 => { m.set("do", J::s("truncate")); m.set("arg", J::i(*r.pick(&[0, 1, sz / 2, sz - 1, sz - 32768, sz / 3]).max(&0))); }
                2 | 3 => { m.set("do", J::s("extend")); m.set("arg", J::i(sz + *r.pick(&[1, 2, 10, 32767, 32768, 40000, 100000]))); }
                _ => { m.set("do", J::s("rewrite")); m.set("arg", J::i(r.range(1 << 41, 1 << 42) as i64)); }
            }
        } else {
            // a fifo put in the place of a listed file is a listed finding, not searched for
            match if n.get("o").str() == "fifo" { r.below(2) } else { r.below(if isdir { 6 } else { 9 }) } {
                0 => { m.set("do", J::s("rm")); }
                1 | 2 => { m.set("do", J::s("put")); m.set("arg", J::obj().with("t", J::s("l")).with("to", J::s(if isdir { *r.pick(&["/@sim/out", "/@sim/out/sdir", "../../out", "../out"]) } else { *r.pick(&["/@sim/out/secret", "../out/secret", "/@sim/out/sdir/leak", "/@sim/out"]) }))); }
                3 => { let mut f = gen_file(r, &name); f.set("c", J::i(r.range(1 << 41, 1 << 42) as i64)); m.set("do", J::s("put")); m.set("arg", f); }
                4 => { let mut d = J::obj().with("t", J::s("d")).with("k", J::arr()); if r.chance(1, 2) { let mut f = gen_file(r, b"newfile"); f.set("c", J::i(r.range(1 << 41, 1 << 42) as i64)); d.set("k", J::Arr(vec![f])); } m.set("do", J::s("put")); m.set("arg", d); }
                5 => { m.set("do", J::s("rename")); let mut t = b"/out/moved".to_vec(); t.extend_from_slice(r.below(100).to_string().as_bytes()); m.set("arg", J::b(&t)); }
                6 => { m.set("do", J::s("chmod")); m.set("arg", J::i(*r.pick(&[0o755, 0o644, 0o100, 0]))); }
                7 => { m.set("do", J::s("rename")); let k = p.iter().rposition(|c| *c == b'/').unwrap(); let mut t = p[..k].to_vec(); t.push(b'/'); t.extend_from_slice(&gen_name(r)); m.set("arg", J::b(&t)); }
                _ => { let mut f = gen_file(r, &name); f.set("c", J::i(r.range(1 << 41, 1 << 42) as i64)); f.set("s", J::i(n.get("s").uint() as i64)); m.set("do", J::s("put")); m.set("arg", f); }
            }
        }
        out.push(m);
    }
    out
}
pub fn gen_c08(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    let (fs, roots) = gen_roots(r, &mut o);
    let th = pick_threads(r);
    let mut c1 = cfg(roots.clone(), th, *r.pick(&[0, 1]));
    if r.chance(1, 3) { c1.set("queue", J::i(*r.pick(&[0, 1, 2, 16, NOLIMIT]))); }
    let mut io = gen_io(r);
    io.set("order", J::i(r.seed() | 1));
    if r.chance(1, 3) { io.set("dirsize", J::i(*r.pick(&[0, 6, 4096, 40000]))); }
    let m = gen_muts(r, &fs, &roots, false);
    base_case(fs, c1, io, gen_sched(r, th)).with("muts", m)
}
pub fn parse_lines(out: &[u8]) -> Vec<&[u8]> {
    // complete lines after the header, footer included if it is there
    let mut v: Vec<&[u8]> = Vec::new();
    let mut st = 0;
    for (i, c) in out.iter().enumerate() { if *c == b'\n' { v.push(&out[st..i + 1]); st = i + 1; } }
    if !v.is_empty() { v.remove(0); }
    v
}
/// output lines as (full path, line); the footer is left out
fn located(out: &[u8]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut dir = Vec::new();
    let mut v = Vec::new();
    for l in parse_lines(out) {
        if l.starts_with(b"/") { dir = unescape(&l[..l.len() - 1]); v.push((dir.clone(), l.to_vec())); }
        else if l.starts_with(b"  ") {
            let name = l[2..].split(|c| *c == b' ').next().unwrap_or(b"");
            let mut p = dir.clone(); if !p.ends_with(b"/") { p.push(b'/'); } p.extend_from_slice(&unescape(name));
            v.push((p, l.to_vec()));
        }
    }
    v
}
pub fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 3 < b.len() && b[i + 1] == b'x' {
            if let Ok(v) = u8::from_str_radix(&String::from_utf8_lossy(&b[i + 2..i + 4]), 16) { o.push(v); i += 4; continue; }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}
pub fn exec_c08(case: &J) -> Report {
    let mut rep = Report::default();
    let roots: Vec<Vec<u8>> = case.get("cfg").get("roots").items().iter().map(|r| { let mut p = b"/".to_vec(); p.extend_from_slice(&r.bytes()); p }).collect();
    let rc = roots.clone();
    let scans = match run_scan(case, &mut rep, move |s| { s.snap_roots = rc; }) { Some(s) => s, None => return rep };
    let h = case.get("cfg").get("hash").uint() as usize;
    // the state before any change
    let w = want(case, case.get("cfg"));
    let s = sim();
    let mut universe: std::collections::BTreeMap<Vec<u8>, Vec<Vec<u8>>> = Default::default();
    for e in &w.entries { universe.entry(e.path().to_vec()).or_default().push(line(e)); }
    for (p, sn) in &s.snaps {
        let l = match sn {
            Snap::Dir => line(&E::Dir(p.clone())),
            Snap::Link(to) => line(&E::Link { path: p.clone(), to: to.clone() }),
            Snap::File(mode, size, seed) => {
                let mut d = vec![0u8; *size as usize]; content_at(*seed, 0, &mut d);
                line(&E::File { path: p.clone(), exe: mode & 0o100 != 0, size: *size, hashes: block_digests(h, &d, BLOCK, Quirk::Spec, &mut H::new(h)) })
            }
            Snap::Other => continue,
        };
        let v = universe.entry(p.clone()).or_default();
        if !v.contains(&l) { v.push(l); }
    }
    let sc = &scans[0];
    for (p, l) in located(&sc.out.data) {
        match universe.get(&p) {
            None => rep.fail("outside-name", format!("{} is in the index but never was in the tree", show(&p))),
            Some(v) => if !v.contains(&l) { rep.fail("false-entry", format!("entry \"{}\" matches no version that {} ever had ({} versions, e.g. \"{}\")", show(&l), show(&p), v.len(), show(&v[0]))); }
        }
    }
    match &sc.res {
        Err(e) => { if e.variant == "WriteError" || e.variant == "panic" { rep.fail("wrong-error", format!("{} {}", e.variant, e.text)); } rep.probe("scan reported the change"); }
        Ok(()) => {
            rep.probe("scan succeeded");
            // touched: below any path a change was applied to (or moved to)
            let touched: Vec<Vec<u8>> = s.muts.iter().filter(|m| m.done).flat_map(|m| { let mut v = vec![m.p.clone()]; if m.doit == "rename" { v.push(m.arg.bytes()); } v }).collect();
            let have: std::collections::BTreeSet<Vec<u8>> = located(&sc.out.data).into_iter().map(|x| x.1).collect();
            let haveloc: std::collections::BTreeSet<(Vec<u8>, Vec<u8>)> = located(&sc.out.data).into_iter().collect();
            let _ = have;
            for e in &w.entries {
                let under = |t: &Vec<u8>| roots.iter().any(|r| { let mut p = r.clone(); if e.path() != b"/" { p.extend_from_slice(e.path()); } p == *t || (p.starts_with(t) && p.get(t.len()) == Some(&b'/')) });
                if touched.iter().any(under) { continue; }
                if !haveloc.contains(&(e.path().to_vec(), line(e))) { rep.fail("lost-entry", format!("untouched entry {} is missing or changed", show(e.path()))); }
            }
            let lines = parse_lines(&sc.out.data);
            let body: Vec<u8> = lines[..lines.len().max(1) - 1].concat();
            let foot = format!("{}\n", model::hex(&model::hash(h, &body)));
            if lines.last().map(|l| l.to_vec()) != Some(foot.into_bytes()) { rep.fail("wrong-footer", "footer does not match the lines above".into()); }
        }
    }
    rep.nontrivial = s.muts_done > 0;
    rep
}

// ------------------------------------------------------------- C09

/// a file of more bytes than four bytes count
pub fn gen_huge(r: &mut Rng, threaded: bool) -> J {
    let f = |n: &str, s: i64| J::obj().with("n", J::s(n)).with("t", J::s("f")).with("s", J::i(s)).with("c", J::i(0));
    let d = J::obj().with("n", J::s("r0")).with("t", J::s("d")).with("k", J::Arr(vec![f("a", 10), f("big", (1i64 << 32) + r.range(1, 100_000) as i64), f("c", 32769)]));
    let th = if threaded { 3 } else { 0 };
    base_case(J::Arr(vec![d]), cfg(J::Arr(vec![J::s("r0")]), th, r.below(2)), J::obj(), gen_sched(r, th)).with("huge", J::Bool(true))
}
pub fn gen_c09(r: &mut Rng) -> J {
    let mut o = tree_opt(r, false);
    o.budget = *r.pick(&[1, 2, 3, 6]);
    let (mut fs, roots) = gen_roots(r, &mut o);
    let th = *r.pick(&[0, 1, 2, 3]);
    if r.chance(1, 3) {
        // the file system reports a size it does not deliver
        let mut all = Vec::new();
        all_nodes(fs.items(), b"", &mut all);
        let files: Vec<Vec<u8>> = all.iter().filter(|x| x.1.get("t").str() == "f" && x.0.starts_with(b"/r")).map(|x| x.0.clone()).collect();
        drop(all);
        if !files.is_empty() {
            let p = r.pick(&files).clone();
            let z = match r.below(6) { 0 => 0, 1 => 1i64 << r.range(20, 62), 2 => r.below(100000) as i64, 3 => 4096, 4 => 32768 * r.range(1, 5) as i64, _ => (1 << 62) - 1 };
            set_at(&mut fs, &p[1..], "z", J::i(z));
        }
    }
    let m = if r.chance(3, 4) { gen_muts(r, &fs, &roots, true) } else { J::arr() };
    let mut io = gen_io(r);
    io.set("order", J::i(r.seed() | 1));
    base_case(fs, cfg(roots, th, *r.pick(&[0, 1])), io, gen_sched(r, th)).with("muts", m)
}
pub fn set_at(fs: &mut J, path: &[u8], k: &str, v: J) {
    let (head, rest) = match path.iter().position(|c| *c == b'/') { Some(i) => (&path[..i], Some(&path[i + 1..])), None => (path, None) };
    let items = match fs { J::Arr(a) => a, J::Obj(_) => { if let J::Obj(o) = fs { match o.iter_mut().find(|e| e.0 == "k") { Some((_, J::Arr(a))) => a, _ => return } } else { return } } _ => return };
    for n in items.iter_mut() { if n.get("n").bytes() == head { match rest { None => n.set(k, v), Some(r) => set_at(n, r, k, v) } return; } }
}
pub fn exec_c09(case: &J) -> Report {
    let mut rep = Report::default();
    let real = count_bytes(case.get("fs").items()) as i64 + case.get("muts").items().iter().map(|m| m.get("arg").int().clamp(0, 1 << 20)).sum::<i64>();
    let cap = (8 << 20) + 16 * real;
    let scans = match run_scan(case, &mut rep, move |s| { s.keep_reads = true; os::mem_cap(cap); }) { Some(s) => s, None => return rep };
    let h = case.get("cfg").get("hash").uint() as usize;
    let s = sim();
    let sc = &scans[0];
    if sc.panic { rep.fail("panic", "the scan panicked".into()); }
    let roots: Vec<Vec<u8>> = case.get("cfg").get("roots").items().iter().map(|r| r.bytes()).collect();
    for (p, l) in located(&sc.out.data) {
        if l.starts_with(b"/") { continue; }
        let f: Vec<&[u8]> = l[2..l.len() - 1].split(|c| *c == b' ').collect();
        if f.len() < 3 || f[1] == b"s" { continue; }
        let size: u64 = std::str::from_utf8(f[2]).ok().and_then(|x| x.parse().ok()).unwrap_or(0);
        let want_n = size / BLOCK as u64 + (size % BLOCK as u64 != 0) as u64;
        if f.len() as u64 - 3 != want_n { rep.fail("block-count", format!("{}: size {} but {} digests", show(&p), size, f.len() - 3)); continue; }
        // the bytes some descriptor of that file delivered, in order
        let mut ok = false;
        let mut best = 0;
        for o in &s.ofds {
            if !roots.iter().any(|r| { let mut q = b"/".to_vec(); q.extend_from_slice(r); q.extend_from_slice(&p); q == o.path }) || o.opath || s.ino[o.ino].kind != Kind::File { continue; }
            best = best.max(o.got.len());
            if (o.got.len() as u64) < size { continue; }
            let d: Vec<String> = o.got[..size as usize].chunks(BLOCK).map(|c| model::hex(&model::hash(h, c))).collect();
            if d.iter().map(|x| x.as_bytes()).eq(f[3..].iter().copied()) { ok = true; break; }
        }
        if !ok { rep.fail("size-not-digested", format!("{}: recorded size {} with {} digests, but only {} bytes were delivered or the digests do not cover exactly them", show(&p), size, f.len() - 3, best)); }
    }
    match &sc.res {
        Ok(()) => {
            rep.probe("scan succeeded");
            let lines = parse_lines(&sc.out.data);
            let body: Vec<u8> = lines[..lines.len().max(1) - 1].concat();
            let foot = format!("{}\n", model::hex(&model::hash(h, &body)));
            if lines.last().map(|l| l.to_vec()) != Some(foot.into_bytes()) { rep.fail("wrong-footer", "footer does not match the lines above".into()); }
        }
        Err(_) => rep.probe("scan returned an error"),
    }
    if s.junk_reads > 64 + 4 * count_nodes(case.get("fs").items()) { rep.fail("work-unbounded", format!("{} reads at end of file", s.junk_reads)); }
    rep.nontrivial = s.muts_done > 0 || s.ino.iter().any(|i| i.fake.is_some());
    rep.probe_n("fake size", s.ino.iter().filter(|i| i.fake.is_some()).count() as u64);
    let _ = (hash_bytes(0, b""), mix(0));
    rep
}

// ------------------------------------------------------------- C23

/// symlinks that lead somewhere: to directories and files in and outside the tree
fn aim_links(r: &mut Rng, d: &mut J) {
    let mut kids: Vec<J> = d.get("k").items().to_vec();
    for k in kids.iter_mut() {
        if k.get("t").str() == "l" && r.chance(2, 3) { k.set("to", J::s(*r.pick(&["/@sim/out", "/@sim/out/secret", "/@sim/out/sdir", "../out/secret", "../../out/sdir", "..", ".", "/@sim/out/pipe", "/@sim/r0"]))); }
        if k.get("t").str() == "d" { aim_links(r, k); }
    }
    d.set("k", J::Arr(kids));
}
pub fn gen_c23(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    let (mut fs, roots) = gen_roots(r, &mut o);
    if let J::Arr(a) = &mut fs {
        for d in a.iter_mut() {
            let name = d.get("n").bytes();
            if name == b"out" { let mut k = d.get("k").clone(); k.push(J::obj().with("n", J::s("pipe")).with("t", J::s("o")).with("o", J::s("fifo"))); d.set("k", k); continue; }
            let mut k = d.get("k").clone();
            for i in 0..r.us(3) { k.push(match r.below(3) {
                0 => J::obj().with("n", J::s(&format!("zl{}", i))).with("t", J::s("l")).with("to", J::s("x")),
                x => J::obj().with("n", J::s(&format!("zs{}", i))).with("t", J::s("o")).with("o", J::s(if x == 1 { "fifo" } else { "sock" })) }); }
            d.set("k", k);
            aim_links(r, d);
        }
    }
    let th = pick_threads(r);
    let mut c1 = cfg(roots.clone(), th, *r.pick(&[0, 1]));
    if r.chance(1, 3) { c1.set("queue", J::i(*r.pick(&[0, 1, 2, 16, NOLIMIT]))); }
    if r.chance(1, 8) { c1.set("progress", J::Bool(true)); }
    let mut io = gen_io(r);
    if r.chance(1, 2) { io.set("dt", J::i(r.seed())); }
    let mut c = base_case(fs.clone(), c1, io, gen_sched(r, th));
    match r.below(5) {
        0 | 1 => { for _ in 0..1 + r.us(3) { if let Some(f) = gen_fs_fault(r, &fs, &roots) { push_fault(&mut c, f); } } }
        2 => { let len = want(&c, c.get("cfg")).spec.len() as u64; push_fault(&mut c, gen_out_fault(r, "out", len)); }
        _ => {}
    }
    if r.chance(1, 8) { push_fault(&mut c, fdpath_fault()); }
    c
}
pub fn exec_c23(case: &J) -> Report {
    let mut rep = Report::default();
    let scans = match run_scan(case, &mut rep, |_| {}) { Some(s) => s, None => return rep };
    let s = sim();
    if let Some((what, p)) = s.wrote.first() { rep.fail("side-effect", format!("the scan {} {}", what, show(p))); }
    let roots: Vec<Vec<u8>> = case.get("cfg").get("roots").items().iter().map(|r| { let mut p = b"/".to_vec(); p.extend_from_slice(&r.bytes()); p }).collect();
    for o in &s.ofds {
        if o.opath && s.ino[o.ino].kind != Kind::Dir { continue; } // only the name
        let inside = roots.iter().any(|r| o.path == *r || (o.path.starts_with(r) && o.path.get(r.len()) == Some(&b'/')));
        if !inside { rep.fail("outside", format!("the scan opened {} outside the tree", show(&o.path))); }
    }
    let w = want(case, case.get("cfg"));
    if scans[0].res.is_ok() { check_full(&mut rep, &scans[0].out.data, &w, "index"); } else { rep.probe("scan failed"); }
    rep.probe_n("special file in the tree", s.ino.iter().filter(|i| matches!(i.kind, Kind::Fifo | Kind::Sock)).count() as u64);
    rep.probe_n("symlink in the tree", s.ino.iter().filter(|i| i.kind == Kind::Link).count() as u64);
    rep.nontrivial = s.ino.iter().any(|i| matches!(i.kind, Kind::Fifo | Kind::Sock | Kind::Link));
    rep
}
