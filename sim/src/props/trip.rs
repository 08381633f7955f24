//! C24: scan, parse, verify, emit again, extract the hash and merge, one on
//! the result of the other.
use std::ffi::OsStr;
use std::fs::File;
use std::io::Cursor;
use std::os::unix::ffi::OsStrExt;
use std::os::unix::io::{AsRawFd, FromRawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use dir_signature::v1::merge::MergedSignatures;
use dir_signature::v1::{Emitter, Entry, Parser};
use crate::json::J;
use crate::model::*;
use crate::os::{self, *};
use crate::props::read::reader;
use crate::props::scan::*;
use crate::report::*;
use crate::rng::Rng;

pub fn gen_c24(r: &mut Rng) -> J {
    let mut o = tree_opt(r, true);
    let (fs, roots) = gen_roots(r, &mut o);
    let th = pick_threads(r);
    let h = r.below(2);
    let mut c1 = J::obj().with("roots", roots).with("threads", J::i(th as i64)).with("hash", J::i(h as i64));
    if r.chance(1, 3) { c1.set("queue", J::i(*r.pick(&[0, 1, 2, 16, i64::MAX]))); }
    let mut all = Vec::new();
    let rs: Vec<J> = fs.items().iter().filter(|n| n.get("n").bytes().starts_with(b"r")).cloned().collect();
    all_nodes(&rs, b"", &mut all);
    let files: Vec<(Vec<u8>, i64)> = all.iter().filter(|x| x.1.get("t").str() == "f").map(|x| (x.0.clone(), x.1.get("s").uint() as i64)).collect();
    let (mut edits, mut late) = (J::arr(), J::arr());
    if !files.is_empty() {
        if r.chance(2, 3) { for _ in 0..1 + r.us(3) {
            let (p, sz) = r.pick(&files).clone();
            let e = J::obj().with("p", J::b(&p));
            edits.push(match r.below(6) {
                0 | 1 => e.with("do", J::s("truncate")).with("arg", J::i(*r.pick(&[0, sz / 2, sz - 1, sz - sz % 32768, sz - 32768]).max(&0))),
                2 | 3 => e.with("do", J::s("extend")).with("arg", J::i(sz + *r.pick(&[1, 2, 32767, 32768, 40000]))),
                4 => e.with("do", J::s("chmod")).with("arg", J::i(0o755)),
                _ => e.with("do", J::s("rewrite")).with("arg", J::i(r.range(1 << 41, 1 << 42) as i64)),
            });
        } }
        if r.chance(1, 3) { for _ in 0..1 + r.us(2) {
            let (p, sz) = r.pick(&files).clone();
            let op = if r.chance(1, 4) { "open" } else { "read" };
            late.push(J::obj().with("op", J::s(op)).with("path", J::b(&p)).with("nth", J::i(if op == "open" { 0 } else { r.below(2 + sz as u64 / 8192) as i64 }))
                .with("act", J::s("errno")).with("errno", J::i(*r.pick(&[libc::EIO, libc::EACCES, libc::ESTALE, libc::EISDIR, libc::ENOMEM]) as i64)));
        } }
    }
    let mut plan = J::obj();
    if r.chance(2, 3) { plan.set("frag", J::i(r.range(1, 1 << 40) as i64)); }
    if r.chance(1, 3) { plan.set("eintr", J::i(r.range(1, 1 << 40) as i64)); }
    let (io, sched) = (gen_io(r), gen_sched(r, th));
    base_case(fs, c1, io, sched).with("edits", edits).with("late", late).with("plan", plan).with("buf", J::i(*r.pick(&[0, 1, 7, 64, 8192])))
}

#[derive(Default)]
struct Trip { scan: Option<String>, out: Vec<u8>, bad: Vec<(&'static str, String)>, checks: Vec<(Vec<u8>, Result<bool, String>, bool)> }

pub fn exec_c24(case: &J) -> Report {
    let mut rep = Report::default();
    let res: Arc<Mutex<Option<Trip>>> = Arc::new(Mutex::new(None));
    let (r2, c) = (res.clone(), case.clone());
    let nodes = count_nodes(case.get("fs").items());
    let bytes = count_bytes(case.get("fs").items());
    let (end, s) = os::run(case, |s| {
        s.max_steps = 600_000 + 24_000 * nodes + bytes / 16 + case.get("cfg").get("threads").uint() * 3000;
        if s.reint != 0 || s.rsplit != 0 { s.max_steps += bytes * 80; }
    }, move || {
        let t = catch_unwind(AssertUnwindSafe(|| trip(&c)));
        let _b = Busy::new();
        if let Ok(t) = t { *r2.lock().unwrap() = Some(t); }
    }, 10);
    rep.absorb(&end, s);
    if rep.must_exit { return rep; }
    let t = match res.lock().unwrap().take() { Some(t) => t, None => { rep.fail("panic", "panicked".into()); return rep; } };
    if let Some(e) = t.scan { rep.fail("error-without-fault", format!("the scan failed with nothing wrong: {}", e)); return rep; }
    let w = want(case, case.get("cfg"));
    check_full(&mut rep, &t.out, &w, "index");
    for (k, m) in t.bad { rep.fail(k, m); }
    if rep.viol.is_some() { return rep; }
    // what is expected of each check
    let roots: Vec<Vec<u8>> = case.get("cfg").get("roots").items().iter().map(|r| { let mut p = b"/".to_vec(); p.extend_from_slice(&r.bytes()); p }).collect();
    let s = sim();
    let files: Vec<&E> = w.entries.iter().filter(|e| matches!(e, E::File { .. })).collect();
    if files.len() != t.checks.len() { rep.fail("lost-entry", format!("{} files in the tree, {} in the parsed index", files.len(), t.checks.len())); return rep; }
    for (e, (path, got, failed)) in files.iter().zip(&t.checks) {
        if e.path() != &path[..] { rep.fail("lost-entry", format!("{} instead of {}", show(path), show(e.path()))); return rep; }
        let mut same = true;
        for r in &roots {
            let mut full = r.clone(); full.extend_from_slice(path);
            let before = match find_node(case.get("fs").items(), &r[1..]).and_then(|n| find_at(n, &path[1..])) { Some(n) => n, None => continue };
            let now = match lookup(&full) { Some(i) => &s.ino[i], None => continue };
            let mut a = vec![0u8; before.get("s").uint() as usize]; content_at(before.get("c").int(), 0, &mut a);
            let mut b = vec![0u8; now.size as usize]; content_at(now.seed, 0, &mut b);
            same = a == b;
            break;
        }
        match got {
            Ok(true) if *failed => rep.fail("swallowed", format!("{} checks although it could not be read", show(path))),
            Ok(true) if !same => rep.fail("false-yes", format!("{} checks although its content was changed", show(path))),
            Ok(false) if same && !failed => rep.fail("false-no", format!("{} is unchanged but does not check", show(path))),
            Err(x) if !failed => rep.fail("error-without-fault", format!("checking {}: {}", show(path), x)),
            _ => {}
        }
        rep.probe(match got { Ok(true) => "check: yes", Ok(false) => "check: no", Err(_) => "check: error" });
    }
    rep.nontrivial = nodes > 5;
    rep
}
fn find_at<'a>(n: &'a J, path: &[u8]) -> Option<&'a J> {
    let (h, t) = match path.iter().position(|c| *c == b'/') { Some(i) => (&path[..i], Some(&path[i + 1..])), None => (path, None) };
    let k = n.get("k").items().iter().find(|k| k.get("n").bytes() == h)?;
    match t { None => Some(k), Some(t) => find_at(k, t) }
}

/// Open a file, in several steps if the path is longer than the kernel takes.
fn open_deep(full: &[u8]) -> std::io::Result<File> {
    if full.len() < 4000 { return File::open(OsStr::from_bytes(full)); }
    let (parts, n) = { let _b = Busy::new();
        let mut parts: Vec<Vec<u8>> = vec![Vec::new()];
        for c in full[1..].split(|b| *b == b'/') {
            if parts.last().unwrap().len() + c.len() > 3000 { parts.push(Vec::new()); }
            let l = parts.last_mut().unwrap();
            if !l.is_empty() { l.push(b'/'); }
            l.extend_from_slice(c);
        }
        parts[0].insert(0, b'/');
        let n = parts.len();
        for p in parts.iter_mut() { p.push(0); }
        (parts, n) };
    let mut at: Option<File> = None;
    for (i, p) in parts.iter().enumerate() {
        let fl = libc::O_RDONLY | libc::O_CLOEXEC | if i + 1 < n { libc::O_DIRECTORY | libc::O_PATH } else { 0 };
        let fd = unsafe { libc::openat(at.as_ref().map_or(libc::AT_FDCWD, |f| f.as_raw_fd()), p.as_ptr() as *const _, fl) };
        if fd < 0 { return Err(std::io::Error::last_os_error()); }
        at = Some(unsafe { File::from_raw_fd(fd) });
    }
    Ok(at.unwrap())
}

fn trip(c: &J) -> Trip {
    let mut t = Trip::default();
    let s = one_scan(c.get("cfg"), "out");
    if let Err(e) = &s.res { let _b = Busy::new(); t.scan = Some(format!("{} {}", e.variant, e.text)); return t; }
    let out = { let _b = Busy::new(); s.out.data.clone() };
    {
        // the world changes
        let _b = Busy::new();
        t.out = out.clone();
        for e in c.get("edits").items() { mutate(&Mut { op: String::new(), path: vec![], nth: 0, doit: e.get("do").str().into(), p: e.get("p").bytes(), arg: e.get("arg").clone(), done: false }); }
        sim().counts.clear();
        sim().faults = Sim::parse_faults(c.get("late"));
    }
    let plan = c.get("plan");
    let buf = c.get("buf").uint() as usize;
    let mut ents = Vec::new();
    match Parser::new(reader(&out, plan, buf)) {
        Ok(mut p) => for e in p.iter() { match e { Ok(e) => ents.push(e), Err(e) => { let _b = Busy::new(); t.bad.push(("rejected", format!("the index of a scan can not be parsed: {}", e))); return t; } } },
        Err(e) => { let _b = Busy::new(); t.bad.push(("rejected", format!("the index of a scan can not be parsed: {}", e))); return t; }
    }
    // every file against its entry
    let roots: Vec<Vec<u8>> = c.get("cfg").get("roots").items().iter().map(|r| r.bytes()).collect();
    for e in &ents {
        if let Entry::File { path, hashes, .. } = e {
            let (pb, full) = { let _b = Busy::new();
                let pb = path.as_os_str().as_bytes().to_vec();
                let rel = |r: &Vec<u8>| { let mut f = b"/".to_vec(); f.extend_from_slice(r); f.extend_from_slice(&pb); f };
                let r = roots.iter().find(|r| lookup(&rel(r)).is_some()).unwrap_or(&roots[0]);
                let mut full = b"/@sim".to_vec(); full.extend_from_slice(&rel(r)); (pb, full) };
            let used = |f: &[u8]| { let _b = Busy::new(); sim().faults.iter().any(|x| x.used > 0 && x.path == f[5..]) };
            let r = match open_deep(&full) { Ok(f) => hashes.check_file(f), Err(e) => Err(e) };
            let failed = used(&full);
            let _b = Busy::new();
            t.checks.push((pb, r.map_err(|e| e.to_string()), failed));
        }
    }
    // emitted again
    let h = htype(c.get("cfg").get("hash").int());
    let mut again = Vec::new();
    let r = (|| -> std::io::Result<()> {
        let mut em = Emitter::new(h, BLOCK as u64, &mut again)?;
        for e in &ents {
            match e {
                Entry::Dir(p) => em.start_dir(p)?,
                Entry::File { path, exe, size, hashes } => em.add_file(path.file_name().unwrap_or(OsStr::new("?")), *exe, *size, hashes)?,
                Entry::Link(p, to) => em.add_symlink(p.file_name().unwrap_or(OsStr::new("?")), to)?,
            }
        }
        em.finish()
    })();
    { let _b = Busy::new();
      if let Err(e) = r { t.bad.push(("error-without-fault", format!("emitting: {}", e))); }
      else if again != out { t.bad.push(("not-the-same", format!("emitted again: {}", diff(&again, &out)))); } }
    // the hash
    let g = dir_signature::get_hash(&mut Cursor::new(&out[..]));
    { let _b = Busy::new();
      let foot = String::from_utf8_lossy(&out[out.len().saturating_sub(65)..out.len().max(1) - 1]).into_owned();
      match g { Ok(x) => if hex(&x) != foot { t.bad.push(("wrong-hash", format!("hash {} of an index with footer {}", hex(&x), foot))); }, Err(e) => t.bad.push(("rejected", format!("no hash: {}", e))) } }
    // merged with itself
    let plain: Box<dyn crate::props::read::BufSeek> = { let _b = Busy::new(); Box::new(Cursor::new(out.clone())) };
    match (Parser::new(reader(&out, plan, buf)), Parser::new(plain)) {
        (Ok(a), Ok(b)) => {
            {
                match MergedSignatures::new(vec![(0usize, a), (1usize, b)]) {
                    Ok(mut m) => {
                        let mut n = 0;
                        for g in m.iter() {
                            let _b = Busy::new();
                            let ok = g.len() == 2 && *g[0].0 == 0 && *g[1].0 == 1 && n < ents.len() && g.iter().all(|x| matches!(&x.1, Ok(e) if *e == ents[n]));
                            if !ok { t.bad.push(("wrong-group", format!("group {} of the index merged with itself", n))); break; }
                            n += 1;
                        }
                        let _b = Busy::new();
                        if n != ents.len() && t.bad.is_empty() { t.bad.push(("wrong-group", format!("{} groups for {} entries", n, ents.len()))); }
                    }
                    Err(e) => { let _b = Busy::new(); t.bad.push(("rejected", format!("merging an index with itself: {}", e))); }
                }
            }
        }
        _ => { let _b = Busy::new(); t.bad.push(("rejected", "the index can not be parsed a second time".into())); }
    }
    t
}
