//! C10-C18: parser, iterator, merger, hash extraction, stream hashing and
//! emitter over simulated readers and writers.
use std::ffi::OsStr;
use std::io::{BufRead, BufReader};
use std::os::unix::ffi::OsStrExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};
use dir_signature::v1::merge::{FileMergeBuilder, MergedSignatures};
use dir_signature::v1::{Emitter, Entry, EntryKind, Hashes, Parser};
use crate::json::J;
use crate::model::{self, *};
use crate::os::{self, *};
use crate::props::scan::{htype, K_BLAKE3};
use crate::report::*;
use crate::rng::Rng;
use crate::streams::*;

/// Runs `f` as a simulated thread.
pub fn go<T: Send + 'static>(case: &J, rep: &mut Report, steps: u64, cap: i64, f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let res: Arc<Mutex<Option<T>>> = Arc::new(Mutex::new(None));
    let r2 = res.clone();
    let (end, s) = os::run(case, |s| { s.max_steps = steps; }, move || {
        os::mem_cap(cap);
        let v = catch_unwind(AssertUnwindSafe(f));
        let _b = Busy::new();
        if let Ok(v) = v { *r2.lock().unwrap() = Some(v); }
    }, 10);
    rep.absorb(&end, s);
    if rep.must_exit { return None; }
    let v = res.lock().unwrap().take();
    v
}
pub const NOCAP: i64 = 1 << 30;

#[derive(Debug, Clone, PartialEq)]
enum It { Ok(E), Err(String), None }

fn conv(e: &Entry) -> E {
    let b = |p: &Path| p.as_os_str().as_bytes().to_vec();
    match e {
        Entry::Dir(p) => E::Dir(b(p)),
        Entry::Link(p, t) => E::Link { path: b(p), to: b(t) },
        Entry::File { path, exe, size, hashes } => {
            let v: Vec<[u8; 32]> = hashes.iter().map(|h| { let mut d = [0u8; 32]; let n = h.len().min(32); d[..n].copy_from_slice(&h[..n]); d }).collect();
            E::File { path: b(path), exe: *exe, size: *size, hashes: v }
        }
    }
}
fn item<Er: std::fmt::Display>(x: Option<Result<Entry, Er>>) -> It {
    let _b = Busy::new();
    match x { None => It::None, Some(Ok(e)) => It::Ok(conv(&e)), Some(Err(e)) => It::Err(e.to_string()) }
}
fn brief(i: &It) -> String { match i { It::None => "the end".into(), It::Err(e) => format!("error \"{}\"", show(e.as_bytes())), It::Ok(e) => format!("entry \"{}\"", show(&line(e)[..line(e).len() - 1])) } }

pub trait BufSeek: BufRead + std::io::Seek {}
impl<T: BufRead + std::io::Seek> BufSeek for T {}
pub fn reader(data: &[u8], plan: &J, buf: usize) -> Box<dyn BufSeek> {
    let _b = Busy::new();
    let r = SimReader::new(data.to_vec(), plan);
    if buf == 0 { Box::new(r) } else { Box::new(BufReader::with_capacity(buf, r)) }
}

fn gen_plan(r: &mut Rng) -> J {
    let mut p = J::obj();
    if r.chance(4, 5) { p.set("frag", J::i(r.range(1, 1 << 40) as i64)); }
    if r.chance(1, 2) { p.set("eintr", J::i(r.range(1, 1 << 40) as i64)); }
    if r.chance(1, 6) { p.set("cap", J::i(r.range(1, 7) as i64)); }
    p
}
fn gen_buf(r: &mut Rng) -> i64 { *r.pick(&[0, 0, 1, 2, 3, 7, 16, 64, 65, 66, 100, 8192]) }
fn gen_block(r: &mut Rng) -> u64 { *r.pick(&[32768, 32768, 32768, 1, 7, 4096, 65536, 1 << 32, 1 << 33, 1 << 62, i64::MAX as u64]) }
fn gen_index(r: &mut Rng, n: usize) -> J {
    J::obj().with("tree", gen_list_tree(r, n)).with("block", J::i(gen_block(r) as i64)).with("hash", J::i(r.below(3) as i64))
}
fn gen_n(r: &mut Rng) -> usize { *r.pick(&[1, 2, 3, 5, 8, 12, 20]) }
struct Ix { h: usize, block: u64, es: Vec<E>, data: Vec<u8> }
fn index(c: &J) -> Ix {
    let (h, block) = (c.get("hash").uint() as usize % 3, c.get("block").uint().max(1));
    let es = list_entries(c.get("tree"), block);
    let data = encode(h, block, &es);
    Ix { h, block, es, data }
}
fn steps_for(n: usize) -> u64 { 100_000 + 400 * n as u64 }

// ------------------------------------------------------------- C10

/// path() and kind() of an entry tell what its fields say
fn accessors(e: &Entry) -> bool {
    let (p, d) = match e { Entry::Dir(p) => (p, true), Entry::File { path, .. } => (path, false), Entry::Link(p, _) => (p, false) };
    let k = e.kind();
    matches!(k, EntryKind::Dir(_)) == d && k.path() == &**p && e.path() == &**p && k.as_ref() == k
}

pub fn gen_c10(r: &mut Rng) -> J {
    let n = gen_n(r);
    let mut c = gen_index(r, n).with("plan", gen_plan(r)).with("buf", J::i(gen_buf(r))).with("sched", J::obj());
    if r.chance(1, 4) { let mut v = J::arr(); for _ in 0..1 + r.us(3) { v.push(J::i(r.us(n * 2 + 2) as i64)); } c.set("renew", v); }
    if r.chance(1, 8) { c.set("upper", J::Bool(true)); }
    if r.chance(1, 5) { let mut v = J::arr(); for _ in 0..1 + r.us(2) { v.push(J::i(r.us(n * 2 + 3) as i64)); } c.set("rewind", v); }
    c
}
/// the index as another writer makes it, with capital digits in the escapes
fn upper_escapes(h: usize, data: &[u8]) -> Vec<u8> {
    let start = data.iter().position(|c| *c == b'\n').unwrap() + 1;
    let mut d = data[..data.len() - 65].to_vec();
    let mut i = start;
    while i + 3 < d.len() { if d[i] == b'\\' && d[i + 1] == b'x' { d[i + 2].make_ascii_uppercase(); d[i + 3].make_ascii_uppercase(); i += 3; } i += 1; }
    let f = hash(h, &d[start..]);
    for b in f { d.extend_from_slice(format!("{:02x}", b).as_bytes()); }
    d.push(b'\n');
    d
}
pub fn exec_c10(c: &J) -> Report {
    let mut rep = Report::default();
    let mut ix = index(c);
    if c.get("upper").bool() { ix.data = upper_escapes(ix.h, &ix.data); rep.probe("escapes with capital digits"); }
    let (data, plan, buf) = (ix.data.clone(), c.get("plan").clone(), c.get("buf").uint() as usize);
    let (n, block, h) = (ix.es.len(), ix.block, ix.h);
    let rewind: Vec<usize> = c.get("rewind").items().iter().map(|k| k.uint() as usize).collect();
    if !rewind.is_empty() { rep.probe("rewound and parsed again"); }
    let renew: Vec<usize> = c.get("renew").items().iter().map(|k| k.uint() as usize).collect();
    let got = match go(c, &mut rep, steps_for(ix.data.len() * (1 + rewind.len())), NOCAP, move || {
        let mut p = match Parser::new(reader(&data, &plan, buf)) { Ok(p) => p, Err(e) => return Err(e.to_string()) };
        let hd = p.get_header();
        let head = (hd.get_version().to_string(), hd.get_hash_type().to_string(), hd.get_block_size());
        let mut items = Vec::new();
        let mut bad = Vec::new();
        // the reader is taken back, rewound and parsed again
        for k in &rewind {
            { let mut it = p.iter(); for _ in 0..*k { if it.next().is_none() { break; } } }
            let mut rd = p.into_reader();
            if rd.seek(std::io::SeekFrom::Start(0)).is_err() { return Err("seek".to_string()); }
            p = match Parser::new(rd) { Ok(p) => p, Err(e) => return Err(e.to_string()) };
        }
        {
            let mut it = p.iter();
            loop {
                if renew.contains(&items.len()) { drop(it); it = p.iter(); }
                let x = it.next();
                if let Some(Ok(Entry::File { hashes, .. })) = &x {
                    let _b = Busy::new();
                    let v: Vec<Vec<u8>> = hashes.iter().map(|h| h.to_vec()).collect();
                    if hashes.len() != v.len() || (0..v.len()).any(|i| hashes.get(i) != Some(&v[i][..])) || hashes.get(v.len()).is_some()
                        || hashes.block_size() != block || hashes.hash_type() != htype(h as i64) { bad.push("the digest list of an entry contradicts itself"); }
                }
                if let Some(Ok(e)) = &x { if !accessors(e) { bad.push("the accessors of an entry contradict its fields"); } }
                let i = item(x);
                let _b = Busy::new();
                let stop = !matches!(i, It::Ok(_)) || items.len() > n + 3;
                items.push(i);
                if stop { break; }
            }
            for _ in 0..4 { if !matches!(it.next(), None) { bad.push("an item after the end"); break; } }
        }
        Ok((head, items, bad))
    }) { Some(g) => g, None => return rep };
    let (head, items, bad) = match got { Ok(g) => g, Err(e) => { rep.fail("rejected", format!("a valid index is refused: {}", e)); return rep; } };
    if head != ("v1".to_string(), HASHES[ix.h].to_string(), ix.block) { rep.fail("wrong-header", format!("header {:?}", head)); }
    let mut want: Vec<It> = ix.es.iter().cloned().map(It::Ok).collect();
    want.push(It::None);
    if let Some(i) = (0..want.len().max(items.len())).find(|&i| want.get(i) != items.get(i)) {
        rep.fail("wrong-entry", format!("item {}: got {} want {}", i, items.get(i).map_or("nothing".into(), brief), want.get(i).map_or("nothing".into(), brief)));
    }
    if let Some(b) = bad.first() { rep.fail("wrong-end", b.to_string()); }
    kinds(&mut rep, &ix.es);
    rep.nontrivial = ix.es.len() > 1 && (c.get("plan").has("frag") || c.get("plan").has("eintr") || buf > 0);
    rep
}
fn kinds(rep: &mut Report, es: &[E]) {
    for e in es { match e { E::File { hashes, .. } => { if hashes.len() > 1 { rep.probe("entry of several blocks"); } if hashes.is_empty() { rep.probe("entry without blocks"); } } E::Link { .. } => rep.probe("symlink"), _ => {} } }
}

// ------------------------------------------------------------- C11

fn gen_cut(r: &mut Rng, data: &[u8]) -> i64 {
    let ls = line_starts(data);
    let n = data.len() as i64;
    (match r.below(8) { 0 => r.below(n as u64) as i64, 1 => n - 1, 2 => n - r.range(1, 67) as i64, 3 => n - 65, 4 => *r.pick(&ls) as i64, 5 => *r.pick(&ls) as i64 - 1, 6 => *r.pick(&ls) as i64 + 1, _ => r.below(n as u64) as i64 }).clamp(0, n - 1)
}
pub fn gen_c11(r: &mut Rng) -> J {
    let n = gen_n(r);
    let c = gen_index(r, n).with("plan", gen_plan(r)).with("buf", J::i(gen_buf(r))).with("sched", J::obj());
    let data = index(&c).data;
    let mut extras = J::arr();
    for _ in 0..if r.chance(1, 4) { 3 } else { 0 } {
        let x: Vec<u8> = match r.below(9) { 6 => r.pick(&[&b" "[..], b" \n", b"\r\n", b"\n\n", b"\t\n", b"\0", b"# \n", b"\x1a", b"\xef\xbb\xbf", b"  \n", b"/\n"]).to_vec(), 7 => { let o = r.range(1, 4) as i64; index(&gen_index(r, o as usize)).data }, 8 => vec![*r.pick(b"\n\0 \r\t"); *r.pick(&[2usize, 16, 512, 4096, 8192, 70_000])], 0 => b"\n".to_vec(), 1 => b"x".to_vec(), 2 => b"/zzz\n".to_vec(), 3 => data.clone(), 4 => data[data.len() - 65..].to_vec(), _ => vec![r.below(256) as u8; r.range(1, 5) as usize] };
        extras.push(J::b(&x));
    }
    if !extras.items().is_empty() { return c.with("extras", extras); }
    let mut cuts = J::arr();
    for _ in 0..6 { cuts.push(J::i(gen_cut(r, &data))); }
    c.with("cuts", cuts)
}
pub fn exec_c11(c: &J) -> Report {
    let mut rep = Report::default();
    let ix = index(c);
    let full = ix.data.clone();
    let mut datas: Vec<(String, Vec<u8>, bool)> = c.get("cuts").items().iter().map(|k| { let k = k.uint().min(full.len() as u64 - 1) as usize; (format!("cut at {} of {}", k, full.len()), full[..k].to_vec(), true) }).collect();
    for x in c.get("extras").items() { if x.bytes().is_empty() { continue; } let mut d = full.clone(); d.extend_from_slice(&x.bytes()); datas.push(("followed by further bytes".into(), d, false)); }
    let (plan, buf) = (c.get("plan").clone(), c.get("buf").uint() as usize);
    let n = ix.es.len();
    let dd = datas.clone();
    let got = match go(c, &mut rep, steps_for(full.len() * datas.len().max(1) * 3), NOCAP, move || {
        let mut out = Vec::new();
        for (_, d, cut) in &dd {
            let mut items = Vec::new();
            match Parser::new(reader(d, &plan, buf)) {
                Err(e) => items.push(It::Err(e.to_string())),
                Ok(mut p) => {
                    let mut it = p.iter();
                    let mut after = 0;
                    loop {
                        let i = item(it.next());
                        let _b = Busy::new();
                        if !matches!(i, It::Ok(_)) { after += 1; }
                        items.push(i);
                        if after > 4 || items.len() > n + 8 { break; }
                    }
                }
            }
            let h = if *cut { let mut r = { let _b = Busy::new(); SimReader::new(d.clone(), &plan) }; dir_signature::get_hash(&mut r).is_ok() } else { false };
            let _b = Busy::new();
            out.push((items, h));
        }
        out
    }) { Some(g) => g, None => return rep };
    for ((what, d, _), (items, h)) in datas.iter().zip(&got) {
        if *h { rep.fail("hash-of-torn", format!("{}: a hash is extracted", what)); }
        let mut k = 0;
        let mut erred = false;
        for i in items {
            match i {
                It::Ok(e) => {
                    // entries of the original, in order
                    match ix.es[k.min(n)..].iter().position(|x| x == e) { Some(p) if p == 0 || erred => k += p + 1, _ => { rep.fail("false-entry", format!("{}: {} after {} entries of the original", what, brief(i), k)); break; } }
                }
                It::Err(_) => erred = true,
                It::None => { if !erred { rep.fail("clean-end", format!("{}: the parser ends cleanly after {} entries", what, k)); } break; }
            }
        }
        if !erred { rep.fail("no-error", format!("{}: no error among {} items", what, items.len())); }
        // every whole line before the cut is an entry that must be there
        let whole = line_starts(&d[..d.len().min(full.len() - 65)]).len().saturating_sub(2);
        if erred && !matches!(items.first(), Some(It::Err(_))) && k < whole.min(n) { rep.fail("lost-entry", format!("{}: only {} of {} whole entries were returned", what, k, whole.min(n))); }
        if d.len() > full.len() - 65 && d.len() < full.len() { rep.probe("cut inside the footer"); }
    }
    rep.probe_n("cut", c.get("cuts").items().len() as u64);
    rep.nontrivial = n > 1;
    rep
}

// ------------------------------------------------------------- C12

fn damage(r: &mut Rng, d: &mut Vec<u8>) {
    for _ in 0..*r.pick(&[1, 1, 2, 3, 6]) {
        if d.is_empty() { return; }
        let ls = line_starts(d);
        let li = r.us(ls.len().max(2) - 1);
        let (a, b) = (ls[li].min(d.len()), ls.get(li + 1).copied().unwrap_or(d.len()));
        let put = |d: &mut Vec<u8>, from: &[u8], to: &[u8]| { if let Some(i) = d.windows(from.len()).position(|w| w == from) { d.splice(i..i + from.len(), to.iter().copied()); } };
        const BIG: [&[u8]; 12] = [b"0", b"18446744073709551615", b"18446744073709551614", b"9223372036854775807", b"1", b"4294967296", b"576460752303423488", b"18446744073709518848", b"-1", b"", b"00032768", b"99999999999999999999"];
        match r.below(21) {
            20 => {
                // a long piece that is no text, or characters of several bytes, in one field
                let mut f: Vec<usize> = vec![a];
                for i in a..b { if d[i] == b' ' { f.push(i + 1); } }
                let mut t: Vec<u8> = vec![b'f'; r.us(5)];
                let c: &[u8] = *r.pick(&[&b"\xff"[..], b"\xe2\x80\xa6", b"\xc3\xa9", b"\xf0\x9f\x98\x80", b"f\xff", b"f", b"\\xff", b"0\xc3\xa9"]);
                for _ in 0..r.us(150) { t.extend_from_slice(c); }
                let x = *r.pick(&f);
                let y = if r.chance(1, 2) { x } else { d[x..].iter().position(|c| *c == b' ' || *c == b'\n').map_or(d.len(), |i| x + i) };
                d.splice(x..y, t);
            }
            19 => { let e = d.iter().position(|c| *c == b'\n').unwrap_or(d.len()); let h: Vec<u8> = if r.chance(1, 2) { r.pick(&BADHEAD).to_vec() } else { let i = r.us(e + 1); d[..i].to_vec() }; d.splice(0..e, h); }
            14..=18 => {
                // one field of a line
                const T: [&[u8]; 34] = [b"\\x", b"\\x4", b"\\x4g", b"\\xg4", b"\\x41", b"\\x4A", b"\\X41", b"\\", b"\\\\", b"\\x5cx4", b"\\x41\\x", b"\\x20\\x2", b"\\xff\\xf", b"\\x00", b"\\x2f", b"\\x0a", b"\xff", b"\xc3", b"\xe2\x82", b"\xf0\x9f", b"\xed\xa0\x80",
                    b" ", b"  ", b"\t", b"\0", b"\r", b"0", b"f", b"x", b"s", b"18446744073709551616", b"-0", b"+1", b"0x1"];
                let e = if d[a..b].ends_with(b"\n") { b - 1 } else { b };
                let mut f = vec![a];
                for i in a..e { if d[i] == b' ' { f.push(i + 1); } }
                let k = if r.chance(1, 3) { r.us(f.len().min(4)) } else { r.us(f.len()) };
                let (x, y) = (f[k], f.get(k + 1).map_or(e, |z| z - 1));
                let t: Vec<u8> = r.pick(&T).to_vec();
                match r.below(7) {
                    0 => { d.splice(y..y, t); }
                    1 => { d.splice(x..x, t); }
                    2 => { d.splice(x..y, t); }
                    3 => { let i = x + r.us(y - x + 1); d.splice(i..i, t); }
                    4 => { let i = x + r.us(y - x + 1); d.drain(i..y); }
                    5 => { let z = d[x..y].to_vec(); let k2 = f[r.us(f.len())]; d.splice(k2..k2, z.into_iter().chain(Some(b' '))); }
                    _ => for c in d[x..y].iter_mut() { *c = c.to_ascii_uppercase(); }
                }
            }
            0 => { let i = r.us(d.len()); d[i] ^= 1 << r.below(8); }
            1 => { let i = r.us(d.len()); d[i] = r.below(256) as u8; }
            2 => { let i = r.us(d.len()); let n = (1 + r.us(70)).min(d.len() - i); d.drain(i..i + n); }
            3 => { let i = r.us(d.len()); let n = (1 + r.us(70)).min(d.len() - i); let x = d[i..i + n].to_vec(); let j = r.us(d.len()); d.splice(j..j, x); }
            4 => { let x = d[a..b].to_vec(); d.splice(a..a, x); }
            5 => { d.drain(a..b); }
            6 => { let x: Vec<u8> = d.drain(a..b).collect(); let ls = line_starts(d); let p = (*r.pick(&ls)).min(d.len()); d.splice(p..p, x); }
            7 => { let v: &[u8] = *r.pick(&BIG); if let Some(i) = d.windows(11).position(|w| w == b"block_size=") { let e = d[i..].iter().position(|c| *c == b'\n').map_or(d.len(), |x| i + x); d.splice(i + 11..e, v.iter().copied()); } }
            8 => {
                // the size of a file line
                let f: Vec<usize> = (a..b.saturating_sub(3)).filter(|&i| &d[i..i + 3] == b" f " || &d[i..i + 3] == b" x ").collect();
                if let Some(&i) = f.last() { let e = d[i + 3..].iter().position(|c| *c == b' ' || *c == b'\n').map_or(d.len(), |x| i + 3 + x); let v: &[u8] = *r.pick(&BIG); d.splice(i + 3..e, v.iter().copied()); }
            }
            9 => {
                // the name of a file line
                if d[a..].starts_with(b"  ") { let e = d[a + 2..].iter().position(|c| *c == b' ' || *c == b'\n').map_or(d.len(), |x| a + 2 + x);
                    let v: &[u8] = *r.pick(&[&b".."[..], b".", b"", b"/", b"a/b", b"/a", b"\\x2f", b"\\x2e\\x2e", b"a\\x2fb", b"\\x00", b"\\x2fetc", b"\xff", b"a/..", b"..\\x2f", b"x/", b"\\x0a", b"\\", b"\\x"]); d.splice(a + 2..e, v.iter().copied()); }
            }
            10 => { if d[a..].starts_with(b"/") { let v: &[u8] = *r.pick(&[&b""[..], b"//", b"/./a", b"/..", b"a", b"/a//b", b"/\\x2f", b"/a/../b", b"\\x2f", b"/ "]); let e = b.saturating_sub(1).max(a); d.splice(a..e, v.iter().copied()); } }
            11 => { let ins: &[u8] = *r.pick(&[&b"\n"[..], b"\n\n", b"  a f 0\n", b"  \n", b" \n", b"/\n", b"  a s b\n", b"  a s\n", b"  a\n", b"\r\n", b"\0", b"  a f\n", b"  /a/b f 0\n", b"  .. s x\n"]); d.splice(a..a, ins.iter().copied()); }
            12 => { put(d, b"sha512/256", *r.pick(&[&b"blake3/256"[..], b"blake2b/256", b"md5", b""])); }
            _ => { let n = r.us(d.len() + 1); d.truncate(n); }
        }
    }
}
pub fn gen_target(r: &mut Rng, es: &[E]) -> J {
    let (mut p, mut dir) = if es.is_empty() || r.chance(1, 12) { (b"/".to_vec(), true) } else { let e = r.pick(es); (e.path().to_vec(), e.is_dir()) };
    match r.below(8) {
        0 => p.extend_from_slice(b"a"),
        1 => { if p.len() > 1 { p.push(b'/'); } p.extend_from_slice(&gen_tname(r)); }
        2 => dir = !dir,
        3 => { if let Some(i) = p.iter().rposition(|c| *c == b'/') { p.truncate(i.max(1)); } dir = true; }
        4 => { let n = p.len(); if n > 2 && p[n - 2] != b'/' { p.pop(); if p.ends_with(b"/") { p.pop(); } } }
        _ => {}
    }
    if p.is_empty() || p[0] != b'/' { p = b"/".to_vec(); }
    if p.ends_with(b"/") && p.len() > 1 { p.pop(); }
    let last = p.rsplit(|c| *c == b'/').next().unwrap().to_vec();
    if last == b"." || last == b".." { p.push(b'q'); }
    if p == b"/" { dir = true; }
    J::Arr(vec![J::s("a"), J::i(dir as i64), J::b(&p)])
}
fn gen_tname(r: &mut Rng) -> Vec<u8> { let n = gen_name(r); if n == b"." || n == b".." { b"q".to_vec() } else { n } }
fn gen_ops(r: &mut Rng, es: &[E], sorted: bool) -> J {
    let mut v = Vec::new();
    let pn = *r.pick(&[0, 2, 5, 8, 10]);
    let renew = r.chance(1, 4);
    let most = if es.len() > 10_000 { *r.pick(&[3, 3, 40, 4000]) } else { es.len() * 2 + 4 };
    for _ in 0..1 + r.us(most) { if renew && r.chance(1, 5) { v.push(J::Arr(vec![J::s("i")])); } v.push(if r.below(10) < pn { J::Arr(vec![J::s("n")]) } else { gen_target(r, es) }); }
    if sorted { let mut t: Vec<J> = v.iter().filter(|o| o.at(0).str() == "a").cloned().collect(); t.sort_by_key(|o| key(&o.at(2).bytes(), o.at(1).bool())); let mut i = 0; for o in v.iter_mut() { if o.at(0).str() == "a" { *o = t[i].clone(); i += 1; } } }
    J::Arr(v)
}
pub fn gen_c12(r: &mut Rng) -> J {
    let mut datas = J::arr();
    let m = if r.chance(1, 3) { 1 + r.us(3) } else { 1 };
    let n0 = gen_n(r);
    let base = gen_index(r, n0);
    let mut es = Vec::new();
    for _ in 0..m {
        let mut b = base.clone();
        if r.chance(1, 2) { let n = gen_n(r); b.set("tree", gen_list_tree(r, n)); }
        let ix = index(&b);
        es = ix.es;
        let mut d = ix.data;
        if r.chance(1, 30) { d = (0..r.us(200)).map(|_| r.below(256) as u8).collect(); } else if r.chance(9, 10) { damage(r, &mut d); }
        datas.push(J::b(&d));
    }
    let ops = gen_ops(r, &es, false);
    J::obj().with("datas", datas).with("ops", ops).with("plan", gen_plan(r)).with("buf", J::i(gen_buf(r))).with("sched", J::obj())
}
fn do_kind(o: &J) -> EntryKind<PathBuf> {
    let _b = Busy::new();
    let p = PathBuf::from(OsStr::from_bytes(&o.at(2).bytes()));
    if o.at(1).bool() { EntryKind::Dir(p) } else { EntryKind::File(p) }
}
pub fn exec_c12(c: &J) -> Report {
    let mut rep = Report::default();
    let datas: Vec<Vec<u8>> = c.get("datas").items().iter().map(|d| d.bytes()).collect();
    let total: usize = datas.iter().map(|d| d.len()).sum();
    let ops: Vec<J> = c.get("ops").items().to_vec();
    let (plan, buf) = (c.get("plan").clone(), c.get("buf").uint() as usize);
    let cap = (1 << 20) + 64 * total as i64 + 16 * buf as i64;
    let dd = datas.clone();
    let got = match go(c, &mut rep, 200_000 + 4000 * (total + ops.len()) as u64, cap, move || {
        let mut bad: Vec<(&'static str, String)> = Vec::new();
        let mut stats = (0u64, 0u64, 0u64);
        for d in &dd {
            let limit = d.iter().filter(|x| **x == b'\n').count() + 5;
            // plain iteration
            if let Ok(mut p) = Parser::new(reader(d, &plan, buf)) {
                let mut it = p.iter();
                let mut n = 0;
                while let Some(x) = it.next() {
                    n += 1;
                    match x { Ok(_) => stats.0 += 1, Err(_) => stats.1 += 1 }
                    if n > limit { let _b = Busy::new(); bad.push(("endless", format!("more than {} items from {} lines", n - 1, limit - 5))); break; }
                }
            } else { stats.2 += 1; }
            // histories of next and advance
            if let Ok(mut p) = Parser::new(reader(d, &plan, buf)) {
                let mut it = p.iter();
                let (mut n, mut errs) = (0, 0);
                for o in &ops {
                    if o.at(0).str() == "i" { drop(it); it = p.iter(); continue; }
                    let x = if o.at(0).str() == "n" { it.next() } else { let k = do_kind(o); it.advance(&k) };
                    match x { Some(Err(_)) => errs += 1, Some(Ok(_)) => n += 1, None => {} }
                }
                if n + errs > limit { let _b = Busy::new(); bad.push(("endless", format!("{} entries and {} errors from {} lines", n, errs, limit - 5))); }
                // a search that never ends in something: keep asking for the greatest path
                let last = { let _b = Busy::new(); EntryKind::File(PathBuf::from(OsStr::from_bytes(b"/\xff\xff\xff/\xff\xff\xff/\xff"))) };
                let mut k = 0;
                while let Some(x) = it.advance(&last) { k += 1; if k > limit { let _b = Busy::new(); bad.push(("endless", format!("seeking gives an item {} times for {} lines, the last {}", k, limit - 5, if x.is_ok() { "an entry" } else { "an error" }))); break; } }
            }
            let mut sr = { let _b = Busy::new(); SimReader::new(d.clone(), &plan) };
            let _ = dir_signature::get_hash(&mut sr);
        }
        // all of them merged
        for round in 0..2 {
            let mut ps = Vec::new();
            let mut limit = 5;
            for (i, d) in dd.iter().enumerate() {
                if let Ok(p) = Parser::new(reader(d, &plan, buf)) { ps.push((i, p)); limit += d.iter().filter(|x| **x == b'\n').count() + 5; }
            }
            if let Ok(mut m) = MergedSignatures::new(ps) {
                let mut it = m.iter();
                if round == 1 { for o in &ops { if o.at(0).str() == "i" { drop(it); it = m.iter(); } else if o.at(0).str() == "n" { it.next(); } else { let k = do_kind(o); it.advance(&k); } } }
                let mut n = 0;
                while let Some(v) = it.next() { n += v.len().max(1); if n > limit { let _b = Busy::new(); bad.push(("endless", format!("merging gives more than {} items", limit))); break; } }
            }
        }
        (bad, stats)
    }) { Some(g) => g, None => return rep };
    for (k, m) in got.0 { rep.fail(k, m); }
    rep.probe_n("entry accepted", got.1 .0); rep.probe_n("line refused", got.1 .1); rep.probe_n("header refused", got.1 .2);
    rep.nontrivial = got.1 .1 > 0 || got.1 .0 > 1;
    rep
}

// ------------------------------------------------------------- C13

/// an error of a reader: from the operating system or of a wrapping reader
fn rerr(r: &mut Rng) -> i64 { *r.pick(&[libc::EIO, libc::EIO, libc::ESTALE, libc::EISDIR, libc::ENOMEM, libc::ETIMEDOUT, libc::EAGAIN, libc::ECONNRESET, libc::EPIPE, libc::ENOENT, libc::EACCES, libc::EINVAL, libc::EBADF, libc::EBADMSG, libc::ENODATA, libc::ENXIO, -1, -1, -1, -1, -2, -3, -5, -6, -8]) as i64 }
fn gen_rfaults(r: &mut Rng, len: usize, ls: &[usize]) -> J {
    let mut f = J::arr();
    for _ in 0..*r.pick(&[1, 1, 1, 2, 3]) {
        let off = match r.below(6) { 0 => *r.pick(ls), 1 => len, 2 => len - r.range(0, 66).min(len as u64) as usize, 3 => ls.get(1).copied().unwrap_or(0) + r.us(10), _ => r.us(len + 1) }.min(len);
        f.push(J::obj().with("off", J::i(off as i64)).with("errno", J::i(rerr(r))).with("times", J::i(*r.pick(&[1, 1, 2, 3, 1 << 40]))));
    }
    f
}
pub fn gen_c13(r: &mut Rng) -> J {
    let n = gen_n(r);
    let c = gen_index(r, n);
    let ix = index(&c);
    let mut plan = gen_plan(r);
    plan.set("faults", gen_rfaults(r, ix.data.len(), &line_starts(&ix.data)));
    let mut ops = J::arr();
    for _ in 0..r.us(6) { ops.push(if r.chance(1, 3) { J::Arr(vec![J::s("i")]) } else if r.chance(1, 2) { J::Arr(vec![J::s("n")]) } else { gen_target(r, &ix.es) }); }
    c.with("plan", plan).with("buf", J::i(gen_buf(r))).with("ops", ops).with("pre", J::i(if r.chance(1, 3) { r.us(n + 2) as i64 } else { -1 })).with("mid", J::i(if r.chance(1, 6) { r.us(n + 2) as i64 } else { -1 })).with("sched", J::obj())
}
pub fn exec_c13(c: &J) -> Report {
    let mut rep = Report::default();
    let ix = index(c);
    let (data, plan, buf) = (ix.data.clone(), c.get("plan").clone(), c.get("buf").uint() as usize);
    let n = ix.es.len();
    let ops: Vec<J> = c.get("ops").items().to_vec();
    // seek (instead of plainly iterating) to this entry first
    let pre = { let k = c.get("pre").int_or(-1); if k >= 0 && (k as usize) < n { let e = &ix.es[k as usize]; Some(J::Arr(vec![J::s("a"), J::i(e.is_dir() as i64), J::b(e.path())])) } else { None } };
    let mid = c.get("mid").int_or(-1);
    let got = match go(c, &mut rep, steps_for(ix.data.len()), NOCAP, move || {
        let hard = || { let _b = Busy::new(); sim().fired_errnos.len() };
        let mut items: Vec<(It, usize)> = Vec::new();
        let mut p = match Parser::new(reader(&data, &plan, buf)) { Ok(p) => p, Err(e) => { let i = It::Err(e.to_string()); return (vec![(i, hard())], 1); } };
        let mut its = 1;
        {
            let mut it = p.iter();
            let mut push = |x: It| { let h = hard(); let _b = Busy::new(); items.push((x, h)); };
            if let Some(o) = &pre { let k = do_kind(o); let i = item(it.advance(&k)); if i != It::None { push(i); } else if hard() > 0 { push(It::None); } }
            let mut first_end = false;
            let mut seen = 0;
            // a new iterator in the middle goes on with later entries or refuses them
            if mid >= 0 { while seen < mid { let i = item(it.next()); seen += 1; let stop = !matches!(i, It::Ok(_)); push(i); if stop { break; } } drop(it); it = p.iter(); }
            for _ in 0..n + 4 { let i = item(it.next()); let stop = !matches!(i, It::Ok(_)); push(i); if stop { first_end = true; break; } }
            if first_end {
                for o in &ops {
                    match o.at(0).str() {
                        "i" => { drop(it); it = p.iter(); its += 1; }
                        "n" => { push(item(it.next())); }
                        _ => { let k = do_kind(o); let i = item(it.advance(&k)); if i != It::None { push(i); } }
                    }
                }
                for _ in 0..n + 4 { let i = item(it.next()); let stop = matches!(i, It::None); push(i); if stop { break; } }
            }
        }
        (items, its)
    }) { Some(g) => g, None => return rep };
    let (items, _its) = got;
    let mut pos = 0;
    let mut reported = 0;
    let fired = sim().fired_errnos.clone();
    for (i, (x, hard)) in items.iter().enumerate() {
        match x {
            It::Ok(e) => match ix.es[pos.min(n)..].iter().position(|y| y == e) {
                Some(p) => pos += p + 1,
                None => { rep.fail("false-entry", format!("item {}: {} is no entry later than entry {} of the index ({} read errors so far)", i, brief(x), pos, hard)); break; }
            },
            It::Err(t) => { reported += 1; if fired.iter().take(*hard).any(|f| t.contains(&mkerr(f.0).to_string())) { rep.probe("error carries the cause"); }
                if *hard == 0 { rep.fail("error-without-fault", format!("item {}: error \"{}\" although no read failed", i, t)); }
                else if reported == 1 && !fired.iter().take(*hard).any(|f| t.contains(&format!("os error {}", f.0)) || t.contains(&mkerr(f.0).to_string())) { rep.fail("wrong-error", format!("the first error \"{}\" does not name the read error {:?}", show(t.as_bytes()), fired)); } }
            It::None => {
                // (a new iterator goes on where the other one was)
                if *hard > 0 && reported == 0 { rep.fail("unreported", format!("item {}: the end, although a read failed with {} and no error was returned", i, errname(fired[0].0))); break; }
                if *hard == 0 && pos < n && c.get("pre").int_or(-1) < 0 { rep.fail("early-end", format!("the end after {} of {} entries", pos, n)); break; }
            }
        }
    }
    if fired.is_empty() && reported > 0 { rep.fail("error-without-fault", "an error although no read failed".into()); }
    rep.probe_n("entries after an error", items.iter().skip_while(|x| !matches!(x.0, It::Err(_))).filter(|x| matches!(x.0, It::Ok(_))).count() as u64);
    rep.nontrivial = !fired.is_empty();
    rep
}

// ------------------------------------------------------------- C14

const BAD: [&[u8]; 41] = [b"  .. f 0", b"  . f 0", b"  a/b f 0", b"  /q f 0", b"\tq f 0", b" q f 0", b"  q  f 0", b"  q f  0", b"  q d 0", b"  q F 0", b"  q ff 0", b"  q f 0x0", b"  q f 1_0", b"  q f 0 0",
    b"  q f 1 aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa0", b"  q f 1 aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"  q f 1 aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaag", b"  q f 1 aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", b"DIRSIGNATURE.v1 sha512/256 block_size=32768", b"  q f \xff", b"  q \xff\xfe 0", b"\xff\xfe", b"\xef\xbb\xbf/q",
    b"  q f 1 \xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9\xc3\xa9", b"  q x -0",
    b"  q", b"  q z 5", b"  q f x", b"  q f -1", b"  q f 99999999999999999999", b"garbage", b"/q r", b"  q s a b", b"  q f 0 zz", b"  q f", b"   q f 0", b" ", b"", b"  q f 5 zz", b"12345", b"  q x 0 q"];

pub fn gen_c14(r: &mut Rng) -> J {
    let n = gen_n(r);
    let mut c = gen_index(r, n);
    // more lines than a small integer counts
    if r.chance(1, 6000) { let mut t = c.get("tree").clone(); push_kid(&mut t, J::obj().with("n", J::s("-w")).with("t", J::s("w")).with("s", J::i(66_000)).with("o", J::s(""))); c.set("tree", t); }
    let es = index(&c).es;
    let mut bad = J::arr();
    if r.chance(1, 2) { for _ in 0..1 + r.us(3) { let at = if r.chance(1, 3) { es.len() - r.us(es.len().min(4) + 1) } else { r.us(es.len() + 1) }; bad.push(J::Arr(vec![J::i(at as i64), J::b(*r.pick(&BAD))])); } }
    let sorted = r.chance(2, 3);
    let ops = gen_ops(r, &es, sorted);
    let mut c = c.with("bad", bad).with("ops", ops).with("plan", gen_plan(r)).with("buf", J::i(gen_buf(r))).with("sched", J::obj());
    if r.chance(1, 40) { c.set("head", J::b(*r.pick(&BADHEAD))); }
    c
}
const BADHEAD: [&[u8]; 14] = [b"DIRSIGNATURE.v1 sha512/256 block_size", b"DIRSIGNATURE.v1 sha512/256 block_size=", b"DIRSIGNATURE.v1 sha512/256 =32768", b"DIRSIGNATURE.v1 sha512/256 ",b"", b"DIRSIGNATURE", b"DIRSIGNATURE.v2 sha512/256 block_size=32768", b"DIRSIGNATURE.v1", b"DIRSIGNATURE.v1 sha512/256", b"DIRSIGNATURE.v1 md5 block_size=32768",
    b"DIRSIGNATURE.v1 sha512/256 block_size=0", b"DIRSIGNATURE.v1 sha512/256 block_size=big", b"dirsignature.v1 sha512/256 block_size=32768", b"DIRSIGNATURE.v1 sha512/256 size=32768"];
enum L { Ent(E), Bad }
pub fn exec_c14(c: &J) -> Report {
    let mut rep = Report::default();
    let ix = index(c);
    if c.has("head") {
        let mut data = c.get("head").bytes();
        data.extend_from_slice(&ix.data[header(ix.h, ix.block).len() - 1..]);
        let (plan, buf) = (c.get("plan").clone(), c.get("buf").uint() as usize);
        let got = match go(c, &mut rep, steps_for(data.len()), NOCAP, move || match Parser::new(reader(&data, &plan, buf)) { Ok(_) => None, Err(e) => { let _b = Busy::new(); Some(e.to_string()) } }) { Some(g) => g, None => return rep };
        match got {
            None => rep.fail("accepted", format!("a first line \"{}\" is accepted", show(&c.get("head").bytes()))),
            Some(t) => if !t.contains("line 1:") { rep.fail("wrong-line-number", format!("the first line is malformed, the error is \"{}\"", t)); }
        }
        rep.probe("malformed first line");
        return rep;
    }
    // the file: bad lines inserted before entry i
    let mut lines: Vec<L> = Vec::new();
    let mut data = header(ix.h, ix.block);
    let mut badn = 0;
    for i in 0..=ix.es.len() {
        for b in c.get("bad").items() { if b.at(0).uint() as usize == i { data.extend_from_slice(&b.at(1).bytes()); data.push(b'\n'); lines.push(L::Bad); badn += 1; } }
        if let Some(e) = ix.es.get(i) { data.extend_from_slice(&line(e)); lines.push(L::Ent(e.clone())); }
    }
    data.extend_from_slice(&ix.data[ix.data.len() - 65..]);
    let mut ops: Vec<J> = c.get("ops").items().to_vec();
    for _ in 0..lines.len() + 2 { ops.push(J::Arr(vec![J::s("n")])); } // and then to the end
    // what the model says
    let mut cur = 0;
    let mut want: Vec<It> = Vec::new();
    let at = |i: usize| It::Err(format!("{}", i + 2));
    for o in &ops {
        if o.at(0).str() == "i" { want.push(It::None); continue; } // a new iterator goes on where the other one was
        if o.at(0).str() == "n" {
            want.push(match lines.get(cur) { None => It::None, Some(L::Bad) => at(cur), Some(L::Ent(e)) => It::Ok(e.clone()) });
            if cur < lines.len() { cur += 1; }
        } else {
            let k = key(&o.at(2).bytes(), o.at(1).bool());
            loop {
                match lines.get(cur) {
                    None => { want.push(It::None); break; }
                    Some(L::Bad) => { want.push(at(cur)); cur += 1; break; }
                    Some(L::Ent(e)) => match e.key().cmp(&k) {
                        std::cmp::Ordering::Less => cur += 1,
                        std::cmp::Ordering::Greater => { want.push(It::None); break; }
                        std::cmp::Ordering::Equal => { want.push(It::Ok(e.clone())); cur += 1; break; }
                    }
                }
            }
        }
    }
    let mut order: Vec<(Vec<u8>, bool)> = c.get("ops").items().iter().filter(|o| o.at(0).str() == "a").take(10).map(|o| (o.at(2).bytes(), o.at(1).bool())).collect();
    order.extend(ix.es.iter().take(10).map(|e| (e.path().to_vec(), e.is_dir())));
    let (d2, plan, buf, ops2) = (data.clone(), c.get("plan").clone(), c.get("buf").uint() as usize, ops.clone());
    let got = match go(c, &mut rep, steps_for(data.len() * 2) + 200 * ops.len() as u64, NOCAP, move || {
        let mut p = match Parser::new(reader(&d2, &plan, buf)) { Ok(p) => p, Err(e) => return Err(e.to_string()) };
        let mut it = p.iter();
        let mut v = Vec::new();
        for o in &ops2 { if o.at(0).str() == "i" { drop(it); it = p.iter(); let _b = Busy::new(); v.push(It::None); continue; } let i = if o.at(0).str() == "n" { item(it.next()) } else { let k = do_kind(o); item(it.advance(&k)) }; let _b = Busy::new(); v.push(i); }
        // the order by which callers compare paths is the order of the list
        let ks: Vec<EntryKind<PathBuf>> = order.iter().map(|(p, d)| { let _b = Busy::new(); do_kind(&J::Arr(vec![J::s("a"), J::i(*d as i64), J::b(p)])) }).collect();
        for (i, a) in ks.iter().enumerate() {
            for (j, b) in ks.iter().enumerate() {
                let c = { let _b = Busy::new(); key(&order[i].0, order[i].1).cmp(&key(&order[j].0, order[j].1)) };
                let same = a.cmp(b) == c && a.partial_cmp(b) == Some(c) && a.as_ref().cmp(&b.as_ref()) == c && (a.cloned() == *b) == c.is_eq() && (a < b) == c.is_lt();
                if !same { let _b = Busy::new(); return Err(format!("{} {} and {} {} compare as {:?}, in an index as {:?}", if order[i].1 { "directory" } else { "file" }, show(&order[i].0), if order[j].1 { "directory" } else { "file" }, show(&order[j].0), a.cmp(b), c)); }
            }
        }
        Ok(v)
    }) { Some(g) => g, None => return rep };
    let got = match got { Ok(g) => g, Err(e) => { rep.fail(if e.contains(" compare as ") { "wrong-order" } else { "rejected" }, e); return rep; } };
    for i in 0..want.len() {
        let same = match (&got[i], &want[i]) { (It::Err(t), It::Err(n)) => line_no(t).map_or(false, |x| x.to_string() == *n), (a, b) => a == b };
        if !same {
            let w = if let It::Err(n) = &want[i] { format!("an error at line {}", n) } else { brief(&want[i]) };
            let class = if let (It::Err(_), It::Err(_)) = (&got[i], &want[i]) { "wrong-line-number" } else { "wrong-answer" };
            let o = &ops[i];
            rep.fail(class, format!("call {} ({} {}): got {} want {}", i, if o.at(0).str() == "n" { "next" } else { "advance" }, show(&o.at(2).bytes()), brief(&got[i]), w));
            break;
        }
        if i < c.get("ops").items().len() && ops[i].at(0).str() == "a" { rep.probe(match want[i] { It::Ok(_) => "advance: found", It::None => "advance: absent", It::Err(_) => "advance: malformed line" }); }
    }
    rep.probe_n("malformed line", badn);
    rep.nontrivial = c.get("ops").items().len() > 1 && ix.es.len() > 1;
    rep
}
fn line_no(t: &str) -> Option<u64> { let i = t.find("line ")?; t[i + 5..].chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse().ok() }

// ------------------------------------------------------------- C15

pub fn gen_c15(r: &mut Rng) -> J {
    let mut n = gen_n(r);
    let mut k = *r.pick(&[1, 2, 2, 3, 4]);
    // no input at all, or very many
    if r.chance(1, 40) { k = *r.pick(&[0, 0, 6, 9, 17, 33, 40, 65, 70, 130]); n = n.min(3); }
    let base = if k > 4 { let mut o = TreeOpt { budget: n, depth: 2, special: false, kin: None }; let mut t = gen_dir(r, b"r", &mut o, 0); small(&mut t); t } else { gen_list_tree(r, n) };
    let mut ins = J::arr();
    let (h, b) = (r.below(3) as i64, gen_block(r) as i64);
    let mut all = Vec::new();
    for _ in 0..k {
        let mut t = base.clone();
        thin(r, &mut t);
        if r.chance(1, 4) { let m = if k > 4 { 2 } else { gen_n(r) }; t = gen_list_tree(r, m); }
        let mut i = J::obj().with("tree", t).with("block", J::i(b)).with("hash", J::i(h));
        let ix = index(&i);
        all.extend(ix.es.iter().cloned());
        let mut plan = gen_plan(r);
        match r.below(7) {
            0 => { let f = gen_rfaults(r, ix.data.len(), &line_starts(&ix.data)); let mut f1 = f.at(0).clone(); f1.set("times", J::i(1 << 40)); let hl = header(h as usize, b as u64).len() as i64; if f1.get("off").int() < hl + 1 { f1.set("off", J::i(hl + 1)); } plan.set("faults", J::Arr(vec![f1])); }
            1 => { let hl = header(h as usize, b as u64).len() as i64; i.set("cut", J::i(gen_cut(r, &ix.data).max(hl))); }
            _ => {}
        }
        i.set("plan", plan);
        ins.push(i);
    }
    if r.chance(1, 12) && k > 1 {
        if let J::Arr(a) = &mut ins { let j = r.us(a.len()); if r.chance(1, 2) { a[j].set("hash", J::i((h + 1) % 3)); } else { a[j].set("block", J::i(if b == 7 { 8 } else { 7 })); } }
    }
    let sorted = r.chance(2, 3);
    let ops = gen_ops(r, &all, sorted);
    let mut c = J::obj().with("ins", ins).with("ops", ops).with("buf", J::i(gen_buf(r))).with("sched", J::obj());
    if r.chance(1, 4) {
        c.set("files", J::Bool(true));
        if k > 1 && r.chance(1, 5) {
            // one file under several base paths
            let (i, j) = (r.us(k as usize), r.us(k as usize));
            if let J::Arr(a) = &mut c.get("ins").clone() { a[i] = a[j].clone(); if i != j { a[i].set("same", J::i(j as i64)); } c.set("ins", J::Arr(a.clone())); }
        } else if k > 0 && r.chance(1, 2) {
            let i = r.us(k as usize);
            let errno = *r.pick(&[libc::EIO, libc::EACCES, libc::ENOENT, libc::ESTALE, libc::EMFILE, libc::ENOMEM]) as i64;
            let f = J::obj().with("path", J::s(&format!("/ix{}", i))).with("act", J::s("errno")).with("errno", J::i(errno));
            let f = if r.chance(1, 3) { f.with("op", J::s("open")).with("nth", J::i(0)) } else { f.with("op", J::s("read")).with("nth", J::i(*r.pick(&[0, 1, 1, 2, 3, 5, 8]))).with("from", J::Bool(true)) };
            c.set("faults", J::Arr(vec![f]));
        }
    }
    c
}
/// files of at most one block
fn small(t: &mut J) {
    if t.get("t").str() == "f" { let s = t.get("s").int() % 2; t.set("s", J::i(s)); }
    if let J::Obj(o) = t { for e in o.iter_mut() { if e.0 == "k" { if let J::Arr(a) = &mut e.1 { for x in a.iter_mut() { small(x); } } } } }
}
/// drop some entries and change some others
fn thin(r: &mut Rng, t: &mut J) {
    let mut keep = Vec::new();
    for k in t.get("k").items() { if r.chance(1, 5) { continue; } let mut k = k.clone(); if k.get("t").str() == "f" && r.chance(1, 5) { k.set("c", J::i(r.range(1, 1 << 38) as i64)); } if k.get("t").str() == "d" { thin(r, &mut k); } keep.push(k); }
    t.set("k", J::Arr(keep));
}
/// the file that input `i` is read from
fn same(ins: &[J], datas: &[Vec<u8>], i: usize) -> usize {
    if !ins[i].has("same") { return i; }
    let j = ins[i].get("same").uint() as usize;
    if j < ins.len() && !ins[j].has("same") && datas[i] == datas[j] { j } else { i }
}
pub fn exec_c15(c: &J) -> Report {
    let mut rep = Report::default();
    let ins: Vec<J> = c.get("ins").items().to_vec();
    let ixs: Vec<Ix> = ins.iter().map(index).collect();
    let mismatch = ixs.iter().any(|x| x.h != ixs[0].h || x.block != ixs[0].block);
    let mut datas: Vec<Vec<u8>> = ixs.iter().map(|x| x.data.clone()).collect();
    // entries that can be read before the failure, and whether it fails
    let mut lists: Vec<(Vec<E>, bool)> = Vec::new();
    for (i, x) in ixs.iter().enumerate() {
        let hl = header(x.h, x.block).len();
        let mut stop = usize::MAX;
        if ins[i].has("cut") { let k = (ins[i].get("cut").uint() as usize).clamp(hl, x.data.len() - 1); datas[i].truncate(k); stop = k; }
        let files = c.get("files").bool();
        if !files { for f in ins[i].get("plan").get("faults").items() { let o = f.get("off").uint() as usize; if o > hl { stop = stop.min(o); } } }
        let ls = line_starts(&x.data);
        // entry j is line j+1; it is whole if its end is not past the stop
        let es: Vec<E> = x.es.iter().enumerate().filter(|(j, _)| ls[j + 2] <= stop).map(|(_, e)| e.clone()).collect();
        lists.push((es, stop <= x.data.len()));
    }
    let mut ops: Vec<J> = c.get("ops").items().to_vec();
    let left: usize = lists.iter().map(|l| l.0.len() + 2).sum();
    for _ in 0..left + 2 { ops.push(J::Arr(vec![J::s("n")])); }
    let (buf, files) = (c.get("buf").uint() as usize, c.get("files").bool());
    let from: Vec<usize> = (0..ins.len()).map(|i| if c.get("faults").items().is_empty() { same(&ins, &datas, i) } else { i }).collect();
    if files && from.iter().enumerate().any(|(i, f)| i != *f) { rep.probe("one file several times"); }
    let (d2, ins2, ops2) = (datas.clone(), ins.clone(), ops.clone());
    let total: usize = datas.iter().map(|d| d.len()).sum();
    let mut case = c.clone();
    if files {
        let nodes: Vec<J> = datas.iter().enumerate().map(|(i, d)| J::obj().with("n", J::s(&format!("ix{}", i))).with("t", J::s("f")).with("data", J::b(d))).collect();
        case.set("fs", J::Arr(nodes));
        case.set("io", J::obj().with("rs", J::i(9)).with("ri", J::i(11)));
    }
    let got = match go(&case, &mut rep, steps_for(total * 3) + 400 * (ops.len() * ins.len()) as u64, NOCAP, move || {
        fn drive<R: BufRead, K: Fn(&Kx) -> usize, Kx>(m: Result<MergedSignatures<Kx, R>, dir_signature::v1::merge::MergeError>, ops: &[J], kf: K) -> Result<Vec<Option<Vec<(usize, It)>>>, String> {
            let mut m = match m { Ok(m) => m, Err(e) => return Err(e.to_string()) };
            let mut it = m.iter();
            let mut out = Vec::new();
            for o in ops {
                if o.at(0).str() == "i" { drop(it); it = m.iter(); let _b = Busy::new(); out.push(None); continue; }
                let v = if o.at(0).str() == "n" { it.next() } else { let k = do_kind(o); Some(it.advance(&k)) };
                let _b = Busy::new();
                out.push(v.map(|v| v.into_iter().map(|(k, x)| (kf(k), item(Some(x)))).collect()));
            }
            Ok(out)
        }
        if files {
            let mut b = FileMergeBuilder::new();
            for i in 0..d2.len() { b.add(format!("{}", i), format!("/@sim/ix{}", from[i])); }
            drive(b.finalize(), &ops2, |k: &PathBuf| k.to_string_lossy().parse().unwrap_or(999))
        } else {
            let mut ps = Vec::new();
            for (i, d) in d2.iter().enumerate() {
                match Parser::new(reader(d, ins2[i].get("plan"), buf)) { Ok(p) => ps.push((i, p)), Err(e) => return Err(format!("input {}: {}", i, e)) }
            }
            drive(MergedSignatures::new(ps), &ops2, |k: &usize| *k)
        }
    }) { Some(g) => g, None => return rep };
    rep.nontrivial = ins.len() > 1;
    if files { rep.probe("inputs are files"); }
    let fired = sim().fired_errnos.clone();
    let opened_bad = fired.iter().any(|f| f.1 == "open");
    let mut header_bad = false;
    if let Some(f) = fired.iter().find(|f| f.1 == "read") {
        // the input fails where its last good read ended
        let path = c.get("faults").at(0).get("path").bytes();
        let i = (0..ins.len()).find(|i| path == format!("/ix{}", i).into_bytes()).unwrap_or(0);
        let stop = sim().ofds.iter().find(|o| o.path == path).map_or(0, |o| o.pos as usize);
        header_bad = stop < header(ixs[i].h, ixs[i].block).len();
        let ls = line_starts(&ixs[i].data);
        lists[i] = (ixs[i].es.iter().enumerate().filter(|(j, _)| ls[j + 2] <= stop.min(datas[i].len())).map(|(_, e)| e.clone()).collect(), true);
        rep.probe(&format!("file read fails {}", if header_bad { "in the header" } else { "later" }));
        let _ = f;
    }
    let got = match got {
        Err(e) => {
            if opened_bad || header_bad {
                rep.probe("unreadable input refused");
                if !mismatch && !fired.iter().any(|f| e.contains(&mkerr(f.0).to_string())) { rep.fail("wrong-error", format!("an input failed with {} but the error is \"{}\"", errname(fired[0].0), e)); }
            }
            else if mismatch { rep.probe("mismatch refused"); } else { rep.fail("rejected", format!("mergeable inputs are refused: {}", e)); }
            return rep;
        }
        Ok(g) => g,
    };
    if opened_bad || header_bad { rep.fail("swallowed", format!("inputs are merged although one of them failed with {} when it was opened", errname(fired[0].0))); return rep; }
    if mismatch { rep.fail("mismatch-accepted", "inputs with different hash types or block sizes are merged".into()); return rep; }
    let mut cur = vec![0usize; lists.len()];
    let mut reported = vec![0u32; lists.len()];
    for (ci, (o, g)) in ops.iter().zip(&got).enumerate() {
        let mut want: Vec<(usize, E)> = Vec::new();
        if o.at(0).str() == "i" { continue; }
        let next = o.at(0).str() == "n";
        if next {
            let min = (0..lists.len()).filter_map(|i| lists[i].0.get(cur[i]).map(|e| e.key())).min();
            if let Some(m) = min { for i in 0..lists.len() { if let Some(e) = lists[i].0.get(cur[i]) { if e.key() == m { want.push((i, e.clone())); cur[i] += 1; } } } }
        } else {
            let k = key(&o.at(2).bytes(), o.at(1).bool());
            for i in 0..lists.len() {
                while lists[i].0.get(cur[i]).map_or(false, |e| e.key() < k) { cur[i] += 1; }
                if let Some(e) = lists[i].0.get(cur[i]) { if e.key() == k { want.push((i, e.clone())); cur[i] += 1; } }
            }
        }
        let name = format!("call {} ({} {})", ci, if next { "next" } else { "advance" }, show(&o.at(2).bytes()));
        let empty = Vec::new();
        let g2 = g.as_ref().unwrap_or(&empty);
        let mut oks = Vec::new();
        if let Some(w) = g2.windows(2).find(|w| w[0].0 >= w[1].0) { rep.fail("row-order", format!("{}: input {} comes before input {}", name, w[0].0, w[1].0)); return rep; }
        for (i, x) in g2 {
            match x {
                It::Ok(e) => oks.push((*i, e.clone())),
                It::Err(t) => {
                    if *i >= lists.len() || !lists[*i].1 { rep.fail("foreign-error", format!("{}: error \"{}\" attributed to input {} which does not fail", name, t, i)); return rep; }
                    reported[*i] += 1;
                    if reported[*i] > 1 { rep.fail("error-repeated", format!("{}: the failure of input {} is returned again", name, i)); return rep; }
                    if cur[*i] < lists[*i].0.len() { rep.fail("error-early", format!("{}: the failure of input {} is returned before its entry {} of {}", name, i, cur[*i], lists[*i].0.len())); return rep; }
                }
                It::None => {}
            }
        }
        if !next {
            for i in 0..lists.len() {
                if lists[i].1 && reported[i] == 0 && cur[i] == lists[i].0.len() && !want.iter().any(|w| w.0 == i) { rep.fail("unreported", format!("{}: reaches the failure of input {} but does not return it", name, i)); return rep; }
            }
        }
        if oks != want {
            rep.fail("wrong-group", format!("{}: got {:?} want {:?}", name, oks.iter().map(|x| (x.0, show(x.1.path()))).collect::<Vec<_>>(), want.iter().map(|x| (x.0, show(x.1.path()))).collect::<Vec<_>>()));
            return rep;
        }
        if next && g.is_none() {
            for i in 0..lists.len() { if lists[i].1 && reported[i] == 0 { rep.fail("unreported", format!("{}: the end, but the failure of input {} was never returned", name, i)); return rep; } }
        }
        if next && want.is_empty() && g2.is_empty() && g.is_some() { rep.fail("empty-group", format!("{}: an empty group", name)); return rep; }
        if want.len() > 1 { rep.probe("group of several inputs"); }
    }
    for i in 0..lists.len() { if lists[i].1 { rep.probe("failing input"); if reported[i] == 0 { rep.fail("unreported", format!("the failure of input {} was never returned", i)); } } }
    rep
}

// ------------------------------------------------------------- C16

pub fn gen_c16(r: &mut Rng) -> J {
    let block = *r.pick(&[32768u64, 32768, 1, 2, 7, 64, 1000, 8192, 65536]);
    // blocks no stream is as long as
    let block = if r.chance(1, 12) { *r.pick(&[1u64 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 100, 1 << 40, 1 << 62, i64::MAX as u64]) } else { block };
    let many = block <= 1000 && r.chance(1, 6);
    let n = if block > 1 << 30 { *r.pick(&[0, 1, 2, 100, 101, 5000, 40000]) } else if many { block * r.range(5, 300) + *r.pick(&[0, 0, 1, block - 1]) } else { match r.below(10) { 0 => 0, 1 => block, 2 => block * r.range(1, 4), 3 => block - 1, 4 => block + 1, 5 => r.below(block * 3 + 1), _ => r.below(block.min(200) * 4 + 1) } }.min(300_000);
    // more blocks than two bytes count
    let (block, n) = if r.chance(1, 5000) { let b = r.range(1, 2); (b, b * 65536 + r.range(0, 3) * b - r.range(0, 1)) } else { (block, n) };
    let mut c = J::obj().with("hash", J::i(*r.pick(&[0, 0, 1, 1, 2]))).with("block", J::i(block as i64)).with("s", J::i(n as i64)).with("c", J::i(if r.chance(1, 8) { 0 } else { r.range(1, 1 << 40) as i64 }));
    let mut plan = gen_plan(r);
    if n > 20_000 { plan.set("frag", J::i(r.range(1, 1 << 30) as i64 | 3)); plan.set("cap", J::i(1 << 20)); }
    let mut len = n;
    c.set("mode", J::s(if r.chance(1, 2) { "hash" } else { "check" }));
    if c.get("mode").str() == "check" {
        match r.below(11) {
            0 | 1 => {}
            9 | 10 if n > block => { let k = (n + block - 1) / block; c.set("swap", J::Arr(vec![J::i(r.below(k) as i64), J::i(r.below(k) as i64)])); }
            2 if n > 0 => c.set("flip", J::i(r.below(n) as i64)),
            3 if n > 0 => { let k = *r.pick(&[1, n, n / 2, block.min(n)]); len = n - k.min(n); }
            4 | 5 => { len = n + if block > 1 << 30 { *r.pick(&[1, 2, 100]) } else { *r.pick(&[1, 2, block, block - 1, block + 1, 2 * block]) }; }
            6 if n > 0 => { len = n - n % block; if len == n { len = n - block; } }
            _ => {}
        }
        c.set("len", J::i(len as i64));
        // where the digests come from
        c.set("src", J::s(if r.chance(2, 3) { "index" } else { "hash" }));
    }
    if r.chance(1, 4) {
        let mut f = J::arr();
        for _ in 0..1 + r.us(2) { f.push(J::obj().with("off", J::i(*r.pick(&[r.clone().below(len + 1), len, len - len % block])as i64)).with("errno", J::i(rerr(r))).with("times", J::i(*r.pick(&[1, 1, 1 << 40])))); }
        plan.set("faults", f);
    }
    c.with("plan", plan).with("sched", J::obj())
}
/// more bytes than four bytes count
pub fn gen_huge(r: &mut Rng, check: bool) -> J {
    let n = (1u64 << 32) + r.range(1, 100_000);
    J::obj().with("huge", J::Bool(true)).with("hash", J::i(r.below(2) as i64)).with("block", J::i(*r.pick(&[32768, 65536, 1 << 20]))).with("s", J::i(n as i64))
        .with("len", J::i((n + *r.pick(&[0, 0, 1])) as i64)).with("mode", J::s(if check { "check" } else { "hash" })).with("sched", J::obj())
}
/// `left` zeros
struct Zeros(u64, u64);
impl std::io::Read for Zeros {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let _b = Busy::new();
        event(0x4eae, false);
        self.1 += 1;
        if self.1 % 1000 == 7 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = (b.len() as u64).min(self.0).min(if self.1 % 500 == 3 { 1000 } else { 1 << 20 }) as usize;
        for x in b[..n].iter_mut() { *x = 0; }
        self.0 -= n as u64;
        Ok(n)
    }
}
fn exec_huge(c: &J) -> Report {
    let mut rep = Report::default();
    let (h, block, n, len) = (c.get("hash").uint() as usize % 2, c.get("block").uint().max(1), c.get("s").uint(), c.get("len").uint());
    let spec = model::zero_digests(h, n, block);
    let check = c.get("mode").str() == "check";
    let ixd = encode(h, block, &[E::Dir(b"/".to_vec()), E::File { path: b"/f".to_vec(), exe: false, size: n, hashes: spec.clone() }]);
    let got = match go(c, &mut rep, n, NOCAP, move || -> Result<(Option<bool>, u64, Vec<Vec<u8>>), String> {
        if !check { return Hashes::hash_file(htype(h as i64), block, Zeros(n, 0)).map(|(n, hs)| (None, n, hs.iter().map(|x| x.to_vec()).collect())).map_err(|e| e.to_string()); }
        let mut p = Parser::new(&ixd[..]).map_err(|e| e.to_string())?;
        match p.iter().nth(1) {
            Some(Ok(Entry::File { hashes, size, .. })) => hashes.check_file(Zeros(len, 0)).map(|v| (Some(v), size, Vec::new())).map_err(|e| e.to_string()),
            x => Err(format!("{:?}", x)),
        }
    }) { Some(g) => g, None => return rep };
    match got {
        Err(e) => rep.fail("error-without-fault", e),
        Ok((v, size, hs)) => {
            if size != n { rep.fail("wrong-size", format!("{} bytes are counted as {}", n, size)); }
            match v {
                None => if hs.len() != spec.len() || hs.iter().zip(&spec).any(|(a, b)| a[..] != b[..]) { rep.fail("wrong-digests", format!("{} digests for {} bytes in blocks of {} (want {})", hs.len(), n, block, spec.len())); },
                Some(v) => if v != (n == len) { rep.fail(if v { "false-yes" } else { "false-no" }, format!("check_file says {} for {} zeros, indexed are {}", v, len, n)); },
            }
        }
    }
    rep.probe("more than 4 GiB");
    rep.nontrivial = true;
    rep
}
/// what a hasher that is never reset makes of `data`
fn cumulative_yes(data: &[u8], block: usize, want: &[[u8; 32]]) -> bool {
    data.len() <= want.len() * block && want.iter().enumerate().all(|(i, w)| model::hash(2, &data[..data.len().min((i + 1) * block)])[..] == w[..])
}
pub fn exec_c16(c: &J) -> Report {
    if c.has("huge") { return exec_huge(c); }
    let mut rep = Report::default();
    let h = c.get("hash").uint() as usize % 3;
    let block = c.get("block").uint().max(1);
    let n = c.get("s").uint() as usize;
    let mut orig = vec![0u8; n];
    content_at(c.get("c").int(), 0, &mut orig);
    let check = c.get("mode").str() == "check";
    let mut data = orig.clone();
    if check {
        let len = c.get("len").int_or(n as i64).max(0) as usize;
        let mut d = vec![0u8; len];
        content_at(c.get("c").int(), 0, &mut d);
        if c.has("swap") {
            // two blocks in each other's place
            let (i, j, b) = (c.get("swap").at(0).uint() as usize, c.get("swap").at(1).uint() as usize, block as usize);
            let (i, j) = (i.min(j), i.max(j));
            if i < j && j * b < d.len() { let e = ((j + 1) * b).min(d.len()); let x = d[j * b..e].to_vec(); let l = x.len(); let y = d[i * b..i * b + l].to_vec(); d[j * b..e].copy_from_slice(&y); d[i * b..i * b + l].copy_from_slice(&x); }
        }
        if c.has("flip") { let k = c.get("flip").uint() as usize; if k < d.len() { d[k] ^= 1; } }
        data = d;
    }
    let spec = block_digests(h, &orig, block as usize, Quirk::Spec, &mut H::new(h));
    let quirk = block_digests(h, &orig, block as usize, Quirk::PerFile, &mut H::new(h));
    let same = data == orig;
    let entry = E::File { path: b"/f".to_vec(), exe: false, size: n as u64, hashes: spec.clone() };
    let ixd = encode(h, block, &[E::Dir(b"/".to_vec()), entry]);
    let (plan, src) = (c.get("plan").clone(), c.get("src").str().to_string());
    let src2 = src.clone();
    let d2 = data.clone();
    let o2 = orig.clone();
    enum R { Hash(Result<(u64, Vec<Vec<u8>>), (Option<i32>, String)>), Check(Result<bool, (Option<i32>, String)>), Setup(String) }
    let got = match go(c, &mut rep, 400_000 + 60 * (n + data.len()) as u64, NOCAP, move || {
        let ei = |e: std::io::Error| (errcode(&e), e.to_string());
        let sr = { let _b = Busy::new(); SimReader::new(d2, &plan) };
        if !check {
            return R::Hash(Hashes::hash_file(htype(h as i64), block, sr).map(|(n, hs)| (n, hs.iter().map(|x| x.to_vec()).collect())).map_err(ei));
        }
        let hs = if src == "hash" {
            match Hashes::hash_file(htype(h as i64), block, &o2[..]) { Ok(x) => x.1, Err(e) => return R::Setup(e.to_string()) }
        } else {
            let mut p = match Parser::new(&ixd[..]) { Ok(p) => p, Err(e) => return R::Setup(e.to_string()) };
            match p.iter().nth(1) { Some(Ok(Entry::File { hashes, .. })) => hashes, x => return R::Setup(format!("{:?}", x)) }
        };
        R::Check(hs.check_file(sr).map_err(ei))
    }) { Some(g) => g, None => return rep };
    let fired = sim().fired_errnos.clone();
    match got {
        R::Setup(e) => rep.fail("rejected", e),
        R::Hash(Ok((sz, hs))) => {
            if !fired.is_empty() { rep.fail("swallowed", format!("hash_file succeeded although a read failed with {}", errname(fired[0].0))); }
            if sz != n as u64 { rep.fail("wrong-size", format!("hash_file says {} bytes, the stream has {}", sz, n)); }
            let eq = |w: &Vec<[u8; 32]>| hs.len() == w.len() && hs.iter().zip(w).all(|(a, b)| a[..] == b[..]);
            if !eq(&spec) { if h == 2 && eq(&quirk) { rep.known.push(K_BLAKE3.into()); } else { rep.fail("wrong-digests", format!("{} digests for {} bytes in blocks of {} (want {})", hs.len(), n, block, spec.len())); } }
            if n > 0 && n as u64 % block == 0 { rep.probe("whole number of blocks"); }
            if n == 0 { rep.probe("empty stream"); }
        }
        R::Hash(Err((raw, t))) => if !fired.iter().any(|f| Some(f.0) == raw) { rep.fail("error-without-fault", format!("hash_file: {} (faults {:?})", t, fired)); },
        R::Check(Ok(v)) => {
            if v && !fired.is_empty() { rep.fail("swallowed", format!("check_file says yes although a read failed with {}", errname(fired[0].0))); }
            else if v && !same && h == 2 && src2 != "hash" && cumulative_yes(&data, block as usize, &spec) { rep.known.push(K_BLAKE3.into()); }
            else if v && !same { rep.fail("false-yes", format!("check_file says yes for {} bytes that are not the {} indexed ones", data.len(), n)); }
            else if !v && same && fired.is_empty() {
                if h == 2 && spec != quirk && c.get("src").str() != "hash" { rep.known.push(K_BLAKE3.into()); } else { rep.fail("false-no", format!("check_file says no for the indexed content ({} bytes, block {})", n, block)); }
            }
            rep.probe(if v { "check: yes" } else { "check: no" });
        }
        R::Check(Err((raw, t))) => if !fired.iter().any(|f| Some(f.0) == raw) { rep.fail("error-without-fault", format!("check_file: {} (faults {:?})", t, fired)); },
    }
    rep.nontrivial = n > 0;
    rep
}

// ------------------------------------------------------------- C17

pub fn gen_c17(r: &mut Rng) -> J {
    let n = gen_n(r);
    let c = gen_index(r, n);
    let ix = index(&c);
    let mut plan = gen_plan(r);
    if r.chance(1, 2) {
        if r.chance(1, 4) { plan.set("seekfail", J::i(0)); plan.set("seekerr", J::i(*r.pick(&[libc::EIO, libc::ESPIPE, libc::EINVAL, -2, -7]) as i64)); } else {
            let mut f = J::arr();
            let len = ix.data.len();
            let off = match r.below(4) { 0 => r.us(33), 1 => len - 66, 2 => len - r.us(67), _ => r.us(len + 1) };
            f.push(J::obj().with("off", J::i(off as i64)).with("errno", J::i(rerr(r))).with("times", J::i(1)));
            plan.set("faults", f);
        }
    }
    let mut c = c.with("plan", plan).with("sched", J::obj());
    match r.below(6) {
        0 => { let k = gen_cut(r, &ix.data); c.set("cut", J::i(k)); }
        1 => { c.set("foot", J::Arr(vec![J::i(r.below(65) as i64), J::i(r.below(256) as i64)])); }
        2 if r.chance(1, 2) => { c.set("sig", J::Arr(vec![J::i(r.below(34) as i64), J::i(if r.chance(1, 2) { r.below(256) } else { *r.pick(b" 12x/") as u64 } as i64)])); }
        _ => {}
    }
    c
}
pub fn exec_c17(c: &J) -> Report {
    let mut rep = Report::default();
    let ix = index(c);
    let mut data = ix.data.clone();
    let n = data.len();
    let mut broken = false;
    let mut other: Option<Vec<u8>> = None;
    if c.has("cut") { data.truncate((c.get("cut").uint() as usize).min(n - 1)); broken = true; }
    if c.has("foot") {
        let (i, v) = (c.get("foot").at(0).uint() as usize % 65, c.get("foot").at(1).int() as u8);
        data[n - 65 + i] = v;
        let f = &data[n - 65..n - 1];
        // whatever the footer line now is: its bytes if it is hexadecimal
        if data[n - 1] == b'\n' && f.iter().all(|c| c.is_ascii_hexdigit()) { other = Some((0..32).map(|i| u8::from_str_radix(std::str::from_utf8(&f[2 * i..2 * i + 2]).unwrap(), 16).unwrap()).collect()); } else { broken = true; }
    }
    // the first line is not that of an index any more (what follows the hash type does not matter)
    let mut any = false;
    if c.has("sig") {
        let i = c.get("sig").at(0).uint() as usize % data.len().max(1);
        let hl = 16 + HASHES[ix.h].len() + 1;
        if i < data.len() && data[i] != c.get("sig").at(1).int() as u8 { data[i] = c.get("sig").at(1).int() as u8; if i < hl { broken = true; rep.probe("signature damaged"); } else if i < 40 { any = true; } }
    }
    let plan = c.get("plan").clone();
    let d2 = data.clone();
    let got = match go(c, &mut rep, steps_for(n), NOCAP, move || {
        let mut sr = { let _b = Busy::new(); SimReader::new(d2, &plan) };
        dir_signature::get_hash(&mut sr).map_err(|e| (errcode(&e), e.to_string()))
    }) { Some(g) => g, None => return rep };
    let fired = sim().fired_errnos.clone();
    let want = other.unwrap_or_else(|| (0..32).map(|i| u8::from_str_radix(std::str::from_utf8(&ix.data[n - 65 + 2 * i..n - 63 + 2 * i]).unwrap(), 16).unwrap()).collect());
    match got {
        Ok(h) => {
            if !fired.is_empty() { rep.fail("swallowed", format!("a hash although the reader failed with {}", errname(fired[0].0))); }
            else if broken { rep.fail("hash-of-torn", "a hash of something that has no footer".into()); }
            else if h != want { rep.fail("wrong-hash", format!("got {} want {}", model::hex(&h), model::hex(&want))); }
        }
        Err((raw, t)) => {
            if fired.is_empty() { if !broken && !any { rep.fail("error-without-fault", format!("a complete index is refused: {}", t)); } }
            else if !fired.iter().any(|f| Some(f.0) == raw) && !(broken && raw.is_none()) { rep.fail("wrong-error", format!("the reader failed with {} but the error is {}", errname(fired[0].0), t)); }
        }
    }
    rep.nontrivial = c.get("plan").has("frag") || !fired.is_empty() || broken;
    rep
}

// ------------------------------------------------------------- C18

pub fn gen_c18(r: &mut Rng) -> J {
    let n = gen_n(r);
    let c = gen_index(r, n);
    let len = index(&c).data.len() as u64;
    let mut f = J::arr();
    if r.chance(3, 5) { f.push(crate::props::scan::gen_out_fault(r, "out", len)); }
    if r.chance(1, 2) { crate::props::scan::gen_intr_writes(r, &mut f, "out", len); }
    let mut io = J::obj();
    if r.chance(2, 3) { io.set("ws", J::i(r.seed())); }
    c.with("faults", f).with("io", io).with("sched", J::obj())
}
pub fn exec_c18(c: &J) -> Report {
    let mut rep = Report::default();
    let ix = index(c);
    let (h, block, es, data) = (ix.h, ix.block, ix.es.clone(), ix.data.clone());
    let got = match go(c, &mut rep, steps_for(ix.data.len() * 2), NOCAP, move || {
        // the entries, as the library itself hands them out
        let mut ents = Vec::new();
        match Parser::new(&data[..]) {
            Ok(mut p) => for e in p.iter() { match e { Ok(e) => ents.push(e), Err(e) => return Err(e.to_string()) } },
            Err(e) => return Err(e.to_string()),
        }
        let mut w = SimWriter::new("out");
        let mut res: Vec<(String, bool, Option<(Option<i32>, std::io::ErrorKind, String)>)> = Vec::new();
        {
            let wp: *mut SimWriter = &mut w;
            let wc = wp as *const SimWriter; let failed = move || unsafe { (*wc).failed() };
            fn note(name: &str, f: bool, r: std::io::Result<()>) -> (String, bool, Option<(Option<i32>, std::io::ErrorKind, String)>) { let _b = Busy::new(); (name.to_string(), f, r.err().map(|e| (errcode(&e), e.kind(), e.to_string()))) }
            let e = Emitter::new(htype(h as i64), block, unsafe { &mut *wp });
            match e {
                Err(e) => { let n = note("new", failed(), Err(e)); res.push(n); }
                Ok(mut em) => {
                    let n = note("new", failed(), Ok(())); res.push(n);
                    let mut ok = true;
                    for (i, e) in ents.iter().enumerate() {
                        let r = match e {
                            Entry::Dir(p) => em.start_dir(p),
                            Entry::File { path, exe, size, hashes } => em.add_file(path.file_name().unwrap_or(OsStr::new("?")), *exe, *size, hashes),
                            Entry::Link(p, t) => em.add_symlink(p.file_name().unwrap_or(OsStr::new("?")), t),
                        };
                        let bad = r.is_err();
                        let n = note(&format!("entry {}", i), failed(), r); res.push(n);
                        if bad { ok = false; break; }
                    }
                    if ok { let r = em.finish(); let n = note("finish", failed(), r); res.push(n); }
                }
            }
        }
        let _b = Busy::new();
        Ok((ents.len(), res, w.data.clone(), w.hard.clone(), w.zero, w.after_err))
    }) { Some(g) => g, None => return rep };
    let (n, res, out, hard, zero, after) = match got { Ok(g) => g, Err(e) => { rep.fail("rejected", e); return rep; } };
    if n != es.len() { rep.fail("rejected", "the index to emit could not be read".into()); return rep; }
    for (name, failed, err) in &res {
        match err {
            None => if *failed { rep.fail("swallowed", format!("{} returned success although the output had failed ({:?}, {} zero writes)", name, hard.iter().map(|e| errname(*e)).collect::<Vec<_>>(), zero)); },
            Some((raw, kind, t)) => {
                if !*failed { rep.fail("error-without-fault", format!("{}: {}", name, t)); }
                else if !(raw.map_or(false, |x| hard.contains(&x)) || (zero > 0 && *kind == std::io::ErrorKind::WriteZero)) { rep.fail("wrong-error", format!("{}: {}", name, t)); }
            }
        }
    }
    if hard.is_empty() && zero == 0 { if out != ix.data { rep.fail("wrong-index", diff(&out, &ix.data)); } }
    else {
        if !ix.data.starts_with(&out) { rep.fail("not-a-prefix", diff(&out, &ix.data)); }
        if after > 0 { rep.fail("write-after-error", format!("{} bytes written after the output failed", after)); }
        if res.last().map_or(false, |r| r.0 == "finish") { rep.probe("output fails in the footer"); }
    }
    kinds(&mut rep, &es);
    rep.nontrivial = n > 1;
    rep
}
