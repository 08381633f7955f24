//! Independent reference model of the v1 format and of a scan, transcribed
//! from FORMAT.v1.rst. Shares nothing with /repo.
use crate::json::{wide_kids, J};
use crate::os::content_at;
use crate::rng::Rng;
use digest::Digest;

#[derive(Clone, Debug, PartialEq)]
pub enum E {
    Dir(Vec<u8>),
    File { path: Vec<u8>, exe: bool, size: u64, hashes: Vec<[u8; 32]> },
    Link { path: Vec<u8>, to: Vec<u8> },
}

impl E {
    pub fn path(&self) -> &[u8] { match self { E::Dir(p) => p, E::File { path, .. } => path, E::Link { path, .. } => path } }
    pub fn is_dir(&self) -> bool { matches!(self, E::Dir(_)) }
    /// key that orders entries as the index does: directory components, then
    /// the directory itself, then its files by name, then its subdirectories
    pub fn key(&self) -> Key { key(self.path(), self.is_dir()) }
}
pub type Key = (Vec<Vec<u8>>, Option<Vec<u8>>);
pub fn key(path: &[u8], dir: bool) -> Key {
    let mut c: Vec<Vec<u8>> = path.split(|&b| b == b'/').filter(|x| !x.is_empty()).map(|x| x.to_vec()).collect();
    if dir { (c, None) } else { let f = c.pop().unwrap_or_default(); (c, Some(f)) }
}

pub const HASHES: [&str; 3] = ["sha512/256", "blake2b/256", "blake3/256"];

/// SHA-512/256 of FIPS 180-4 is what the code calls "sha512 truncated"
#[derive(Clone)]
pub enum H { Sha(sha2::Sha512Trunc256), B2(blake2::VarBlake2b), B3(Box<blake3::Hasher>) }
impl H {
    pub fn new(h: usize) -> H {
        match h {
            0 => H::Sha(sha2::Sha512Trunc256::new()),
            1 => { use blake2::digest::VariableOutput; H::B2(blake2::VarBlake2b::new(32).unwrap()) }
            _ => H::B3(Box::new(blake3::Hasher::new())),
        }
    }
    pub fn update(&mut self, b: &[u8]) {
        match self { H::Sha(h) => Digest::update(h, b), H::B2(h) => { use blake2::digest::Update; h.update(b) } H::B3(h) => { h.update(b); } }
    }
    pub fn get(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        match self.clone() {
            H::Sha(h) => o.copy_from_slice(&h.finalize()),
            H::B2(h) => { use blake2::digest::VariableOutput; h.finalize_variable(|d| o.copy_from_slice(d)); }
            H::B3(h) => o.copy_from_slice(h.finalize().as_bytes()),
        }
        o
    }
}
pub fn hash(h: usize, b: &[u8]) -> [u8; 32] { let mut x = H::new(h); x.update(b); x.get() }

pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }

pub fn escape(b: &[u8], out: &mut Vec<u8>) {
    for &c in b {
        if c <= 0x20 || c >= 0x7f || c == b'\\' { out.extend_from_slice(format!("\\x{:02x}", c).as_bytes()); } else { out.push(c); }
    }
}

pub fn header(h: usize, block: u64) -> Vec<u8> { format!("DIRSIGNATURE.v1 {} block_size={}\n", HASHES[h], block).into_bytes() }

pub fn line(e: &E) -> Vec<u8> {
    let mut o = Vec::new();
    match e {
        E::Dir(p) => escape(p, &mut o),
        E::File { path, exe, size, hashes } => {
            o.extend_from_slice(b"  ");
            escape(path.rsplit(|&b| b == b'/').next().unwrap(), &mut o);
            o.extend_from_slice(if *exe { b" x " } else { b" f " });
            o.extend_from_slice(size.to_string().as_bytes());
            for h in hashes { o.push(b' '); o.extend_from_slice(hex(h).as_bytes()); }
        }
        E::Link { path, to } => {
            o.extend_from_slice(b"  ");
            escape(path.rsplit(|&b| b == b'/').next().unwrap(), &mut o);
            o.extend_from_slice(b" s ");
            escape(to, &mut o);
        }
    }
    o.push(b'\n');
    o
}

/// the index: header, one line per entry, footer = digest of the lines
/// between the header and the footer
pub fn encode(h: usize, block: u64, es: &[E]) -> Vec<u8> {
    let mut body = Vec::new();
    for e in es { body.extend_from_slice(&line(e)); }
    let mut o = header(h, block);
    o.extend_from_slice(&body);
    o.extend_from_slice(hex(&hash(h, &body)).as_bytes());
    o.push(b'\n');
    o
}
/// byte offsets at which lines start (header included), plus the total length
pub fn line_starts(b: &[u8]) -> Vec<usize> {
    let mut v = vec![0];
    for (i, c) in b.iter().enumerate() { if *c == b'\n' { v.push(i + 1); } }
    v
}

// ------------------------------------------------------------- trees as JSON

/// How block digests are computed. `Spec` is the format; the others are what
/// the blake3 code does (known finding): the hasher is not reset per block.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Quirk { Spec, PerFile, PerScan }

pub fn node_content(n: &J) -> Vec<u8> {
    if n.has("data") { return n.get("data").bytes(); }
    let mut v = vec![0u8; n.get("s").uint() as usize];
    content_at(n.get("c").int(), 0, &mut v);
    v
}

pub fn block_digests(h: usize, data: &[u8], block: usize, q: Quirk, run: &mut H) -> Vec<[u8; 32]> {
    if q == Quirk::PerFile { *run = H::new(h); }
    data.chunks(block).map(|c| {
        if q == Quirk::Spec { *run = H::new(h); }
        run.update(c);
        run.get()
    }).collect()
}

pub const BLOCK: usize = 32768;

/// a file of zeros that is never held in memory
pub fn is_huge(n: &J) -> bool { n.get("t").str() == "f" && !n.has("data") && n.get("c").int_or(1) == 0 && n.get("s").uint() > 1 << 28 }
/// the digests of `size` zeros
pub fn zero_digests(h: usize, size: u64, block: u64) -> Vec<[u8; 32]> {
    let one = |n: u64| { let mut x = H::new(h); x.update(&vec![0u8; n as usize]); x.get() };
    let mut v = if size >= block { vec![one(block); (size / block) as usize] } else { Vec::new() };
    if size % block > 0 { v.push(one(size % block)); }
    v
}

/// what a scan of these root nodes must list, in index order
pub fn is_wide(n: &J) -> bool { n.get("t").str() == "w" || n.get("k").items().iter().any(is_wide) }
pub fn widened(n: &J) -> J {
    let mut m = n.clone();
    if let J::Arr(k) = n.get("k") { m.set("k", J::Arr(k.iter().flat_map(|x| if x.get("t").str() == "w" { wide_kids(x) } else { vec![widened(x)] }).collect())); }
    m
}
pub fn tree_entries(roots: &[&J], h: usize, q: Quirk) -> Vec<E> {
    if roots.iter().any(|n| is_wide(n)) {
        let own: Vec<J> = roots.iter().map(|n| widened(n)).collect();
        return tree_entries(&own.iter().collect::<Vec<_>>(), h, q);
    }
    let mut out = Vec::new();
    let mut run = H::new(h);
    dir_entries(roots, b"/", h, q, &mut run, &mut out);
    out
}
fn dir_entries(nodes: &[&J], path: &[u8], h: usize, q: Quirk, run: &mut H, out: &mut Vec<E>) {
    out.push(E::Dir(path.to_vec()));
    let mut files: Vec<(Vec<u8>, &J)> = Vec::new();
    let mut dirs: std::collections::BTreeMap<Vec<u8>, Vec<&J>> = Default::default();
    for n in nodes {
        let mut seen: std::collections::HashSet<Vec<u8>> = Default::default();
        for k in n.get("k").items() {
            let name = k.get("n").bytes();
            if seen.contains(&name) || name.is_empty() || name.contains(&b'/') || name.contains(&0) || name == b"." || name == b".." || name.len() > 255 { continue; }
            seen.insert(name.clone());
            match k.get("t").str() {
                "d" => dirs.entry(name).or_default().push(k),
                "o" => {}
                _ => files.push((name, k)),
            }
        }
    }
    files.sort_by(|a, b| a.0.cmp(&b.0));
    let join = |n: &[u8]| { let mut p = path.to_vec(); if !p.ends_with(b"/") { p.push(b'/'); } p.extend_from_slice(n); p };
    for (name, k) in files {
        let p = join(&name);
        if k.get("t").str() == "l" { out.push(E::Link { path: p, to: k.get("to").bytes() }); continue; }
        let exe = k.get("x").int_or(0o644) & 0o100 != 0;
        if is_huge(k) { let size = k.get("s").uint(); out.push(E::File { path: p, exe, size, hashes: zero_digests(h, size, BLOCK as u64) }); continue; }
        let data = node_content(k);
        let hashes = block_digests(h, &data, BLOCK, q, run);
        out.push(E::File { path: p, exe, size: data.len() as u64, hashes });
    }
    for (name, ks) in dirs { let p = join(&name); dir_entries(&ks, &p, h, q, run, out); }
}

pub fn count_kinds(es: &[E]) -> (u64, u64, u64) {
    let mut c = (0, 0, 0);
    for e in es { match e { E::Dir(_) => c.0 += 1, E::File { .. } => c.1 += 1, E::Link { .. } => c.2 += 1 } }
    c
}

// ------------------------------------------------------------- generators

pub const NAMES: [&[u8]; 44] = [b"a", b"b", b"c", b"ab", b"a.b", b"a-b", b"a!", b"A", b"B", b"0", b"10", b"9", b"~", b"_", b"-", b".a", b"..a", b"a b",
    b"a\\x20b", b"\\", b"\\x", b"\xc3\xa9", b"\xff\xfe", b"\x01", b"\x7f", b"a\nb", b" ", b"\t", b"a/".split_at(1).0, b"z", b"zz", b"lib", b"bin", b"s", b"x", b"f",
    b"a f 0", b"\\x2f", b"x41", b"a ", b"#", b"a\n/b f 0".split_at(2).0, b"DIRSIGNATURE.v1", b"\r"];

/// names that programs treat in ways of their own, and texts of other languages
const MORE: [&[u8]; 40] = [b"...", b"....", b"..-", b".git", b".nfs0000a", b".fuse_hidden01", b"lost+found", b"a~", b"#a#", b".#a", b"a.tmp", b"a.swp", b".DS_Store", b"Thumbs.db", b"core", b"con", b"index", b"index.tmp", b"-q", b"--",
    b"%s", b"{}", b"$a", b"a:b", b"\x1b[0m", b"\xc2\xa0", b"\xe2\x80\xa8", b"\xef\xbb\xbfa", b"\xf0\x9f\x98\x80", b"e\xcc\x81", b"\xc3\xa9", b"I", b"i", b"\xc4\xb0", b"\xed\xa0\x80", b"'", b"\"", b"*", b"?", b"\xc0\x80"];

pub fn gen_name(r: &mut Rng) -> Vec<u8> {
    // no file has the names that a directory has for itself and its parent
    loop { let n = any_name(r); if n != b"." && n != b".." && n.len() <= 255 { return n; } }
}
fn any_name(r: &mut Rng) -> Vec<u8> {
    match r.below(10) {
        0..=6 => r.pick(&NAMES).to_vec(),
        7 => { let n = 1 + r.us(4); (0..n).map(|_| { let b = r.range(1, 255) as u8; if b == b'/' { b'|' } else { b } }).collect() }
        8 => { let mut v = r.pick(&NAMES).to_vec(); v.extend_from_slice(&r.pick(&NAMES).to_vec()); v }
        _ => if r.chance(1, 20) { let c = *r.pick(&[b'L', b'\\', 0xff, b'0']); vec![c; *r.pick(&[255, 255, 64, 254])] } else if r.chance(1, 3) { r.pick(&MORE).to_vec() } else { format!("n{}", r.below(30)).into_bytes() },
    }
}

pub fn gen_size(r: &mut Rng) -> u64 {
    match r.below(16) {
        0 | 1 => 0,
        2..=6 => r.range(1, 40),
        7 | 8 => r.range(41, 9000),
        9 => 32768,
        10 => r.range(32767, 32769),
        11 => 65536,
        12 => r.range(65535, 65537),
        13 => r.range(1, 4) * 32768 + r.range(0, 3),
        14 => r.range(9000, 70000),
        _ => 8192 * r.range(1, 5),
    }
}

pub fn gen_file(r: &mut Rng, name: &[u8]) -> J {
    let mut f = J::obj().with("n", J::b(name)).with("t", J::s("f")).with("s", J::i(gen_size(r) as i64)).with("c", J::i(if r.chance(1, 12) { 0 } else { r.range(1, 1 << 40) as i64 }));
    match r.below(6) { 0 => f.set("x", J::i(0o755)), 1 => f.set("x", J::i(*r.pick(&[0o711, 0o655, 0o100, 0o611, 0o4711, 0o000, 0o077, 0o200, 0o033, 0o300]))), _ => {} }
    f
}
pub fn gen_link(r: &mut Rng, name: &[u8]) -> J {
    let to: Vec<u8> = match r.below(9) { 8 => r.pick(&[&b"a/"[..], b"a//b", b"./a", b"/a/./b", b"/", b"//", b"../", b"a/../b", b"/a//", b"a/.", b"./", b"/.", b"../.."]).to_vec(), 0 => b"..".to_vec(), 1 => b"/@sim/out/secret".to_vec(), 2 => b"missing".to_vec(), 3 => b".".to_vec(), 4 => b"../a/b".to_vec(),
        5 if r.chance(1, 6) => vec![b't'; *r.pick(&[127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2048, 4094, 4095])],
        5 => { let m = if r.chance(1, 6) { 4000 } else { 60 }; vec![b't'; r.range(1, m) as usize] }, _ => gen_name(r) };
    J::obj().with("n", J::b(name)).with("t", J::s("l")).with("to", J::b(&to))
}

/// `kin`: the names of the tree are this one with something behind it
pub struct TreeOpt { pub budget: usize, pub depth: usize, pub special: bool, pub kin: Option<Vec<u8>> }

pub fn gen_dir(r: &mut Rng, name: &[u8], o: &mut TreeOpt, depth: usize) -> J {
    let mut kids = J::arr();
    let mut names: Vec<Vec<u8>> = Vec::new();
    let want = if depth == 0 { 1 + r.us(o.budget.max(1)) } else { r.us(6) };
    // names that differ where one of them ends, around the byte of the slash
    if depth == 0 && r.chance(1, 8) { o.kin = Some(r.pick(&[&b"a"[..], b"a", b"b", b"", b"\\x", b"\xff", b"~"]).to_vec()); }
    for _ in 0..want {
        if o.budget == 0 { break; }
        let n = match &o.kin {
            Some(k) if r.chance(5, 6) => { let mut n = k.clone(); n.extend_from_slice(*r.pick(&[&b""[..], b"", b"-", b"-b", b".", b".b", b"!", b" ", b"0", b"b", b"a", b"\n", b"\x01", b"\\", b"\x7f", b"+a", b",", b"A"])); n }
            _ => gen_name(r),
        };
        if n.is_empty() || n == b"." || n == b".." || names.contains(&n) { continue; }
        names.push(n.clone());
        o.budget -= 1;
        let k = match if o.kin.is_some() && r.chance(1, 3) { 0 } else { r.below(12) } {
            0..=2 if depth < o.depth => gen_dir(r, &n, o, depth + 1),
            3 => gen_link(r, &n),
            4 if o.special => J::obj().with("n", J::b(&n)).with("t", J::s("o")).with("o", J::s(if r.chance(1, 2) { "fifo" } else { "sock" })),
            _ => gen_file(r, &n),
        };
        kids.push(k);
    }
    J::obj().with("n", J::b(name)).with("t", J::s("d")).with("k", kids)
}

thread_local! {
    /// the next tree has a directory with more entries than a small integer counts
    pub static FORCE_WIDE: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// now and then a tree that is big in one way: wide, deep, or one long file
pub fn gen_wide(r: &mut Rng) -> J {
    J::obj().with("n", J::s(*r.pick(&["w", "-", "a"]))).with("t", J::s("w")).with("s", J::i(*r.pick(&[2000, 4100, 10_000, 33_000, 66_000]))).with("o", J::s(*r.pick(&["", "", "", "mix"])))
}
pub fn enlarge(r: &mut Rng, d: &mut J, long: bool) {
    let f = FORCE_WIDE.with(|f| f.take());
    if f > 0 {
        let w = gen_wide(r).with("s", J::i(66_000)).with("o", J::s(["", "dirs", "", "links"][(f as usize - 1) % 4]));
        push_kid(d, w);
        return;
    }
    if !long && r.chance(1, 3000) { let w = gen_wide(r); push_kid(d, w); return; }
    match r.below(240) {
        0 => {
            // many entries in one directory
            let n = *r.pick(&[70, 130, 260, 300, 700, 1100]);
            for i in 0..n { let f = J::obj().with("n", J::s(&format!("w{}", i))).with("t", J::s("f")).with("s", J::i(r.below(4) as i64)).with("c", J::i(i)); push_kid(d, f); }
        }
        1 => {
            // many directories
            let n = *r.pick(&[40, 70, 140, 270]);
            for i in 0..n { let f = J::obj().with("n", J::s(&format!("v{}", i))).with("t", J::s("d")).with("k", if r.chance(1, 3) { J::Arr(vec![gen_file(r, b"q")]) } else { J::arr() }); push_kid(d, f); }
        }
        2 | 3 => {
            // one below the other
            let n = *r.pick(&[12, 33, 70, 140]);
            // longer than any path may be that is given to the kernel
            let long_names = r.chance(1, 2);
            let mut k = J::obj().with("n", J::s("end")).with("t", J::s("f")).with("s", J::i(3)).with("c", J::i(5));
            for i in 0..n {
                let nm = if n < 40 && r.chance(1, if long_names { 1 } else { 9 }) { vec![b'D'; 250] } else { b"deep".to_vec() };
                let mut v = vec![k];
                if r.chance(1, 4) { v.push(gen_file(r, b"side")); }
                let _ = i;
                k = J::obj().with("n", J::b(&nm)).with("t", J::s("d")).with("k", J::Arr(v));
            }
            push_kid(d, k);
        }
        4 if long => { let n = *r.pick(&[8, 17, 33, 70, 260]); let s = n * 32768 + *r.pick(&[-1i64, 0, 1, 100]); let f = J::obj().with("n", J::s("long")).with("t", J::s("f")).with("s", J::i(s)).with("c", J::i(r.range(1, 1 << 30) as i64)); push_kid(d, f); }
        // several files that take the workers a while, among them equal ones
        5 | 6 if long => {
            let same = r.range(1, 1 << 30) as i64;
            for i in 0..r.range(2, 4) {
                let s = *r.pick(&[5i64, 8, 8, 9, 12, 16, 17]) * 32768 + *r.pick(&[-1i64, 0, 0, 1, 100]);
                let f = J::obj().with("n", J::s(&format!("long{}", i))).with("t", J::s("f")).with("s", J::i(s)).with("c", J::i(if r.chance(1, 4) { same } else { r.range(1, 1 << 30) as i64 }));
                push_kid(d, f);
            }
        }
        _ => {}
    }
}
pub fn push_kid(d: &mut J, k: J) {
    let mut a = d.get("k").clone();
    if a.items().iter().any(|x| x.get("n").bytes() == k.get("n").bytes()) { return; }
    a.push(k);
    d.set("k", a);
}

/// Entries of a tree whose files have made-up digests (for the properties
/// about reading an index, where nobody hashes content).
pub fn list_entries(tree: &J, block: u64) -> Vec<E> {
    fn strip(n: &J, sizes: &mut Vec<(u64, i64)>) -> J {
        let mut m = n.clone();
        m.set("s", J::i(0));
        if let J::Arr(k) = n.get("k") { m.set("k", J::Arr(k.iter().map(|x| strip(x, sizes)).collect())); }
        m
    }
    let tree = &if is_wide(tree) { widened(tree) } else { tree.clone() };
    let mut es = tree_entries(&[&strip(tree, &mut Vec::new())], 0, Quirk::Spec);
    let mut nodes = Vec::new();
    all_nodes(tree.get("k").items(), b"", &mut nodes);
    let mut at: std::collections::HashMap<Vec<u8>, &J> = Default::default();
    for (p, n) in nodes { at.entry(p).or_insert(n); }
    for e in es.iter_mut() {
        if let E::File { path, size, hashes, .. } = e {
            let n = match at.get(path) { Some(n) => *n, None => continue };
            let k = n.get("s").uint().min(70_000);
            let rem = n.get("m").uint();
            // s whole blocks and m more bytes
            let sz = if block == 0 { 0 } else { block.checked_mul(k).and_then(|v| v.checked_add(rem.min(block - 1))).unwrap_or(rem.min(block - 1)) };
            *size = sz;
            let cnt = if block == 0 { 0 } else { sz / block + (sz % block != 0) as u64 };
            let c = n.get("c").int() as u64;
            *hashes = (0..cnt).map(|i| { let mut d = [0u8; 32]; content_at((c ^ (i << 40)).max(1) as i64, 0, &mut d); d }).collect();
        }
    }
    es
}
pub fn gen_list_tree(r: &mut Rng, n: usize) -> J {
    let mut o = TreeOpt { budget: n, depth: 5, special: false, kin: None };
    let mut t = gen_dir(r, b"r", &mut o, 0);
    enlarge(r, &mut t, false);
    // rarely a file of so many blocks that its row is longer than 64 kB
    let mut big = if r.chance(1, 60) { *r.pick(&[1000, 1008, 1100, 2000, 4100, 16_200, 20_000, 66_000]) } else { 0 };
    let big = &mut big;
    fn fix(n: &mut J, r: &mut Rng, big: &mut i64) {
        if n.get("t").str() == "f" {
            n.set("s", J::i(if *big > 0 && r.chance(1, 2) { std::mem::take(big) } else { *r.pick(&[0, 0, 0, 0, 1, 1, 2, 3, 7]) }));
            n.set("m", J::i(*r.pick(&[0, 1, 5, 100, 32767, 1 << 50])));
            n.set("c", J::i(r.range(1, 1 << 38) as i64));
        }
        if let J::Obj(o) = n { for e in o.iter_mut() { if e.0 == "k" { if let J::Arr(a) = &mut e.1 { for x in a.iter_mut() { fix(x, r, big); } } } } }
    }
    fix(&mut t, r, big);
    t
}

pub fn find_node<'a>(fs: &'a [J], path: &[u8]) -> Option<&'a J> {
    let mut cur: Option<&J> = None;
    let mut kids = fs;
    for c in path.split(|&b| b == b'/').filter(|c| !c.is_empty()) {
        cur = kids.iter().find(|k| k.get("n").bytes() == c);
        kids = cur?.get("k").items();
    }
    cur
}
/// all nodes below `fs` with their simulated paths
pub fn all_nodes<'a>(fs: &'a [J], base: &[u8], out: &mut Vec<(Vec<u8>, &'a J)>) {
    for n in fs {
        let mut p = base.to_vec(); p.push(b'/'); p.extend_from_slice(&n.get("n").bytes());
        out.push((p.clone(), n));
        all_nodes(n.get("k").items(), &p, out);
    }
}
